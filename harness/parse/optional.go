package parse

import (
	"context"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

// HOptional: an arg that only takes a value its function accepts is passed over by any other value.
func HOptional() {
	n := 1 + sym.Choose("optional args", 2)
	anything := sym.Bool("any value")
	rest := sym.Bool("rest")
	var toks []string
	for i := sym.Choose("values", sym.Bound(4, 5)); i > 0; i-- {
		s := sym.String("v", sym.Bound(2, 3), "@x")
		sym.Assume(s != "")
		toks = append(toks, s)
	}

	// who gets what
	want := make([]string, n)
	var wantRest []string
	at := 0
	over := false
	for _, s := range toks {
		for at < n && !(anything || s[0] == '@') {
			at++
		}
		switch {
		case at < n:
			want[at] = s
			at++
		case rest:
			wantRest = append(wantRest, s)
		default:
			over = true
		}
	}

	vals := make([]string, n)
	var others []string
	f, ran := false, false
	names := []string{"a", "b"}
	app := &cli.App{
		Name:   "app",
		Flags:  []*cli.Flag{{Name: "f", Value: &f}},
		Action: func() { ran = true },
	}
	for i := 0; i < n; i++ {
		var fn func(string) bool
		if !anything {
			fn = func(s string) bool { return len(s) > 0 && s[0] == '@' }
		}
		app.Args = append(app.Args, &cli.Arg{Name: names[i], Value: &vals[i], NArg: cli.OptionalArg(fn)})
	}
	if rest {
		app.Args = append(app.Args, &cli.Arg{Name: "c", Value: &others, NArg: cli.TakeExceptForFlags})
	}
	argv := []string{"app"}
	flag := sym.Bool("flag")
	pos := 0
	if flag {
		pos = sym.Choose("flag at", len(toks)+1)
	}
	for i, s := range toks {
		if flag && pos == i {
			argv = append(argv, "-f")
		}
		argv = append(argv, s)
	}
	if flag && pos == len(toks) {
		argv = append(argv, "-f")
	}
	err := app.RunContext(context.Background(), argv)
	if err != nil {
		sym.Observe("error", err.Error())
	}
	if over {
		sym.Reach("too many")
		sym.Assert(err != nil && !ran, "a value no arg takes is accepted")
		return
	}
	sym.Assert(err == nil && ran, "values which the args take are refused")
	for i := range vals {
		sym.Observe("arg", vals[i])
		sym.Assert(vals[i] == want[i], "an optional arg does not have the value it accepts")
	}
	sym.Assert(len(others) == len(wantRest), "the last arg does not have the other values")
	for i := range others {
		sym.Assert(others[i] == wantRest[i], "the last arg has another value")
	}
	sym.Assert(f == flag, "the flag among the values is not set")
}
