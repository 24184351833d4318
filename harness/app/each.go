package app

import (
	"context"
	"fmt"
	"io"
	"strconv"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

// HEach runs an action for each occurrence of an option, of several types.
func HEach() {
	kind := sym.Choose("kind", 5) // string, int, list, map, bool
	isArg := sym.Bool("arg")
	merge := sym.Bool("merge")
	def := sym.Bool("default")
	failAt := sym.Choose("fail", 3) - 1
	other := sym.Bool("other")
	sym.Assume(kind != 3 || !isArg)
	sym.Assume(kind != 4 || !(isArg || merge))
	sym.Assume(kind != 1 || !merge)
	n := sym.Choose("occurrences", sym.Bound(4, 5))
	argv := []string{"app"}
	if other {
		argv = append(argv, "--g=z")
	}
	var given []string
	for i := 0; i < n; i++ {
		var v string
		switch kind {
		case 1:
			v = sym.StringN("number", 1, "0123")
		case 3:
			v = sym.StringN("key", 1, "kl") + "=" + sym.StringN("value", 1, "vw")
		case 4:
			v = []string{"true", "false"}[sym.Choose("bool", 2)]
		default:
			v = sym.StringN("text", 2, "a,\\")
			if kind == 0 || isArg {
				sym.Assume(v[0] == 'a')
			}
		}
		given = append(given, v)
		if isArg {
			argv = append(argv, v)
		} else {
			argv = append(argv, "--f="+v)
		}
	}
	var (
		s  string
		i  int
		l  []string
		m  map[string]string
		b  bool
		p  any
		mt = merge && (kind == 0 || kind == 2 || kind == 3)
	)
	p = []any{&s, &i, &l, &m, &b}[kind]
	if def {
		s, i, l, m, b = "d", 9, []string{"d"}, map[string]string{"d": "e"}, true
	}
	// show is the text of a value
	show := func(v any) string {
		switch x := v.(type) {
		case map[string]string:
			res := ""
			for _, k := range []string{"d", "k", "l"} {
				if t, ok := x[k]; ok {
					res += k + "=" + t + ";"
				}
			}
			return res + strconv.Itoa(len(x))
		case []string:
			return strings.Join(x, ";") + " " + strconv.Itoa(len(x))
		}
		return fmt.Sprint(v)
	}
	// value after occurrences from..to, on top of the default
	expect := func(from, to int, onDefault bool) string {
		switch kind {
		case 0:
			var t []string
			if onDefault {
				t = append(t, "d")
			}
			return strings.Join(append(t, given[from:to]...), " ")
		case 2:
			var t []string
			if onDefault {
				t = append(t, "d")
			}
			for _, g := range given[from:to] {
				t = append(t, cli.SplitList(g, ",", -1)...)
			}
			return show(t)
		case 3:
			t := map[string]string{}
			if onDefault {
				t["d"] = "e"
			}
			for _, g := range given[from:to] {
				t[g[:1]] = g[2:]
			}
			return show(t)
		}
		return given[to-1]
	}
	// the winning value is what the flag has without the option
	final := func() string {
		switch {
		case n == 0:
			return ""
		case kind == 0 && isArg && !mt:
			// the values of an arg make up one string
			return strings.Join(given, " ")
		case kind == 0 && !mt:
			return given[n-1]
		}
		return expect(0, n, mt && def)
	}()

	calls := 0
	act := func(c *cli.Context) error {
		k := calls
		calls++
		sym.Assert(c.IsAction() && !c.IsInitializing(), "the action for an occurrence does not run in the action timing")
		want := ""
		if mt {
			want = expect(0, k+1, false)
		} else {
			want = expect(k, k+1, false)
		}
		if kind == 3 || kind == 2 || kind == 0 {
			// whether the default is part of merged occurrences is left open
			if !(mt && def) {
				sym.Assert(show(c.Value("")) == want, "the action for an occurrence does not get its value")
			}
		} else {
			sym.Assert(show(c.Value("")) == want, "the action for an occurrence does not get its value")
		}
		if isArg {
			sym.Assert(strings.Join(c.RawOccurrences(""), "|") == given[k], "the action for an occurrence does not get its raw text")
		} else {
			sym.Assert(strings.Join(c.Raw(""), "|") == "--f|"+given[k], "the action for an occurrence does not get its raw text")
			sym.Assert(strings.Join(c.RawOccurrences(""), "|") == given[k], "the action for an occurrence does not get its raw text")
			sym.Assert(len(c.Raw("f")) == 2*n, "other lookups do not get all occurrences")
		}
		sym.Assert(show(c.Value("f")) == final, "other lookups do not get the winning value during the action for an occurrence")
		sym.Assert(c.Occurrences("f") == n && c.Seen("f"), "other lookups do not get the number of occurrences")
		if other {
			sym.Assert(c.String("g") == "z", "the action for an occurrence does not get other options")
		}
		if k == failAt {
			return errStep
		}
		return nil
	}
	ran := false
	app := &cli.App{
		Name: "app", Stderr: io.Discard, Stdout: io.Discard,
		Flags: []*cli.Flag{{Name: "g", Value: cli.String()}},
		Action: func(c *cli.Context) {
			ran = true
			if n > 0 {
				sym.Assert(show(c.Value("f")) == final, "the winning value is not what it would be without an action for each occurrence")
			}
			sym.Assert(c.Occurrences("f") == n, "occurrences are not counted as they would be without an action for each")
		},
	}
	action := cli.ActionOf(act)
	if n > 0 && n < 3 && failAt < 1 && !other {
		switch sym.Choose("nested", 3) {
		case 1:
			action = cli.At(cli.ActionTiming, action)
		case 2:
			action = cli.ActionOf(func(c *cli.Context) error {
				sym.Assert(c.Before(nil) != nil, "the action for an occurrence is too early")
				return c.Action(cli.ActionOf(act))
			})
		}
	}
	opts := cli.EachOccurrence
	if merge {
		opts |= cli.Merge
	}
	if isArg {
		app.Args = []*cli.Arg{{Name: "f", NArg: cli.TakeUntilNextFlag, Value: p, Options: opts, Action: action}}
	} else {
		app.Flags = append(app.Flags, &cli.Flag{Name: "f", Value: p, Options: opts, Action: action})
	}
	err := app.RunContext(context.Background(), argv)
	if failAt >= 0 && failAt < n {
		sym.Assert(err != nil && !ran && calls == failAt+1, "an error for an occurrence does not end the run")
		return
	}
	sym.Assert(err == nil && ran, "a run with valid occurrences fails")
	sym.Assert(calls == n, "the action does not run once for each occurrence")
}
