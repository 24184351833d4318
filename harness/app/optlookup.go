package app

import (
	"context"
	"fmt"
	"io"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

// HOptionLookup looks up each option in the actions of all of them and of the command.
func HOptionLookup() {
	type opt struct {
		name, def string
		values    []string
		raw       []string
		occurs    []string
	}
	names := []string{"f", "g", "x"}
	opts := map[string]*opt{}
	for _, n := range names {
		opts[n] = &opt{name: n, def: "d" + n}
	}
	hide := sym.Bool("hide") // sub has its own f
	argv := []string{"app"}
	give := func(n string, apply bool) {
		v := sym.StringN("value", 1, "vw")
		argv = append(argv, "-"+n, v)
		if apply {
			o := opts[n]
			o.values = append(o.values, v)
			o.raw = append(o.raw, "-"+n, v)
			o.occurs = append(o.occurs, v)
		}
	}
	if sym.Bool("f in app") {
		give("f", !hide)
	}
	argv = append(argv, "sub")
	nf := sym.Choose("f in sub", 3)
	for i := 0; i < nf; i++ {
		if i == 0 {
			// occurrences are those in the nearest command that has any
			opts["f"].raw, opts["f"].occurs = nil, nil
		}
		give("f", true)
	}
	ng := sym.Choose("g", 3)
	for i := 0; i < ng; i++ {
		give("g", true)
	}
	if sym.Bool("x") {
		v := sym.StringN("value", 1, "vw")
		argv = append(argv, v)
		opts["x"].values = []string{v}
		opts["x"].raw = []string{"<x>", v}
		opts["x"].occurs = []string{v}
	}
	acted := 0
	check := func(own string) cli.Action {
		return cli.ActionFunc(func(c *cli.Context) error {
			acted++
			for _, n := range names {
				o := opts[n]
				want := o.def
				if len(o.values) > 0 {
					want = o.values[len(o.values)-1]
				}
				sym.Assert(c.String(n) == want, "an option's value looked up elsewhere is not its value")
				sym.Assert(c.Seen(n) == (len(o.values) > 0), "an option looked up elsewhere is seen though not given, or not though given")
				sym.Assert(c.Occurrences(n) == len(o.values), "an option looked up elsewhere has other occurrences")
				if n != own || n != "x" {
					sym.Observe("raw", fmt.Sprint(own, " ", n, " ", c.Raw(n)))
					sym.Assert(strings.Join(c.Raw(n), " ") == strings.Join(o.raw, " "), "an option looked up elsewhere has other raw occurrences")
				}
				sym.Assert(strings.Join(c.RawOccurrences(n), " ") == strings.Join(o.occurs, " "), "an option looked up elsewhere has other raw occurrences")
				if n == own {
					sym.Assert(c.String("") == want && c.Value(nil) == any(want), "an option does not know its own value")
					sym.Assert(c.Seen("") == (len(o.values) > 0) && c.Occurrences("") == len(o.values), "an option does not know its own occurrences")
					sym.Assert(strings.Join(c.RawOccurrences(""), " ") == strings.Join(o.occurs, " "), "an option does not know its own raw occurrences")
				}
			}
			return nil
		})
	}
	flag := func(n, own string) *cli.Flag {
		v := "d" + n
		return &cli.Flag{Name: n, Value: &v, Action: check(own)}
	}
	f := flag("f", "f")
	sub := &cli.Command{
		Name:   "sub",
		Flags:  []*cli.Flag{flag("g", "g")},
		Args:   []*cli.Arg{{Name: "x", Value: func() *string { s := "dx"; return &s }(), NArg: 0, Action: check("x")}},
		Action: check(""),
	}
	if hide {
		sub.Flags = append(sub.Flags, f)
		f = &cli.Flag{Name: "f", Value: cli.String()}
	} else {
		// its action in app runs before sub is parsed
		f.Action = nil
	}
	app := &cli.App{Name: "app", Stderr: io.Discard, Stdout: io.Discard, Flags: []*cli.Flag{f}, Commands: []*cli.Command{sub}}
	err := app.RunContext(context.Background(), argv)
	sym.Assert(err == nil, "a run with valid options fails")
	want := 1
	for _, n := range names {
		if len(opts[n].values) > 0 && (n != "f" || hide) {
			want++
		}
	}
	sym.Assert(acted == want, "the action of an option does not run exactly when it is given")
}
