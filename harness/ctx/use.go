package ctx

import (
	"context"
	"fmt"
	"io"
	"slices"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

// legacy is an action of the former interface.
type legacy struct{ f func() error }

func (l legacy) Execute(*cli.Context) error { return l.f() }

// HUse appends actions to elements, in all forms
func HUse() {
	var ran []int
	var fails int = -1
	action := func(i int) any {
		run := func() error {
			ran = append(ran, i)
			if i == fails {
				return errBroken
			}
			return nil
		}
		switch sym.Choose("form", sym.Bound(5, 10)) {
		case 0:
			return run
		case 1:
			return legacy{run}
		case 2:
			return func(c *cli.Context, next cli.Action) error {
				if err := run(); err != nil {
					return err
				}
				return c.Do(next)
			}
		case 3:
			return func(next cli.Action) cli.Action {
				if next == nil {
					return cli.ActionOf(run)
				}
				return cli.Pipeline(run, next)
			}
		case 4:
			return cli.Pipeline(run)
		case 5:
			return func(*cli.Context) error { return run() }
		case 6:
			return func(context.Context) error { return run() }
		case 7:
			return cli.Setup{Uses: run}
		case 8:
			return cli.Initializer(cli.ActionOf(run))
		}
		return &cli.Prototype{Setup: cli.Setup{Uses: run}}
	}
	var own any
	n := 0
	if sym.Bool("own") {
		own = action(0)
		n = 1
	}
	first := n
	var acts []cli.Action
	for i := sym.Choose("uses", 3); i > 0; i-- {
		acts = append(acts, cli.ActionOf(action(n)))
		n++
	}
	if sym.Bool("fails") && n > 0 {
		fails = sym.Choose("failing", n)
	}
	app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard, Action: func() {}}
	var other cli.Action // derived from the same
	switch sym.Choose("element", 6) {
	case 0:
		app.Uses = own
		for _, a := range acts {
			sym.Assert(app.Use(a) == app, "another app is used")
		}
	case 1:
		cmd := &cli.Command{Name: "s", Uses: own}
		app.Commands = []*cli.Command{cmd}
		for _, a := range acts {
			sym.Assert(cmd.Use(a) == cmd, "another command is used")
		}
	case 2:
		f := &cli.Flag{Name: "f", Uses: own}
		app.Flags = []*cli.Flag{f}
		for _, a := range acts {
			sym.Assert(f.Use(a) == f, "another flag is used")
		}
	case 3:
		f := &cli.Arg{Name: "f", Uses: own}
		app.Args = []*cli.Arg{f}
		for _, a := range acts {
			sym.Assert(f.Use(a) == f, "another arg is used")
		}
	case 4:
		s := cli.Setup{Uses: own}
		base := s
		for _, a := range acts {
			base = s
			s = s.Use(a)
			other = base.Use(cli.ActionOf(func() { ran = append(ran, 100) }))
		}
		app.Uses = s
	case 5:
		s := cli.Prototype{Setup: cli.Setup{Uses: own}}
		base := s
		for _, a := range acts {
			base = s
			s = s.Use(a)
			other = base.Use(cli.ActionOf(func() { ran = append(ran, 100) }))
		}
		app.Uses = s
	}
	err := app.RunContext(context.Background(), []string{"app"})
	var want []int
	for i := range n {
		want = append(want, i)
		if i == fails {
			break
		}
	}
	sym.Assert(slices.Equal(ran, want), "the actions which run differ")
	sym.Assert((err != nil) == (fails >= 0), "the result differs")
	if other != nil {
		// What one is extended with isn't in the other
		ran, fails = nil, -1
		app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard, Action: func() {}, Uses: other}
		err := app.RunContext(context.Background(), []string{"app"})
		want = want[:0]
		for i := range n - 1 {
			want = append(want, i)
		}
		want = append(want, 100)
		sym.Assert(err == nil && slices.Equal(ran, want), "the actions of what is derived differ")
	}
	sym.Reach(fmt.Sprint("used ", n-first))
}

// HElements finds elements of an app, before, while and after it runs, and the app which runs
func HElements() {
	f := &cli.Flag{Name: "f", Aliases: []string{"long"}, Value: cli.Bool()}
	g := &cli.Flag{Name: "g", Value: cli.Bool()}
	x := &cli.Arg{Name: "x"}
	y := &cli.Arg{Name: "y"}
	s := &cli.Command{Name: "s", Aliases: []string{"sub"}}
	t := &cli.Command{Name: "t"}
	app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard,
		Flags: []*cli.Flag{f}, Args: []*cli.Arg{x}, Commands: []*cli.Command{s},
	}
	inner := &cli.App{Name: "inner", Stdout: io.Discard, Stderr: io.Discard}
	added := sym.Bool("added")
	nested := sym.Choose("nested", 3)
	var fail error
	if sym.Bool("fails") {
		fail = errBroken
	}
	name := sym.StringN("name", 1, "fgxyst")
	has := func(present bool) {
		flag, ok := app.Flag(name)
		sym.Assert(ok == (name == "f" || name == "g" && present), "a flag is or isn't found")
		sym.Assert(!ok && flag == nil || name == "f" && flag == f || name == "g" && flag == g, "another flag is found")
		arg, ok := app.Arg(name)
		sym.Assert(ok == (name == "x" || name == "y" && present), "an arg is or isn't found")
		sym.Assert(!ok && arg == nil || name == "x" && arg == x || name == "y" && arg == y, "another arg is found")
		cmd, ok := app.Command(name)
		sym.Assert(ok == (name == "s" || name == "t" && present), "a command is or isn't found")
		sym.Assert(!ok && cmd == nil || name == "s" && cmd == s || name == "t" && cmd == t, "another command is found")

		flag, ok = app.Flag("long")
		sym.Assert(ok && flag == f, "an alias isn't found")
		cmd, ok = app.Command("sub")
		sym.Assert(ok && cmd == s, "an alias of a command isn't found")
		arg, ok = app.Arg(0)
		sym.Assert(ok && arg == x, "the first arg isn't found")
		arg, ok = app.Arg(x)
		sym.Assert(ok && arg == x, "an arg isn't found by itself")
	}
	steps := 0
	step := func(c *cli.Context) {
		steps++
		sym.Assert(cli.CurrentApp() == app, "another app is current")
		sym.Assert(c.App() == app && c.Root().App() == app, "another app is the one of the context")
		cmd, ok := app.Command("")
		sym.Assert(ok && cmd == c.Root().Command(), "the command of the app isn't the root")
	}
	nest := func() {
		count := 0
		inner.Action = func(c *cli.Context) {
			count++
			sym.Assert(cli.CurrentApp() == inner && c.App() == inner, "the inner app isn't current")
		}
		err := inner.RunContext(context.Background(), []string{"inner"})
		sym.Assert(err == nil && count == 1, "the inner app doesn't run")
		sym.Assert(cli.CurrentApp() == app, "the app isn't current again")
	}
	app.Uses = func(c *cli.Context) error {
		step(c)
		if added {
			for _, a := range []cli.Action{cli.AddFlag(g), cli.AddArg(y), cli.AddCommand(t)} {
				if err := c.Do(a); err != nil {
					return err
				}
			}
		}
		has(added)
		if nested == 1 {
			nest()
		}
		return nil
	}
	app.Action = func(c *cli.Context) error {
		step(c)
		has(added)
		if nested == 2 {
			nest()
		}
		return fail
	}
	has(false)
	sym.Assert(cli.CurrentApp() == nil, "an app is current though none runs")
	app.After = func(c *cli.Context) { step(c) }
	f.Before = func(c *cli.Context) { step(c) }
	err := app.RunContext(context.Background(), []string{"app"})
	sym.Assert((err != nil) == (fail != nil), "the result differs")
	want := 4
	if fail != nil {
		want = 3
	}
	sym.Assert(steps == want, "a step is missing")
	has(added)
	sym.Assert(cli.CurrentApp() == nil, "an app is current after it ran")
	sym.Reach("elements")
}
