// Package nav states the properties of navigating the commands, flags and args from a context.
package nav

import (
	"context"
	"errors"
	"io"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

// tree is an app with commands three levels deep.
type tree struct {
	app    *cli.App
	cmds   []*cli.Command // the ones below the app, outermost first
	flags  [][]*cli.Flag  // of each level
	args   [][]*cli.Arg
	argv   []string
	levels []string
}

// newTree creates the tree; shadow gives the command sub a flag like the app's.
func newTree(shadow bool) *tree {
	t := &tree{levels: []string{"app", "sub", "leaf"}}
	t.flags = [][]*cli.Flag{
		{{Name: "file", Aliases: []string{"f"}}, {Name: "g"}},
		{{Name: "k", Aliases: []string{"kind"}}},
		{{Name: "leaf"}},
	}
	if shadow {
		t.flags[1] = append(t.flags[1], &cli.Flag{Name: "file"})
	}
	t.args = [][]*cli.Arg{nil, nil, {{Name: "x"}, {Name: "g"}}}
	leaf := &cli.Command{Name: "leaf", Aliases: []string{"l"}, Flags: t.flags[2], Args: t.args[2]}
	other := &cli.Command{Name: "other"}
	sub := &cli.Command{Name: "sub", Flags: t.flags[1], Subcommands: []*cli.Command{other, leaf}}
	t.cmds = []*cli.Command{sub, leaf}
	t.app = &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard, Flags: t.flags[0], Commands: []*cli.Command{{Name: "pre"}, sub}}
	return t
}

// run calls fn in the context of the command at the level, in one of the timings.
func (t *tree) run(level int, fn func(*cli.Context)) {
	t.act(level, sym.Choose("timing", 4), fn)
}

func (t *tree) act(level, timing int, fn func(*cli.Context)) {
	ran := 0
	h := func(c *cli.Context) error {
		ran++
		fn(c)
		return nil
	}
	argv := t.levels[:level+1]
	var uses, before, action, after cli.Action
	switch timing {
	case 0:
		uses = cli.ActionFunc(h)
	case 1:
		before = cli.ActionFunc(h)
	case 2:
		action = cli.ActionFunc(h)
	case 3:
		after = cli.ActionFunc(h)
	}
	if level == 0 {
		t.app.Uses, t.app.Before, t.app.Action, t.app.After = uses, before, action, after
	} else {
		c := t.cmds[level-1]
		c.Uses, c.Before, c.Action, c.After = uses, before, action, after
	}
	err := t.app.RunContext(context.Background(), argv)
	sym.Assert(err == nil && ran == 1, "a pipeline which succeeds is not run once")
}

func same(a []string, b ...string) bool {
	return strings.Join(a, " ") == strings.Join(b, " ") && len(a) == len(b)
}

func named(names []string, n string) bool {
	for _, m := range names {
		if m == n {
			return true
		}
	}
	return false
}

// own gives the flags in t, without the ones the framework adds.
func own(flags []*cli.Flag, level []*cli.Flag) []*cli.Flag {
	var res []*cli.Flag
	for _, f := range flags {
		for _, g := range level {
			if f == g {
				res = append(res, f)
			}
		}
	}
	return res
}

// HLineage compares what a context says about where it is with the tree.
func HLineage() {
	t := newTree(sym.Bool("shadow"))
	level := sym.Choose("level", 3)
	t.run(level, func(c *cli.Context) {
		sym.Assert(same(c.Path(), t.levels[:level+1]...), "the path of a command is not the names of its ancestors and its own")
		sym.Assert(c.Name() == t.levels[level] && c.Path().Last() == c.Name() && c.Path().String() == strings.Join(t.levels[:level+1], " "), "the name of a command is not the last of its path")
		sym.Assert(c.IsCommand() && !c.IsFlag() && !c.IsArg() && c.Path().IsCommand() && !c.Path().IsFlag() && !c.Path().IsArg(), "the context of a command is not said to be one")
		sym.Assert(c.App() == t.app, "the app of a context is another")
		l := c.Lineage()
		sym.Assert(len(l) == level+1 && l[0] == c && l[level] == c.Root() && c.Root().Parent() == nil, "the lineage is not each ancestor once")
		var flags []*cli.Flag
		for i := 0; i <= level; i++ {
			a := l[level-i]
			sym.Assert(same(a.Path(), t.levels[:i+1]...), "the path of an ancestor is not a prefix of the path")
			if i > 0 {
				sym.Assert(a.Parent() == l[level-i+1] && a.Command() == t.cmds[i-1] && a.Target() == any(t.cmds[i-1]), "an ancestor is not the command which defines the next")
			}
			local := own(a.LocalFlags(), t.flags[i])
			sym.Assert(len(local) == len(t.flags[i]), "a command has other flags")
			for j, f := range local {
				sym.Assert(f == t.flags[i][j], "a command has its flags in another order")
			}
			sym.Assert(len(a.LocalArgs()) >= len(t.args[i]), "a command has other args")
			for j, x := range t.args[i] {
				sym.Assert(a.LocalArgs()[j] == x, "a command has other args")
			}
			if i == level {
				p := a.PersistentFlags()
				all := own(p, flags)
				sym.Assert(len(all) == len(flags), "a command doesn't inherit the flags of its ancestors")
				for j, f := range flags {
					sym.Assert(all[j] == f, "a command inherits the flags in another order")
				}
				for _, f := range p {
					sym.Assert(len(own([]*cli.Flag{f}, t.flags[i])) == 0, "a command inherits its own flag")
				}
				sym.Assert(len(a.Flags()) == len(p)+len(a.LocalFlags()), "the flags of a command are not the inherited and its own")
				for j, f := range a.Flags() {
					if j < len(p) {
						sym.Assert(f == p[j], "the flags of a command are not the inherited, then its own")
					} else {
						sym.Assert(f == a.LocalFlags()[j-len(p)], "the flags of a command are not the inherited, then its own")
					}
				}
			}
			flags = append(flags, t.flags[i]...)
		}
	})
	sym.Reach("lineage")
}

// find is the target with the path, by the definition of the tree; nil if there is none.
func (t *tree) find(path []string) (any, string) {
	if len(path) == 0 || path[0] != "app" {
		return nil, ""
	}
	level := 0
	for i, n := range path[1:] {
		last := i == len(path)-2
		switch {
		case strings.HasPrefix(n, "-"):
			if !last {
				return nil, "?"
			}
			for l := level; l >= 0; l-- {
				for _, f := range t.flags[l] {
					if named(append([]string{f.Name}, f.Aliases...), strings.TrimLeft(n, "-")) {
						return f, f.Name
					}
				}
			}
			return nil, ""
		case strings.HasPrefix(n, "<"):
			if !last {
				return nil, "?"
			}
			for l := level; l >= 0; l-- {
				for _, a := range t.args[l] {
					if "<"+a.Name+">" == n {
						return a, a.Name
					}
				}
			}
			return nil, ""
		default:
			if level == 2 {
				return nil, ""
			}
			c := t.cmds[level]
			if !named(append([]string{c.Name}, c.Aliases...), n) {
				return nil, ""
			}
			level++
		}
	}
	if level == 0 {
		return t.app, ""
	}
	return t.cmds[level-1], t.cmds[level-1].Name
}

// HFindTarget finds targets by any path and compares with the tree.
func HFindTarget() {
	t := newTree(sym.Bool("shadow"))
	steps := []string{"sub", "leaf", "l", "--file", "-f", "-g", "--kind", "-k", "--leaf", "<x>", "<g>", "<y>", "no", "-no"}
	path := []string{"app"}
	if sym.Bool("other root") {
		path[0] = "sub"
	}
	n := sym.Choose("steps", sym.Bound(3, 4))
	for i := 0; i < n; i++ {
		path = append(path, steps[sym.Choose("step", len(steps))])
	}
	want, name := t.find(path)
	sym.Assume(name != "?")
	t.act(sym.Choose("level", 3), 2, func(c *cli.Context) {
		got, ok := c.Root().FindTarget(path)
		sym.Assert(ok == (want != nil), "a target is found which doesn't exist, or not found though it exists")
		if !ok {
			return
		}
		if want == any(t.app) {
			sym.Assert(got == c.Root(), "another target than the root is found for its name")
			return
		}
		sym.Assert(got.Target() == want, "another target is found than the one with the path")
		if canonical, _ := t.find(got.Path()); canonical == want {
			again, ok := c.Root().FindTarget(got.Path())
			sym.Assert(ok && again.Target() == want, "the path of a target does not find it")
		}
		_, isFlag := want.(*cli.Flag)
		_, isArg := want.(*cli.Arg)
		sym.Assert(got.IsFlag() == isFlag && got.IsArg() == isArg && got.Path().IsFlag() == isFlag && got.Path().IsArg() == isArg, "the context of a target is not of its kind")
		sym.Assert(strings.Trim(got.Name(), "-<>") == name, "a target has another name")
		// the same from each context on the way
		cur := c.Root()
		for _, step := range path[1:] {
			next, ok := cur.FindTarget([]string{cur.Name(), step})
			sym.Assert(ok, "a target is found at once but not step by step")
			cur = next
		}
		sym.Assert(cur.Target() == want, "another target is found step by step")
	})
	sym.Reach("found")
}

// HLookups looks up flags, args and commands by name in any of the contexts.
func HLookups() {
	t := newTree(sym.Bool("shadow"))
	level := sym.Choose("level", 3)
	n := []string{"file", "--file", "f", "-f", "g", "-g", "<g>", "k", "--kind", "leaf", "x", "<x>", "sub", "l", "no"}[sym.Choose("name", 15)]
	bare := strings.Trim(n, "-<>")
	t.run(level, func(c *cli.Context) {
		var flag *cli.Flag
		var arg *cli.Arg
		for l := level; l >= 0; l-- {
			for _, f := range t.flags[l] {
				if flag == nil && named(append([]string{f.Name}, f.Aliases...), bare) {
					flag = f
				}
			}
			for _, a := range t.args[l] {
				if arg == nil && a.Name == bare {
					arg = a
				}
			}
		}
		if n[0] != '<' {
			got, ok := c.LookupFlag(n)
			sym.Assert(ok == (flag != nil) && got == flag, "another flag is found than the one of the nearest command")
			if len(n) == 1 {
				got, ok = c.LookupFlag(rune(n[0]))
				sym.Assert(ok == (flag != nil) && got == flag, "another flag is found by a rune than by its name")
			}
		}
		if n[0] != '-' {
			got, ok := c.LookupArg(n)
			sym.Assert(ok == (arg != nil) && got == arg, "another arg is found than the one of the nearest command")
		}
		if n == bare {
			got, ok := c.LookupCommand(n)
			var cmd *cli.Command
			if level < 2 && named(append([]string{t.cmds[level].Name}, t.cmds[level].Aliases...), n) {
				cmd = t.cmds[level]
			}
			sym.Assert(ok == (cmd != nil) && got == cmd, "another command is found than the sub-command with the name")
		}
		for i := -3; i <= 3; i++ {
			if level != 2 {
				break
			}
			got, ok := c.LookupArg(i)
			in := i >= -2 && i < 2
			sym.Assert(ok == in && (!in || got == t.args[2][(i+2)%2]), "another arg is found than the one with the index")
		}
	})
	sym.Reach("lookup")
}

// HWalk walks the commands, skipping some and failing in some.
func HWalk() {
	leaf := func(n string) *cli.Command { return &cli.Command{Name: n} }
	a := &cli.Command{Name: "a", Subcommands: []*cli.Command{leaf("b"), leaf("c")}}
	d := &cli.Command{Name: "d", Subcommands: []*cli.Command{leaf("e")}}
	failure := errors.New("failure")
	var want, got []string
	names := []string{"app", "app a", "app a b", "app a c", "app d", "app d e"}
	result := map[string]error{}
	var fails error
	skip := ""
	for _, n := range names {
		if fails != nil || skip != "" && strings.HasPrefix(n, skip+" ") {
			continue
		}
		want = append(want, n)
		switch sym.Choose("result", 3) {
		case 1:
			result[n] = cli.ErrSkipCommand
			skip = n
		case 2:
			result[n] = failure
			fails = failure
		}
	}
	ran := false
	app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard, Commands: []*cli.Command{a, d}, Action: func(c *cli.Context) error {
		ran = true
		err := c.Walk(func(c *cli.Context) error {
			n := c.Path().String()
			for _, s := range c.Path() {
				if s == "help" || s == "version" || s == "__complete" {
					return cli.ErrSkipCommand
				}
			}
			got = append(got, n)
			return result[n]
		})
		sym.Assert(err == fails, "a walk ends with another error than the function's")
		return nil
	}}
	err := app.RunContext(context.Background(), []string{"app"})
	sym.Observe("walk", strings.Join(got, ","))
	sym.Assert(err == nil && ran, "an app without arguments fails")
	sym.Assert(same(got, want...), "a walk does not visit each command once in order, without those skipped")
	sym.Reach("walk")
}

// HData looks up data which is set at any of the levels.
func HData() {
	level := sym.Choose("level", 4) // the last is an option
	how := sym.Choose("how", 4)
	var want any
	has := func(l int) map[string]any {
		if l > level || !sym.Bool("has") {
			return nil
		}
		v := sym.StringN("value", 1, "vw")
		want = v
		return map[string]any{"k": v}
	}
	acted := false
	act := cli.ActionFunc(func(c *cli.Context) error {
		acted = true
		got, ok := c.LookupData("k")
		sym.Assert(ok == (want != nil) && got == want, "data looked up is not that of the nearest which has it")
		_, ok = c.LookupData("other")
		sym.Assert(!ok, "data is found which was not set")
		_ = c.SetData("k", "new")
		got, ok = c.LookupData("k")
		sym.Assert(ok && got == any("new"), "data which was set is not found")
		if c.Parent() != nil {
			up, _ := c.Parent().LookupData("k")
			sym.Assert(up != any("new"), "data is set on the parent too")
		}
		_ = c.SetData("k", nil)
		got, ok = c.LookupData("k")
		up, upOK := c.Parent().LookupData("k")
		sym.Assert(got == up && ok == upOK, "data which was removed is found")
		return nil
	})
	set := func(d map[string]any, direct *map[string]any) cli.Action {
		if d == nil {
			return nil
		}
		switch how {
		case 0:
			*direct = d
			return nil
		case 1:
			return cli.Data("k", d["k"])
		case 2:
			return cli.Prototype{Data: d}
		}
		return cli.ActionFunc(func(c *cli.Context) error { return c.SetData("k", d["k"]) })
	}
	app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard}
	app.Uses = set(has(0), &app.Data)
	sub := &cli.Command{Name: "sub"}
	sub.Uses = set(has(1), &sub.Data)
	leaf := &cli.Command{Name: "leaf"}
	leaf.Uses = set(has(2), &leaf.Data)
	app.Commands = []*cli.Command{sub}
	sub.Subcommands = []*cli.Command{leaf}
	argv := []string{"app", "sub", "leaf"}
	switch level {
	case 0:
		argv = argv[:1]
		app.Action = act
	case 1:
		argv = argv[:2]
		sub.Action = act
	case 2:
		leaf.Action = act
	case 3:
		if sym.Bool("arg") {
			x := &cli.Arg{Name: "x", NArg: 1, Action: act}
			x.Uses = set(has(3), &x.Data)
			leaf.Args = []*cli.Arg{x}
			argv = append(argv, "v")
		} else {
			f := &cli.Flag{Name: "f", Action: act}
			f.Uses = set(has(3), &f.Data)
			leaf.Flags = []*cli.Flag{f}
			argv = append(argv, "-fv")
		}
	}
	err := app.RunContext(context.Background(), argv)
	sym.Assert(err == nil && acted, "a valid command line fails")
	sym.Reach("data")
}

// HLookupNames looks up flags and args by any text.
func HLookupNames() {
	n := sym.StringN("name", 1+sym.Choose("len", sym.Bound(3, 4)), "-<>fxy")
	fs := []*cli.Flag{{Name: "f"}, {Name: "fx", Aliases: []string{"y", "ff"}}}
	as := []*cli.Arg{{Name: "x"}, {Name: "xf"}}
	flagOf := map[string]*cli.Flag{"f": fs[0], "fx": fs[1], "y": fs[1], "ff": fs[1]}
	argOf := map[string]*cli.Arg{"x": as[0], "xf": as[1]}
	app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard, Flags: fs, Args: as}
	ran := false
	app.Action = func(c *cli.Context) error {
		ran = true
		bare := strings.TrimLeft(n, "-")
		sym.Assume(bare != "")
		f, ok := c.LookupFlag(n)
		sym.Assert(f == flagOf[bare] && ok == (f != nil), "another flag is found than the one with the name")
		bare = strings.TrimSuffix(strings.TrimPrefix(n, "<"), ">")
		a, ok := c.LookupArg(n)
		sym.Assert(a == argOf[bare] && ok == (a != nil), "another arg is found than the one with the name")
		return nil
	}
	err := app.RunContext(context.Background(), []string{"app", "1", "2"})
	sym.Assert(err == nil && ran, "a valid command line fails")
	sym.Reach("lookup")
}
