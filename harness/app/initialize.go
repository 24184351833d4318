package app

import (
	"context"
	"fmt"
	"io"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

// initBed counts how often things are initialized while they change their siblings
type initBed struct {
	flags  map[*cli.Flag]int
	args   map[*cli.Arg]int
	cmds   map[*cli.Command]int
	late   bool
	serial int
}

func (b *initBed) flag(name string, op cli.Action) *cli.Flag {
	f := &cli.Flag{Name: name, Value: cli.String()}
	b.flags[f] = 0
	f.Uses = cli.ActionFunc(func(c *cli.Context) error {
		b.flags[f]++
		return c.Do(op)
	})
	return f
}

func (b *initBed) arg(name string, op cli.Action) *cli.Arg {
	a := &cli.Arg{Name: name, Value: cli.String(), NArg: 0}
	b.args[a] = 0
	a.Uses = cli.ActionFunc(func(c *cli.Context) error {
		b.args[a]++
		return c.Do(op)
	})
	return a
}

func (b *initBed) cmd(name string, op cli.Action) *cli.Command {
	s := &cli.Command{Name: name, Action: func() {}}
	b.cmds[s] = 0
	s.Uses = cli.ActionFunc(func(c *cli.Context) error {
		b.cmds[s]++
		return c.Parent().Do(op)
	})
	return s
}

// without is the list without the item at an index
func without[T any](s []T, i int) []T {
	var res []T
	for k, v := range s {
		if k != i {
			res = append(res, v)
		}
	}
	return res
}

func same[T comparable](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// op changes the flags, args or commands of the app
func (b *initBed) op() cli.Action {
	kind := sym.Choose("op", 6)
	how, which := 0, 0
	if kind >= 3 {
		how = sym.Choose("how", 3)
		which = sym.Choose("which", 2)
	}
	return cli.ActionFunc(func(c *cli.Context) error {
		cmd := c.Command()
		b.serial++
		id := fmt.Sprint("new", b.serial)
		switch kind {
		case 0:
			f := b.flag(id, nil)
			want := append(append([]*cli.Flag{}, cmd.Flags...), f)
			err := c.AddFlag(f)
			sym.Assert(err == nil && same(cmd.Flags, want), "adding a flag does something else")
		case 1:
			a := b.arg("arg"+id, nil)
			want := append(append([]*cli.Arg{}, cmd.Args...), a)
			err := c.AddArg(a)
			sym.Assert(err == nil && same(cmd.Args, want), "adding an arg does something else")
		case 2:
			s := b.cmd("cmd"+id, nil)
			want := append(append([]*cli.Command{}, cmd.Subcommands...), s)
			err := c.AddCommand(s)
			sym.Assert(err == nil && same(cmd.Subcommands, want), "adding a command does something else")
		case 3:
			i := which
			var name any = i
			switch how {
			case 0: // name
				name, i = fmt.Sprint("f", which), -1
				for k, x := range cmd.Flags {
					if x.Name == name {
						i = k
					}
				}
			case 1: // itself
				if i < len(cmd.Flags) {
					name = cmd.Flags[i]
				} else {
					name, i = &cli.Flag{Name: "f0"}, -1
				}
			default: // index
				if i >= len(cmd.Flags) {
					i = -1
				}
			}
			want := without(cmd.Flags, i)
			err := c.RemoveFlag(name)
			sym.Assert(err == nil && same(cmd.Flags, want), "removing a flag does something else")
		case 4:
			i := which
			var name any = i
			switch how {
			case 0: // name
				name, i = fmt.Sprint("a", which), -1
				for k, x := range cmd.Args {
					if x.Name == name {
						i = k
					}
				}
			case 1: // itself
				if i < len(cmd.Args) {
					name = cmd.Args[i]
				} else {
					name, i = &cli.Arg{Name: "a0"}, -1
				}
			default: // index
				if i >= len(cmd.Args) {
					i = -1
				}
			}
			want := without(cmd.Args, i)
			err := c.RemoveArg(name)
			sym.Assert(err == nil && same(cmd.Args, want), "removing an arg does something else")
		case 5:
			i := which
			var name any = i
			switch how {
			case 0: // name
				name, i = fmt.Sprint("c", which), -1
				for k, x := range cmd.Subcommands {
					if x.Name == name {
						i = k
					}
				}
			case 1: // itself
				if i < len(cmd.Subcommands) {
					name = cmd.Subcommands[i]
				} else {
					name, i = &cli.Command{Name: "c0"}, -1
				}
			default: // index
				{
					name, i = "nothing", -1
				}
			}
			want := without(cmd.Subcommands, i)
			err := c.RemoveCommand(name)
			sym.Assert(err == nil && same(cmd.Subcommands, want), "removing a command does something else")
		}
		return nil
	})
}

// HInit initializes an app of which up to two elements change the others.
func HInit() {
	b := &initBed{flags: map[*cli.Flag]int{}, args: map[*cli.Arg]int{}, cmds: map[*cli.Command]int{}}
	const n = 7
	ops := make([]cli.Action, n)
	first := sym.Choose("actor", n)
	ops[first] = b.op()
	if second := sym.Choose("second", n); second > first {
		ops[second] = b.op()
	}
	given := []string{"f1", "new1", "f0", "new2"}[sym.Choose("given", sym.Bound(2, 4))]
	var final []*cli.Flag
	ran := false
	var finalArgs []*cli.Arg
	var finalCmds []*cli.Command
	app := &cli.App{
		Name: "app", Stderr: io.Discard, Stdout: io.Discard,
		Uses:     ops[0],
		Flags:    []*cli.Flag{b.flag("f0", ops[1]), b.flag("f1", ops[2])},
		Args:     []*cli.Arg{b.arg("a0", ops[3]), b.arg("a1", ops[4])},
		Commands: []*cli.Command{b.cmd("c0", ops[5]), b.cmd("c1", ops[6])},
		Action:   func(c *cli.Context) { ran = true },
	}
	ctx, err := app.Initialize(context.Background())
	root := cli.FromContext(ctx)
	sym.Assert(err == nil, "initialization fails")
	final, finalArgs, finalCmds = root.Command().Flags, root.Command().Args, root.Command().Subcommands
	var target *cli.Flag
	for _, f := range final {
		if f.Name == given {
			target = f
		}
		if k, ok := b.flags[f]; ok {
			sym.Assert(k == 1, "a flag is not initialized exactly once")
		}
	}
	for _, a := range finalArgs {
		if k, ok := b.args[a]; ok {
			sym.Assert(k == 1, "an arg is not initialized exactly once")
		}
	}
	for _, s := range finalCmds {
		if k, ok := b.cmds[s]; ok {
			sym.Assert(k == 1, "a command is not initialized exactly once")
		}
	}
	for _, k := range b.flags {
		sym.Assert(k <= 1, "a flag is initialized more than once")
	}
	err = root.Execute([]string{"app", "--" + given, "v"})
	sym.Observe("err", fmt.Sprint(err))
	if target == nil {
		sym.Assert(err != nil && !ran, "a flag that was removed can be used")
	} else {
		sym.Assert(err == nil && ran, "a flag that is there cannot be used")
		sym.Assert(*target.Value.(*string) == "v", "a flag does not get its value")
	}
}

// HNames initializes a command with arbitrarily named flags and args.
func HNames() {
	word := func(n string) string { return sym.String(n, 2, "12_= "[:sym.Bound(5, 4)]) }
	var flags []*cli.Flag
	var args []*cli.Arg
	bad := false
	seen := map[string]bool{}
	nf := sym.Choose("flags", 3)
	na := sym.Choose("args", 3)
	sym.Assume(nf+na <= sym.Bound(3, 4))
	for i := 0; i < na; i++ {
		a := &cli.Arg{Name: word("arg"), NArg: 0}
		args = append(args, a)
		name := a.Name
		if name == "" {
			name = []string{"_1", "_2"}[i]
		}
		bad = bad || seen[name]
		seen[name] = true
	}
	for i := 0; i < nf; i++ {
		f := &cli.Flag{Name: word("flag")}
		flags = append(flags, f)
		valid := f.Name != ""
		for k := 0; k < len(f.Name); k++ {
			valid = valid && f.Name[k] != '=' && f.Name[k] != ' '
		}
		bad = bad || !valid || seen[f.Name]
		seen[f.Name] = true
	}
	app := &cli.App{Name: "app", Stderr: io.Discard, Stdout: io.Discard, Action: func() {}}
	argv := []string{"app"}
	if sym.Bool("sub") {
		app.Commands = []*cli.Command{{Name: "sub", Flags: flags, Args: args, Action: func() {}}}
		argv = append(argv, "sub")
	} else {
		app.Flags, app.Args = flags, args
	}
	err := app.RunContext(context.Background(), argv)
	sym.Observe("err", fmt.Sprint(err))
	sym.Assert((err != nil) == bad, "flags and args with missing, invalid or duplicate names are accepted, or others refused")
	for _, a := range args {
		sym.Assert(bad || a.Name != "", "an arg without a name does not get one")
	}
}
