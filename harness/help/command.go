package help

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"sort"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

// HCommands shows the help screen of a command with sub-commands.
func HCommands() {
	type spec struct {
		names     []string
		help, cat string
		hidden    bool
	}
	var cmds []*spec
	sub := &cli.Command{Name: "sub"}
	for _, n := range []string{"two", "one", "six"} {
		s := &spec{names: []string{n}}
		s.cat = []string{"", "L", "K"}[sym.Choose("category", 3)]
		if sym.Bool("has help") {
			s.help = "plain text"
			s.names = append(s.names, "alias", "a")
		}
		s.hidden = sym.Bool("hidden")
		c := &cli.Command{Name: n, Aliases: s.names[1:], HelpText: s.help, Category: s.cat}
		if s.hidden {
			c.Options = cli.Hidden
		}
		sub.Subcommands = append(sub.Subcommands, c)
		cmds = append(cmds, s)
	}
	if sym.Choose("sorted", 2) == 1 {
		sub.Options = cli.SortedCommands
		cmds[0], cmds[1], cmds[2] = cmds[1], cmds[2], cmds[0]
	}
	app := &cli.App{Name: "app", Commands: []*cli.Command{sub}}
	args := []string{"app", "help", "sub"}
	if sym.Choose("how", 2) == 1 {
		args = []string{"app", "sub", "--help"}
	}
	by := map[string][]string{}
	var cats []string
	for _, s := range cmds {
		if s.hidden {
			continue
		}
		if by[s.cat] == nil {
			cats = append(cats, s.cat)
		}
		by[s.cat] = append(by[s.cat], strings.Join(s.names, ", ")+" "+s.help)
	}
	sort.Strings(cats)
	want := []string{"usage: app sub <command> [<args>]..."}
	if len(cats) > 0 {
		want = append(want, "Sub-commands:")
	}
	for _, c := range cats {
		if c != "" {
			want = append(want, c+":")
		}
		want = append(want, by[c]...)
	}
	check(app, args, append(want, global(nil)...))
}

// HGlobal shows the help screen of a command whose parents have flags.
func HGlobal() {
	var flags [2]*flagSpec
	for i, n := range []string{"beta", "a"} {
		s := &flagSpec{names: []string{n}, kind: []int{number, boolean}[i]}
		s.cat = []string{"", "K"}[sym.Choose("category", 2)]
		if sym.Bool("has help") {
			s.help = "plain"
		}
		s.hidden = sym.Bool("hidden")
		flags[i] = s
	}
	own := &flagSpec{names: []string{"own"}, kind: boolean, help: "mine", hidden: sym.Bool("own hidden")}
	describe := sym.Choose("describe", 4)
	sub := &cli.Command{Name: "sub", Flags: []*cli.Flag{own.flag()}}
	var about string
	if describe&1 == 1 {
		sub.HelpText = "help of sub"
		about = "help of sub"
	}
	if describe&2 == 2 {
		sub.Description = "about sub"
		about = "about sub"
	}
	mid := &cli.Command{Name: "mid", Subcommands: []*cli.Command{sub}}
	app := &cli.App{Name: "app", Commands: []*cli.Command{mid}}
	var above, below []*flagSpec
	at := sym.Choose("where", 3)
	for i, s := range flags {
		list := &below
		if at == 2 || at == i {
			mid.Flags = append(mid.Flags, s.flag())
			list = &above
		} else {
			app.Flags = append(app.Flags, s.flag())
		}
		if !s.hidden {
			*list = append(*list, s)
		}
	}
	want := []string{usageOf("app mid sub", []*flagSpec{own}, "")}
	if about != "" {
		want = append(want, about)
	}
	want = append(want, listing([]*flagSpec{own})...)
	all := append(append(below, builtins...), above...)
	want = append(want, "Global options (specify before any sub-commands)")
	check(app, []string{"app", "help", "mid", "sub"}, append(want, listing(all)...))
}

// HArgs shows the usage of a command with args.
func HArgs() {
	rtl := sym.Choose("rtl", 2) == 1
	n := sym.Choose("n", 4)
	sub := &cli.Command{Name: "sub"}
	type spec struct {
		text            string
		optional, multi bool
	}
	var specs []spec
	var all []string
	for i := 0; i < n; i++ {
		a := &cli.Arg{Name: string(rune('a' + i))}
		s := spec{text: "<" + a.Name + ">"}
		switch sym.Choose("narg", 6) {
		case 0:
			a.NArg, s.optional = 0, true
		case 1:
			a.NArg = 1
		case 2:
			a.NArg, s.multi = 2, true
		case 3:
			a.NArg, s.multi = -1, true
		case 4:
			s.optional = true
		case 5:
			a.NArg, s.multi, s.optional = cli.OptionalArg(func(string) bool { return true }), false, true
		}
		if i == 0 && sym.Bool("required") {
			a.Options |= cli.Required
			s.optional = false
		}
		if i == 0 && sym.Choose("usage", 2) == 1 {
			a.UsageText = "USG"
			s.text = "USG"
		}
		if s.multi {
			s.text += "..."
		}
		all = append(all, s.text)
		sub.Args = append(sub.Args, a)
		if i < 2 && sym.Bool("hidden") {
			a.Options |= cli.Hidden
			continue
		}
		specs = append(specs, s)
	}
	if rtl {
		sub.Options = cli.RightToLeft
	}
	// the args that are not optional come first; with right-to-left binding, the
	// first optional one and those that follow are optional
	var req, opt []string
	for _, s := range specs {
		if s.optional || rtl && len(opt) > 0 {
			opt = append(opt, s.text)
		} else {
			req = append(req, s.text)
		}
	}
	args := ""
	for _, s := range req {
		args += " " + s
	}
	for i, s := range opt {
		switch {
		case !rtl && i == 0:
			args += " [" + s + "]"
		case !rtl:
			args += "[" + s + "]"
		case i == 0:
			args += " " + strings.Repeat("[", len(opt)) + s + "]"
		default:
			args += " " + s + "]"
		}
	}
	app := &cli.App{Name: "app", Commands: []*cli.Command{sub}}
	check(app, []string{"app", "help", "sub"}, append([]string{usageOf("app sub", nil, args)}, global(nil)...))
	sym.Assert(sub.Synopsis() == "sub"+args, "the synopsis of a command is not what its help shows")
	for i, a := range sub.Args {
		sym.Assert(a.Synopsis() == all[i], "the synopsis of an arg is not what the help shows")
	}
}

// node is a command of the app of HTarget
type node struct {
	usage string
	subs  map[string]*node
}

var (
	// help of leaf commands
	nodeRoot = &node{"usage: app {--help | --version} [--name=STRING] <command> [<args>]...", map[string]*node{
		"mid": nodeMid, "m": nodeMid, "leaf": {usage: "usage: app leaf <x>..."}, "help": nodeHelp, "h": nodeHelp,
	}}
	nodeMid = &node{"usage: app mid <command> [<args>]...", map[string]*node{
		"leaf": {usage: "usage: app mid leaf <x>..."}, "mid": {usage: "usage: app mid mid <x>..."},
	}}
	nodeHelp = &node{usage: "usage: app help <command>..."}
)

// shown gets the command whose help is asked for, or the name that is unknown
func shown(tokens []string) (asked bool, cmd *node, unknown string) {
	cmd = nodeRoot
	for i, t := range tokens {
		switch {
		case t == "--help" || t == "-h":
			asked = true
		case strings.HasPrefix(t, "-"):
			// some other flag
		case cmd == nodeHelp || len(cmd.subs) == 0:
			// an argument
		default:
			next, ok := cmd.subs[t]
			if !ok {
				return asked, nil, t
			}
			cmd = next
			if cmd == nodeHelp && !asked {
				// flags can come first, and all others are names
				for i++; i < len(tokens) && strings.HasPrefix(tokens[i], "-"); i++ {
					asked = asked || tokens[i] != "--name=leaf"
				}
				if asked {
					return true, cmd, ""
				}
				cmd = nodeRoot
				for _, t := range tokens[i:] {
					next, ok := cmd.subs[t]
					if !ok {
						return true, nil, t
					}
					cmd = next
				}
				return true, cmd, ""
			}
		}
	}
	return asked, cmd, ""
}

// HTarget asks for help in many ways.
func HTarget() {
	var out bytes.Buffer
	ran := false
	run := func() { ran = true }
	leaf := func(name string) *cli.Command {
		return &cli.Command{Name: name, Action: run, Args: []*cli.Arg{{Name: "x", NArg: -3}}}
	}
	mid := &cli.Command{Name: "mid", Aliases: []string{"m"}, Action: run, Subcommands: []*cli.Command{leaf("leaf"), leaf("mid")}}
	app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: &out, Action: run,
		Flags:    []*cli.Flag{{Name: "name"}},
		Commands: []*cli.Command{mid, leaf("leaf")},
	}
	tokens := []string{"mid", "leaf", "--help", "--name=leaf", "help", "x", "m", "-h"}
	n := 1 + sym.Choose("n", sym.Bound(4, 5))
	var args []string
	for i := 0; i < n; i++ {
		args = append(args, tokens[sym.Choose("token", sym.Bound(6, 8))])
	}
	asked, cmd, unknown := shown(args)
	if !asked {
		return
	}
	err := app.RunContext(context.Background(), append([]string{"app"}, args...))
	usage := squeeze(out.String() + "\n")
	sym.Observe("args", strings.Join(args, " "))
	sym.Observe("err", fmt.Sprint(err))
	sym.Observe("usage", fmt.Sprint(usage))
	sym.Assert(!ran, "an action ran though help was asked for")
	if cmd == nil {
		sym.Assert(err != nil && strings.Contains(err.Error(), fmt.Sprintf("%q", unknown)), "the error does not name the unknown command")
		sym.Assert(len(usage) == 0, "help was shown for an unknown command")
		return
	}
	sym.Assert(len(usage) > 0 && usage[0] == cmd.usage, "the help of another command was shown")
	code, ok := err.(cli.ExitCoder)
	sym.Assert(err == nil || ok && code.ExitCode() == 0, "showing help failed")
}
