package app

import (
	"context"
	"fmt"
	"io"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

// refField is the documented meaning of one pattern element
func refField(pat, name string) bool {
	switch pat {
	case "*":
		return name == "" || (name[0] != '-' && name[0] != '<')
	case "-", "--":
		return name != "" && name[0] == '-'
	case "<>":
		return name != "" && name[0] == '<' && !(len(name) > 1 && name[1] == '-')
	case "<->":
		return len(name) > 1 && name[0] == '<' && name[1] == '-'
	}
	if pat == name {
		return true
	}
	// a long flag can be named using one dash
	return len(pat) > 0 && pat[0] == '-' && "-"+pat == name
}

func refMatch(pat []string, path []string) bool {
	if len(pat) > len(path) {
		return false
	}
	off := len(path) - len(pat)
	for i := range pat {
		if !refField(pat[i], path[off+i]) {
			return false
		}
	}
	return true
}

// pathName is an arbitrary element of a path
func pathName() string {
	n := sym.String("name", 3, "ab-")
	sym.Assume(n != "" && n[0] != '-')
	switch sym.Choose("kind", 4) {
	case 0:
		return n
	case 1:
		if len(n) > 1 {
			return "--" + n
		}
		return "-" + n
	case 2:
		return "<" + n + ">"
	default:
		return "<-" + n + ">"
	}
}

// HPathMatch checks matching of arbitrary paths and patterns.
func HPathMatch() {
	np := sym.Choose("path", sym.Bound(2, 3)) + 1
	var path []string
	for i := 0; i < np; i++ {
		path = append(path, pathName())
	}
	nq := sym.Choose("pattern", 4)
	var pat []string
	if sym.Bool("whole") {
		// one arbitrary element
		sym.Assume(nq == 1)
		p := sym.String("pat", 4, "-<>*ab")
		sym.Assume(p != "")
		pat = []string{p}
	} else {
		sym.Assume(nq <= sym.Bound(2, 3))
		for i := 0; i < nq; i++ {
			switch sym.Choose("elem", 6) {
			case 0:
				pat = append(pat, "*")
			case 1:
				pat = append(pat, "-")
			case 2:
				pat = append(pat, "<>")
			case 3:
				pat = append(pat, "<->")
			default:
				p := sym.StringN("pe", 2, "-<ab")
				if sym.Bool("close") {
					p += ">"
				}
				pat = append(pat, p)
			}
		}
	}
	text := strings.Join(pat, []string{" ", "  "}[sym.Choose("gap", 2)])
	got := cli.ContextPath(path).Match(text)
	want := refMatch(pat, path)
	sym.ObserveBool("match", got)
	sym.Assert(got == want, "a path matches other patterns than documented")
}

type seenAt map[string]int

// HHooks checks for which targets the hooks of a command run.
func HHooks() {
	at := []cli.Timing{cli.InitialTiming, cli.BeforeTiming, cli.AfterTiming}[sym.Choose("timing", 3)]
	site := sym.Choose("site", 4) // app, flag of the app, sub, flag of sub
	pats := []string{"", "*", "-", "<>", "sub", "-f", "-long", "--long", "-g", "<x>", "app *", "sub -", "app sub", "sub *", "* -long", "leaf <x>", "app app", "app leaf"}
	pat := pats[sym.Choose("pattern", len(pats))]
	depth := sym.Choose("depth", 3)
	argv := []string{"app", "sub", "leaf"}[:depth+1]
	if sym.Bool("long") {
		argv = append(argv, "--long")
	}

	got := seenAt{}
	wrong := false
	hook := cli.ActionFunc(func(c *cli.Context) error {
		got[c.Path().String()]++
		if c.Timing() != at {
			wrong = true
		}
		return nil
	})
	reg := func(n int) cli.Action {
		if n != site {
			return nil
		}
		return cli.ActionFunc(func(c *cli.Context) error {
			if n == 1 || n == 3 {
				c = c.Parent()
			}
			switch at {
			case cli.InitialTiming:
				return c.Hook(at, cli.IfMatch(cli.PatternFilter(pat), hook))
			case cli.BeforeTiming:
				return c.HookBefore(pat, hook)
			default:
				return c.HookAfter(pat, hook)
			}
		})
	}
	app := &cli.App{
		Name: "app", Stderr: io.Discard, Stdout: io.Discard, Uses: reg(0), Action: func(*cli.Context) {},
		Flags: []*cli.Flag{{Name: "f", Value: cli.Bool(), Uses: reg(1)}, {Name: "long", Value: cli.Bool()}},
		Commands: []*cli.Command{{
			Name: "sub", Uses: reg(2), Action: func(*cli.Context) {},
			Flags: []*cli.Flag{{Name: "g", Value: cli.Bool(), Uses: reg(3)}, {Name: "h", Value: cli.Bool()}},
			Subcommands: []*cli.Command{{
				Name: "leaf", Action: func(*cli.Context) {},
				Args: []*cli.Arg{{Name: "x", NArg: 0}},
			}},
		}},
	}
	err := app.RunContext(context.Background(), argv)
	sym.Assert(err == nil, "a run with hooks fails")
	sym.Assert(!wrong, "a hook runs at another timing than its own")

	// path, level, and whether it was initialized before the hook was registered
	all := []struct {
		path  string
		level int
		early int
	}{
		{"app", 0, 4}, {"app -f", 0, 1}, {"app --long", 0, 0},
		{"app sub", 1, 2}, {"app sub -g", 1, 3}, {"app sub -h", 1, 0},
		{"app sub leaf", 2, 0}, {"app sub leaf <x>", 2, 0},
	}
	for _, t := range all {
		path := strings.Fields(t.path)
		want := 0
		inside := site < 2 || (len(path) > 1 && path[1] == "sub")
		if at == cli.InitialTiming {
			// what was initialized when the hook was registered is not affected
			switch {
			case t.path == "app", t.path == "app -f" && site >= 1, t.path == "app sub" && site >= 2, t.path == "app sub -g" && site == 3:
				inside = false
			}
		} else if t.level > depth {
			inside = false
		}
		if pat == "" && at != cli.InitialTiming {
			// acts on the command itself
			inside = t.path == []string{"app", "app", "app sub", "app sub"}[site] && t.level <= depth
		}
		if inside && refMatch(strings.Fields(pat), path) {
			want = 1
		}
		sym.Observe("hook", fmt.Sprintf("%s %d %d", t.path, got[t.path], want))
		sym.Assert(got[t.path] == want, "a hook runs for other targets than those which match, or not once")
	}
}
