package expr

import (
	"context"
	"fmt"
	"io"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/exec"
	"github.com/Carbonfrost/joe-cli/extensions/expr"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

// HExec gives commands with their arguments, which end with ; or +, to a flag, an arg, or an operator.
func HExec() {
	n := sym.Choose("tokens", sym.Bound(4, 5))
	var toks []string
	for i := 0; i < n; i++ {
		t := sym.String("token", 2, "-e;+")
		sym.Assume(t != ";" && t != "+" && t != "--")
		toks = append(toks, t)
	}
	end := []string{";", "+", ""}[sym.Choose("end", 3)]
	given := toks
	if end != "" {
		given = append(given[:len(given):len(given)], end)
	}
	list := new(exec.ArgList)
	more := sym.Bool("more")
	var seen []string
	app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard}
	argv := []string{"app"}
	where := sym.Choose("where", 3)
	// The first token of a command would be taken for a flag or an operator
	sym.Assume(where == 0 || n == 0 || toks[0] == "" || toks[0][0] != '-')
	last := &cli.Arg{Name: "z", Value: cli.String()}
	ran := false
	app.Action = func(c *cli.Context) { ran = true }
	switch where {
	case 0:
		app.Flags = []*cli.Flag{{Name: "e", Value: list}}
		app.Args = []*cli.Arg{last}
		argv = append(argv, "-e")
	case 1:
		app.Args = []*cli.Arg{{Name: "e", Value: list}, last}
	case 2:
		ex := &expr.Expression{Exprs: []*expr.Expr{
			{Name: "e", Args: []*cli.Arg{{Name: "cmd", Value: list}}, Evaluate: func(c *cli.Context, v any, y func(any) error) error {
				seen = append(seen, "e")
				return y(v)
			}},
			{Name: "z", Evaluate: func(c *cli.Context, v any, y func(any) error) error {
				seen = append(seen, "z")
				return y(v)
			}},
		}}
		app.Args = []*cli.Arg{{Name: "w", NArg: 1}, {Name: "x", Value: ex}}
		app.Action = func(c *cli.Context) error {
			ran = true
			return ex.Evaluate(c, 1)
		}
		argv = append(argv, "file", "-e")
	}
	argv = append(argv, given...)
	if more {
		if where == 2 {
			argv = append(argv, "-z")
		} else {
			argv = append(argv, "z")
		}
	}
	err := app.RunContext(context.Background(), argv)
	sym.Observe("err", fmt.Sprint(err))
	sym.Observe("list", strings.Join(*list, " "))
	if end == "" {
		sym.Assert(err != nil && !ran, "a command which is not terminated is accepted")
		return
	}
	sym.Assert(err == nil && ran, "a command which is terminated is refused")
	args := list.Args()
	sym.Assert(len(args) == n, "a command has other arguments")
	for i := range args {
		sym.Assert(args[i] == toks[i], "a command has other arguments")
	}
	sym.Assert(list.UsePlaceholder() == (end == "+"), "the terminator of a command is taken for the other")
	name, rest := list.Command()
	if n > 0 {
		sym.Assert(name == toks[0] && strings.Join(rest, " ") == strings.Join(toks[1:], " ") && len(rest) == n-1, "the name and arguments of a command are not those given")
	} else {
		sym.Assert(name == "" && len(rest) == 0, "an empty command has a name")
	}
	sym.Assert(list.String() == strings.Join(given, " "), "the text of a command is not what was given")
	if where == 2 {
		want := "e"
		if more {
			want = "e z"
		}
		sym.Assert(strings.Join(seen, " ") == want, "an operator after a command is not evaluated after it")
	} else if z := *last.Value.(*string); more {
		sym.Assert(z == "z", "the argument after a command is taken as one of the command")
	} else {
		sym.Assert(z == "", "an argument is given twice")
	}
	sym.Reach("exec")
}
