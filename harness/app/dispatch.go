package app

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

var errHandler = errors.New("handler failed")

func isCommandNotFound(err error) bool {
	var pe *cli.ParseError
	return errors.As(err, &pe) && pe.Code == cli.CommandNotFound
}

// HDispatch invokes a sub-command by an arbitrary word, among commands with arbitrary names and aliases.
func HDispatch() {
	word := func(n string) string {
		s := sym.String(n, 2, "ab")
		sym.Assume(s != "")
		return s
	}
	ran := ""
	var got []string
	cmd := func(id string) *cli.Command {
		c := &cli.Command{
			Name:   word("name"),
			Args:   []*cli.Arg{{Name: "rest", Value: cli.List(), NArg: cli.TakeUntilNextFlag}},
			Flags:  []*cli.Flag{{Name: "own", Value: cli.Bool()}},
			Action: func(c *cli.Context) { ran += id; got = c.List("rest") },
		}
		if sym.Bool("alias") {
			c.Aliases = []string{word("alias")}
		}
		return c
	}
	cmds := []*cli.Command{cmd("1"), cmd("2")}
	app := &cli.App{
		Name: "app", Stderr: io.Discard, Stdout: io.Discard, Commands: cmds,
		Flags:  []*cli.Flag{{Name: "top", Value: cli.Bool()}},
		Action: func(*cli.Context) { ran += "app" },
	}
	tok := word("token")
	argv := []string{"app"}
	if sym.Bool("top") {
		argv = append(argv, "--top")
	}
	argv = append(argv, tok)
	if sym.Bool("own") {
		argv = append(argv, "--own")
	}
	var rest []string
	if sym.Bool("value") {
		rest = []string{sym.StringN("value", 1, "ab")}
		argv = append(argv, rest...)
	}
	want := ""
	for i, c := range cmds {
		names := append([]string{c.Name}, c.Aliases...)
		if want == "" && containsText(names, tok) {
			want = fmt.Sprint(i + 1)
		}
	}
	err := app.RunContext(context.Background(), argv)
	sym.Observe("ran", ran)
	sym.Assert(ran == want, "other than exactly the command named by the command line runs")
	if want == "" {
		sym.Assert(isCommandNotFound(err), "a missing command is not reported as such")
		sym.Assert(err != nil && strings.Contains(err.Error(), tok), "the error for a missing command does not name it")
	} else {
		sym.Assert(err == nil, "running an existing command fails")
		sym.Assert(strings.Join(got, "\x00") == strings.Join(rest, "\x00"), "a sub-command does not get the arguments after its name")
	}
}

func containsText(s []string, v string) bool {
	for _, x := range s {
		if x == v {
			return true
		}
	}
	return false
}

// HHandlers invokes a missing command with handlers registered for that.
func HHandlers() {
	var trace []int
	ran := 0
	var got []string
	exec := &cli.Command{
		Name:   "exec",
		Args:   []*cli.Arg{{Name: "rest", Value: cli.List(), NArg: cli.TakeUntilNextFlag}},
		Action: func(c *cli.Context) { ran++; got = c.List("rest") },
	}
	okErr := true
	handler := func(id, kind int) cli.Action {
		if kind == 4 {
			return cli.ImplicitCommand("exec")
		}
		if kind == 5 {
			return cli.HandleCommandNotFound(nil)
		}
		return cli.HandleCommandNotFound(func(c *cli.Context, err error) (*cli.Command, error) {
			trace = append(trace, id)
			if err == nil {
				okErr = false
			}
			switch kind {
			case 0:
				return exec, nil
			case 1:
				return nil, cli.ErrSkipCommand
			case 2:
				return nil, nil
			default:
				return nil, errHandler
			}
		})
	}
	n := sym.Choose("handlers", sym.Bound(4, 5))
	var kinds []int
	var uses []any
	for i := 0; i < n; i++ {
		k := sym.Choose("kind", 6)
		kinds = append(kinds, k)
		uses = append(uses, handler(i, k))
	}
	app := &cli.App{
		Name: "app", Stderr: io.Discard, Stdout: io.Discard, Commands: []*cli.Command{exec},
		Uses: cli.Pipeline(uses...), Action: func(*cli.Context) {},
	}
	argv := []string{"app", "zz", "v"}
	err := app.RunContext(context.Background(), argv)

	// the handlers registered last are asked first; nil forgets those before it
	var want []int
	wantErr := false
	handled := false
	wantRan := 0
	sawErr := false // whether the last handler asked failed
	var wantRest []string
	for i := n - 1; i >= 0 && !handled; i-- {
		switch kinds[i] {
		case 5:
			i = -1
			continue
		case 4:
			wantRan, handled = wantRan+1, true
			wantRest = []string{"zz", "v"}
		case 0:
			want = append(want, i)
			wantRan, handled = wantRan+1, true
			wantRest = []string{"v"}
		case 1:
			want = append(want, i)
			handled = true
		case 2:
			want = append(want, i)
			sawErr = false
		case 3:
			want = append(want, i)
			sawErr = true
		}
	}
	wantErr = !handled
	sym.Observe("trace", fmt.Sprint(trace, kinds, ran, err))
	sym.Assert(equal(trace, want), "the handlers asked about a missing command are not those registered, the latest first, until one handles it")
	sym.Assert(okErr, "a handler of missing commands gets no error")
	sym.Assert(ran == wantRan, "a command in lieu of a missing one does not run exactly once")
	sym.Assert(wantErr == (err != nil), "a missing command nothing handles is not an error, or a handled one is")
	if wantErr && sawErr {
		sym.Assert(errors.Is(err, errHandler), "the error of a handler of missing commands is lost")
	} else if wantErr {
		sym.Assert(isCommandNotFound(err), "a missing command is not reported as such")
	}
	if wantRan > 0 {
		sym.Assert(strings.Join(got, " ") == strings.Join(wantRest, " "), "a command in lieu of a missing one does not get the arguments")
	}
}

// HSkipParsing runs a command which leaves all its arguments alone.
func HSkipParsing() {
	n := sym.Choose("tokens", sym.Bound(3, 4))
	var rest []string
	for i := 0; i < n; i++ {
		rest = append(rest, sym.String("token", 3, "-=fa"))
	}
	ran := false
	var got []string
	var seen bool
	top := sym.Bool("top")
	act := func(c *cli.Context) { ran = true; got = c.List("rest"); seen = c.Seen("f") }
	args := []*cli.Arg{{Name: "rest", Value: cli.List(), NArg: cli.TakeRemaining, Options: cli.DisableSplitting}}
	flags := []*cli.Flag{{Name: "f", Value: cli.Bool()}}
	app := &cli.App{Name: "app", Stderr: io.Discard, Stdout: io.Discard}
	argv := []string{"app"}
	if top {
		app.Args, app.Flags, app.Options, app.Action = args, flags, cli.SkipFlagParsing, act
	} else {
		app.Commands = []*cli.Command{{Name: "sub", Args: args, Flags: flags, Options: cli.SkipFlagParsing, Action: act}}
		argv = append(argv, "sub")
	}
	err := app.RunContext(context.Background(), append(argv, rest...))
	sym.Observe("got", fmt.Sprintf("%q %v", got, err))
	sym.Assert(err == nil && ran, "a command which skips parsing flags refuses arguments")
	sym.Assert(!seen, "a command which skips parsing flags sets one")
	sym.Assert(len(got) == len(rest), "a command which skips parsing flags does not get exactly its arguments")
	for i := range rest {
		sym.Assert(got[i] == rest[i], "a command which skips parsing flags does not get exactly its arguments")
	}
}
