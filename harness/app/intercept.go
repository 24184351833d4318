package app

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

// HIntercept runs the commands an arg names, and others in lieu of those which are missing.
func HIntercept() {
	ran := ""
	cmd := func(n string) *cli.Command {
		return &cli.Command{
			Name:  n,
			Flags: []*cli.Flag{{Name: "f", Value: new(string)}},
			Args:  []*cli.Arg{{Name: "rest", Value: cli.List(), NArg: cli.TakeUntilNextFlag}},
			Action: func(c *cli.Context) {
				ran += fmt.Sprintf("%s f=%s %s;", n, c.String("f"), strings.Join(c.List("rest"), " "))
			},
		}
	}
	handler := sym.Choose("handler", 6)
	others := sym.Bool("others") // commands of the app itself
	global := sym.Bool("global") // whether there is a handler of the app
	other := cmd("other")
	var trace []string
	intercept := func(c *cli.Context, err error) (*cli.Command, error) {
		trace = append(trace, "intercept")
		if !isCommandNotFound(err) {
			trace = append(trace, "another error")
		}
		switch handler {
		case 1:
			return other, nil
		case 2:
			return nil, cli.ErrSkipCommand
		case 3:
			return nil, errHandler
		case 4:
			return other, errHandler
		}
		return nil, nil
	}
	if handler == 5 {
		intercept = nil
	}
	app := &cli.App{Name: "app", Stderr: io.Discard, Stdout: io.Discard}
	app.Args = []*cli.Arg{{Name: "cmd", Uses: cli.ExecuteSubcommand(intercept)}}
	if others {
		app.Commands = []*cli.Command{cmd("a"), cmd("b")}
	}
	if global {
		app.Uses = cli.HandleCommandNotFound(func(c *cli.Context, err error) (*cli.Command, error) {
			trace = append(trace, "global")
			return nil, nil
		})
	}
	name := []string{"a", "b", "c"}[sym.Choose("name", 3)]
	argv := []string{"app", name}
	f, rest := "", []string(nil)
	for range sym.Choose("args", sym.Bound(3, 4)) {
		if sym.Bool("flag") {
			f = sym.StringN("value", 1, "xy")
			argv = append(argv, "-f", f)
		} else {
			sym.Assume(f == "") // an arg that ends at the first flag
			r := sym.StringN("rest", 1, "ab")
			argv, rest = append(argv, r), append(rest, r)
		}
	}
	wantRun, found := "", others && name != "c"
	var wantTrace []string
	var wantErr error
	missing := false
	switch {
	case found:
		wantRun = name
	case handler == 5 && global:
		wantTrace, missing = []string{"global"}, true
	case handler == 5:
		missing = true
	case handler == 0:
		wantTrace, missing = []string{"intercept"}, true
	default:
		wantTrace = []string{"intercept"}
		if handler == 1 {
			wantRun = "other"
		}
		if handler > 2 {
			wantErr = errHandler
		}
	}
	if wantRun != "" {
		wantRun = fmt.Sprintf("%s f=%s %s;", wantRun, f, strings.Join(rest, " "))
	}
	err := app.RunContext(context.Background(), argv)
	sym.Observe("ran", ran)
	sym.Observe("err", fmt.Sprint(err))
	sym.Assert(ran == wantRun, "another command is run than the one named, or in lieu of it, or with other arguments")
	sym.Assert(strings.Join(trace, ";") == strings.Join(wantTrace, ";"), "a missing command is intercepted otherwise than once, or one which isn't missing")
	if missing {
		sym.Assert(isCommandNotFound(err), "a missing command is not reported as such")
	} else {
		sym.Assert(errors.Is(err, wantErr) && (err == nil) == (wantErr == nil), "a run fails otherwise than when it isn't found what to run")
	}
	sym.Reach("intercept")
}
