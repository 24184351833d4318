package app

import (
	"context"
	"errors"
	"io"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

// HHookRefused registers hooks for elements which can't have them and for timings which are over.
func HHookRefused() {
	target := sym.Choose("target", 5) // app, sub, flag, arg, value
	timings := []cli.Timing{cli.InitialTiming, cli.BeforeTiming, cli.ActionTiming, cli.AfterTiming}
	from := sym.Choose("from", 4)
	at := []int{1, 3, 0, 2}[sym.Choose("at", 4)]
	way := sym.Choose("way", 4)
	sym.Assume(way != 3 || at == 1 || at == 3)
	onElement := target > 1
	refused := target == 4 || from > at
	sym.Assume(target != 4 || from < 2)

	registered, acted := false, false
	ran := 0
	hook := cli.ActionFunc(func(c *cli.Context) error {
		ran++
		if c.Timing() != timings[at] {
			return errors.New("another timing")
		}
		return nil
	})
	var got error
	reg := cli.ActionFunc(func(c *cli.Context) error {
		registered = true
		switch way {
		case 0:
			got = c.Hook(timings[at], hook)
		case 1:
			got = c.Hook(timings[at], cli.IfMatch(cli.PatternFilter("*"), hook))
		case 2:
			got = c.Hook(timings[at], cli.IfMatch(cli.PatternFilter("nothing"), hook))
		case 3:
			if at == 1 {
				got = c.HookBefore("*", hook)
			} else {
				got = c.HookAfter("*", hook)
			}
		}
		return nil
	})
	var pipes [4]any
	pipes[from] = reg
	f := &cli.Flag{Name: "f", Value: new(bool)}
	a := &cli.Arg{Name: "a", NArg: 0}
	sub := &cli.Command{Name: "sub", Flags: []*cli.Flag{f}, Args: []*cli.Arg{a}, Action: func() { acted = true }}
	app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard, Commands: []*cli.Command{sub}}
	argv := []string{"app", "sub", "-f", "x"}
	uses, _ := pipes[0].(cli.Action)
	switch target {
	case 0:
		app.Uses, app.Before, app.After = uses, pipes[1], pipes[3]
		if from == 2 {
			// the action of the app is run only without a sub-command
			app.Action, argv, acted = reg, []string{"app"}, true
		}
	case 1:
		sub.Uses, sub.Before, sub.After = uses, pipes[1], pipes[3]
		if from == 2 {
			sub.Action, acted = reg, true
		}
	case 2:
		f.Uses, f.Before, f.Action, f.After = uses, pipes[1], pipes[2], pipes[3]
	case 4:
		sub.Uses = cli.ProvideValueInitializer(new(int), "v", cli.Setup{Uses: pipes[0], Before: pipes[1]})
	case 3:
		a.Uses, a.Before, a.Action, a.After = uses, pipes[1], pipes[2], pipes[3]
	}
	err := app.RunContext(context.Background(), argv)
	sym.Assert(err == nil && acted && registered, "a run fails in which a hook is refused")
	sym.Assert((got != nil) == refused, "a hook is refused otherwise than where it can't run")
	sym.Assert(!refused || ran == 0, "a hook runs which was refused")
	sym.Assert(way != 2 || ran == 0, "a hook runs for elements which don't match")
	if from < at && at != 2 && !refused && !onElement && way != 2 {
		sym.Assert(ran > 0, "a hook doesn't run which was registered in time")
	}
	if refused && target != 4 {
		sym.Assert(errors.Is(got, cli.ErrTimingTooLate), "a hook is refused for another reason than its timing")
	}
	sym.Reach("hook")
}
