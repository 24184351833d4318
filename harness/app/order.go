// Package app checks whole runs of an app.
package app

import (
	"context"
	"errors"
	"fmt"
	"io"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

// stages of a target at which an action is run
const (
	sUses = iota
	sBefore
	sAction
	sAfter
	sUsesBefore // deferred from Uses to Before
	sUsesAction
	sUsesAfter
	sBeforeAction // deferred from Before to Action
	sBeforeAfter
	sActionAfter
	sBeforeNow // requested in Before for Before
	nStage
)

const (
	tApp = iota
	tF   // flag of the app
	tSub
	tG // flag of sub
	tLeaf
	tX // arg of leaf
	nTarget
)

var errStep = errors.New("step failed")

type tracer struct {
	trace []int
	fail  int
}

func (t *tracer) ev(id int) cli.Action {
	return cli.ActionFunc(func(*cli.Context) error {
		t.trace = append(t.trace, id)
		if t.fail == id {
			return errStep
		}
		return nil
	})
}

func (t *tracer) uses(n int) cli.Action {
	return cli.Pipeline(
		t.ev(n*nStage+sUses),
		cli.At(cli.BeforeTiming, t.ev(n*nStage+sUsesBefore)),
		cli.At(cli.ActionTiming, t.ev(n*nStage+sUsesAction)),
		cli.After(t.ev(n*nStage+sUsesAfter)),
	)
}

func (t *tracer) before(n int) cli.Action {
	return cli.Pipeline(
		t.ev(n*nStage+sBefore),
		func(c *cli.Context) error { return c.Action(t.ev(n*nStage + sBeforeAction)) },
		func(c *cli.Context) error { return c.After(t.ev(n*nStage + sBeforeAfter)) },
		func(c *cli.Context) error { return c.Before(t.ev(n*nStage + sBeforeNow)) },
	)
}

func (t *tracer) action(n int) cli.Action {
	return cli.Pipeline(
		t.ev(n*nStage+sAction),
		func(c *cli.Context) error { return c.After(t.ev(n*nStage + sActionAfter)) },
	)
}

func (t *tracer) after(n int) cli.Action { return t.ev(n*nStage + sAfter) }

// order is the reference: what runs, in which order
type order struct {
	out      []int
	acted    [nTarget]int // how often the action ran
	flag     []int        // flag of each level, -1 if none
	set      [][]int      // levels at which the flag of each level is set
	cmd      []int
	depth    int
	arg      bool
	argGiven bool
}

func (o *order) add(t int, stages ...int) {
	for _, s := range stages {
		o.out = append(o.out, t*nStage+s)
	}
}

func (o *order) actionOf(t int) {
	o.add(t, sUsesAction, sBeforeAction, sAction)
	o.acted[t]++
}

func (o *order) afterOf(t int) {
	o.add(t, sUsesAfter, sBeforeAfter)
	for i := 0; i < o.acted[t]; i++ {
		o.add(t, sActionAfter)
	}
	o.add(t, sAfter)
}

func (o *order) level(l int) {
	o.add(o.cmd[l], sUsesBefore, sBefore, sBeforeNow)
	if o.flag[l] >= 0 {
		o.add(o.flag[l], sUsesBefore, sBefore, sBeforeNow)
	}
	if l == 2 {
		o.add(tX, sUsesBefore, sBefore, sBeforeNow)
	}
	for k := 0; k <= l; k++ {
		if o.flag[k] >= 0 && contains(o.set[k], l) {
			o.actionOf(o.flag[k])
		}
	}
	if l == 2 && o.argGiven {
		o.actionOf(tX)
	}
	if l < o.depth {
		o.level(l + 1)
	} else {
		o.actionOf(o.cmd[l])
	}
	o.afterOf(o.cmd[l])
	if o.flag[l] >= 0 {
		o.afterOf(o.flag[l])
	}
	if l == 2 {
		o.afterOf(tX)
	}
}

func contains(s []int, v int) bool {
	for _, x := range s {
		if x == v {
			return true
		}
	}
	return false
}

func equal(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// HOrder runs an app of three levels, in which any one step may fail.
func HOrder() {
	depth := sym.Choose("depth", 3)
	o := &order{depth: depth, flag: []int{tF, tG, -1}, cmd: []int{tApp, tSub, tLeaf}, set: make([][]int, 3)}
	argv := []string{"app"}
	names := []string{"", "sub", "leaf"}
	for l := 0; l <= depth; l++ {
		if l > 0 {
			argv = append(argv, names[l])
		}
		if sym.Bool("f") {
			argv = append(argv, "--f")
			o.set[0] = append(o.set[0], l)
		}
		if l > 0 && sym.Bool("g") {
			argv = append(argv, "--g")
			o.set[1] = append(o.set[1], l)
		}
	}
	if depth == 2 && sym.Bool("x") {
		argv = append(argv, "v")
		o.argGiven = true
	}
	t := &tracer{fail: sym.Choose("fail", nTarget*nStage+1)}
	flag := func(n int, name string) *cli.Flag {
		return &cli.Flag{Name: name, Value: cli.Bool(), Uses: t.uses(n), Before: t.before(n), Action: t.action(n), After: t.after(n)}
	}
	app := &cli.App{
		Name: "app", Stderr: io.Discard, Stdout: io.Discard,
		Uses: t.uses(tApp), Before: t.before(tApp), Action: t.action(tApp), After: t.after(tApp),
		Flags: []*cli.Flag{flag(tF, "f")},
		Commands: []*cli.Command{{
			Name: "sub",
			Uses: t.uses(tSub), Before: t.before(tSub), Action: t.action(tSub), After: t.after(tSub),
			Flags: []*cli.Flag{flag(tG, "g")},
			Subcommands: []*cli.Command{{
				Name: "leaf",
				Uses: t.uses(tLeaf), Before: t.before(tLeaf), Action: t.action(tLeaf), After: t.after(tLeaf),
				Args: []*cli.Arg{{Name: "x", NArg: 0, Uses: t.uses(tX), Before: t.before(tX), Action: t.action(tX), After: t.after(tX)}},
			}},
		}},
	}
	err := app.RunContext(context.Background(), argv)

	for i := 0; i < nTarget; i++ {
		o.add(i, sUses)
	}
	o.level(0)
	failed := false
	for i, id := range o.out {
		if id == t.fail {
			o.out = o.out[:i+1]
			failed = true
			break
		}
	}
	sym.Observe("got", fmt.Sprint(t.trace))
	sym.Observe("want", fmt.Sprint(o.out))
	sym.ObserveInt("steps", len(t.trace))
	sym.Assert(equal(t.trace, o.out), "the steps of a run are not exactly those due, in order")
	sym.Assert(failed == (err != nil), "an error of a step is not the outcome of the run")
	sym.Assert(!failed || errors.Is(err, errStep), "the outcome of the run is not the error of the step")
}
