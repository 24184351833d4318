// Package pipe checks how actions are composed.
package pipe

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

var errs [16]error

func init() {
	for i := range errs {
		errs[i] = fmt.Errorf("error %d", i)
	}
}

// node is an action and what it is meant to do
type node struct {
	kind     int
	id       int
	fails    bool // a leaf
	skips    bool // a middleware does not call the next action
	twice    bool // or does so twice
	hides    bool // and hides its error
	children []*node
}

const (
	leaf       = iota // records its id, may fail
	middleware        // calls the next action as often as its mode
	joined            // Pipeline
	nested            // ActionPipeline that is not flattened
	suppressed
	nothing
)

type gen struct {
	ids   int
	trace []string
}

// node gets an arbitrary action, one with parts if asked for
func (g *gen) node(composite bool) *node {
	n := &node{id: g.ids}
	g.ids++
	if composite {
		n.kind = joined + sym.Choose("kind", nothing-joined+1)
		for i, c := 0, sym.Choose("parts", sym.Bound(3, 4)); i < c && n.kind != nothing; i++ {
			n.children = append(n.children, g.node(false))
		}
		return n
	}
	n.kind = sym.Choose("kind", 2)
	switch n.kind {
	case leaf:
		n.fails = sym.Bool("fails")
	case middleware:
		n.skips = sym.Bool("skips")
		n.twice = sym.Bool("twice")
		n.hides = sym.Bool("hides")
	}
	return n
}

func (g *gen) note(s string, id int) {
	g.trace = append(g.trace, fmt.Sprint(s, id))
}

// action gets the real action of the node
func (g *gen) action(n *node) cli.Action {
	switch n.kind {
	case leaf:
		return cli.ActionOf(func(context.Context) error {
			g.note("", n.id)
			if n.fails {
				return errs[n.id]
			}
			return nil
		})
	case middleware:
		return cli.ActionOf(func(c *cli.Context, next cli.Action) error {
			g.note("<", n.id)
			var err error
			if !n.skips {
				err = cli.Do(c, next)
				if err == nil && n.twice {
					err = cli.Do(c, next)
				}
			}
			g.note(">", n.id)
			if n.hides {
				return nil
			}
			return err
		})
	case joined:
		return cli.Pipeline(g.items(n.children)...)
	case nested:
		var res cli.ActionPipeline
		for _, c := range n.children {
			res = append(res, g.action(c))
		}
		return res
	case suppressed:
		return cli.SuppressError(cli.Pipeline(g.items(n.children)...))
	}
	return nil
}

func (g *gen) items(nodes []*node) []any {
	var res []any
	for _, c := range nodes {
		if a := g.action(c); a != nil {
			res = append(res, a)
		} else {
			res = append(res, nil)
		}
	}
	return res
}

// flat gets the actions of a pipeline made with Pipeline, which has the
// actions of pipelines inside
func flat(nodes []*node) []*node {
	var res []*node
	for _, n := range nodes {
		if n.kind == joined || n.kind == nested {
			res = append(res, flat(n.children)...)
			continue
		}
		res = append(res, n)
	}
	return res
}

// run is the reference: the actions run in order, each middleware
// controls the ones that follow it in the same pipeline
func run(nodes []*node, trace *[]string) error {
	for i, n := range nodes {
		switch n.kind {
		case leaf:
			*trace = append(*trace, fmt.Sprint("", n.id))
			if n.fails {
				return errs[n.id]
			}
		case middleware:
			*trace = append(*trace, fmt.Sprint("<", n.id))
			var err error
			if !n.skips {
				err = run(nodes[i+1:], trace)
				if err == nil && n.twice {
					err = run(nodes[i+1:], trace)
				}
			}
			*trace = append(*trace, fmt.Sprint(">", n.id))
			if n.hides {
				return nil
			}
			return err
		case joined:
			if err := run(flat(n.children), trace); err != nil {
				return err
			}
		case nested:
			if err := run(n.children, trace); err != nil {
				return err
			}
		case suppressed:
			run(flat(n.children), trace)
		}
	}
	return nil
}

// inApp runs the function with the context of the action of an app
func inApp(fn func(*cli.Context)) {
	app := &cli.App{
		Name: "app", Stdout: io.Discard, Stderr: io.Discard,
		Action: func(c *cli.Context) { fn(c) },
	}
	if err := app.RunContext(context.Background(), []string{"app"}); err != nil {
		sym.Fail("the run failed")
	}
}

func (g *gen) check(c *cli.Context, what string, p cli.Action, want []*node) {
	g.trace = nil
	err := cli.Do(c, p)
	var trace []string
	wantErr := run(want, &trace)
	if got, w := strings.Join(g.trace, " "), strings.Join(trace, " "); got != w {
		sym.Observe("got", got)
		sym.Observe("want", w)
		sym.Fail(what + " ran other actions or in another order")
	}
	if !errors.Is(err, wantErr) || (err == nil) != (wantErr == nil) {
		sym.Fail(what + " has another error")
	}
}

// HPipe composes and runs an arbitrary pipeline.
func HPipe() {
	g := &gen{}
	var nodes []*node
	n := 1 + sym.Choose("actions", 3)
	at := sym.Choose("composite", n)
	for i := 0; i < n; i++ {
		nodes = append(nodes, g.node(i == at))
	}
	inApp(func(c *cli.Context) {
		g.check(c, "a pipeline", cli.Pipeline(g.items(nodes)...), flat(nodes))
	})
	sym.Reach("ran")
}

// HAppend derives pipelines from a pipeline.
func HAppend() {
	g := &gen{}
	one := func() []*node {
		n := &node{id: g.ids, kind: leaf, fails: sym.Bool("fails")}
		g.ids++
		return []*node{n}
	}
	acts := func(ns []*node) []cli.Action {
		var res []cli.Action
		for _, n := range ns {
			res = append(res, g.action(n))
		}
		return res
	}
	inner := 1 + sym.Choose("inner", 3)
	var nodes []*node
	for i := 0; i < inner; i++ {
		nodes = append(nodes, one()...)
	}
	base := cli.Pipeline(g.items(nodes)...)
	if sym.Choose("nest", 2) == 1 {
		x := one()
		base = cli.Pipeline(base, g.action(x[0]))
		nodes = append(nodes[:len(nodes):len(nodes)], x...)
	}
	pipes := []cli.ActionPipeline{base}
	want := [][]*node{nodes}
	for i, n := 0, sym.Bound(3, 4); i < n; i++ {
		from := sym.Choose("from", len(pipes))
		x := one()
		switch sym.Choose("how", 3) {
		case 0:
			pipes = append(pipes, pipes[from].Append(acts(x)...))
			want = append(want, append(append([]*node{}, want[from]...), x...))
		case 1:
			pipes = append(pipes, cli.Pipeline(pipes[from], acts(x)[0]))
			want = append(want, append(append([]*node{}, want[from]...), x...))
		case 2:
			pipes = append(pipes, pipes[from].Prepend(acts(x)...))
			want = append(want, append(append([]*node{}, x...), want[from]...))
		}
	}
	inApp(func(c *cli.Context) {
		for i := range pipes {
			g.check(c, "a pipeline derived from another", pipes[i], want[i])
		}
	})
	sym.Reach("ran")
}

// HSetup uses a Setup at each timing.
func HSetup() {
	timings := []cli.Timing{cli.InitialTiming, cli.BeforeTiming, cli.ActionTiming, cli.AfterTiming}
	var got []int
	part := func(name string, id int) any {
		if sym.Bool(name) {
			return func(c *cli.Context) error {
				if !timings[id].Matches(c) {
					sym.Fail("a part of the setup ran at another timing")
				}
				got = append(got, id)
				return nil
			}
		}
		return nil
	}
	s := cli.Setup{Uses: part("uses", 0), Before: part("before", 1), Action: part("action", 2), After: part("after", 3), Optional: sym.Bool("optional")}
	parts := []any{s.Uses, s.Before, s.Action, s.After}
	at := sym.Choose("at", 4)
	where := sym.Choose("where", 3) // command, flag, arg
	var pipes [4]any
	viaHelper := sym.Bool("at helper")
	if viaHelper {
		pipes[0] = cli.At(timings[at], s)
	} else {
		pipes[at] = s
	}
	app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard, Action: func() {}}
	args := []string{"app"}
	switch where {
	case 0:
		app.Uses, app.Before, app.After = pipes[0], pipes[1], pipes[3]
		if pipes[2] != nil {
			app.Action = pipes[2]
		}
	case 1:
		app.Flags = []*cli.Flag{{Name: "f", Value: cli.Bool(), Uses: pipes[0], Before: pipes[1], Action: pipes[2], After: pipes[3]}}
		args = append(args, "-f")
	case 2:
		app.Args = []*cli.Arg{{Name: "f", Value: cli.String(), Uses: pipes[0], Before: pipes[1], Action: pipes[2], After: pipes[3]}}
		args = append(args, "x")
	}
	err := app.RunContext(context.Background(), args)
	late := false
	var want []int
	for i, p := range parts {
		if p == nil {
			continue
		}
		if i < at {
			late = true
			continue
		}
		want = append(want, i)
	}
	if late && !s.Optional {
		var ie *cli.InternalError
		if !errors.As(err, &ie) {
			sym.Fail("a setup used too late is not reported")
		}
		sym.Reach("late")
		return
	}
	if err != nil {
		sym.Fail("a setup that has nothing too late failed: " + err.Error())
		return
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		sym.Fail("a setup did not run its parts once each, at their timings")
	}
	sym.Reach("ran")
}

// HTiming registers actions at arbitrary timings.
func HTiming() {
	menu := []cli.Timing{cli.ValidatorTiming, cli.BeforeTiming, cli.ImplicitValueTiming, cli.ActionTiming, cli.AfterTiming}
	n := 1 + sym.Choose("actions", sym.Bound(4, 4))
	var got, want []string
	var pipe []any
	rank := make([]int, n)
	for i := 0; i < n; i++ {
		rank[i] = sym.Choose("timing", len(menu))
		id := fmt.Sprint(i)
		at := rank[i]
		pipe = append(pipe, cli.At(menu[at], cli.ActionOf(func(c *cli.Context) {
			ok := c.IsBefore()
			switch at {
			case 3:
				ok = c.IsAction()
			case 4:
				ok = c.IsAfter()
			}
			if !ok {
				sym.Fail("an action ran at another timing")
			}
			got = append(got, id)
		})))
	}
	for r := range menu {
		for i := 0; i < n; i++ {
			if rank[i] == r {
				want = append(want, fmt.Sprint(i))
			}
		}
	}
	app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard, Action: func() {}}
	args := []string{"app"}
	uses := cli.Pipeline(pipe...)
	switch sym.Choose("where", 3) {
	case 0:
		app.Uses = uses
	case 1:
		app.Flags = []*cli.Flag{{Name: "f", Value: cli.Bool(), Uses: uses}}
		args = append(args, "-f")
	case 2:
		app.Args = []*cli.Arg{{Name: "f", Value: cli.String(), Uses: uses}}
		args = append(args, "x")
	}
	if err := app.RunContext(context.Background(), args); err != nil {
		sym.Fail("the run failed")
	}
	if strings.Join(got, " ") != strings.Join(want, " ") {
		sym.Fail("actions registered for timings ran in another order")
	}
	sym.Reach("ran")
}

// HRecover recovers an action that panics.
func HRecover() {
	text := sym.String("text", 3, "a%d")
	panics := sym.Bool("panics")
	var ran []string
	act := cli.Recover(cli.ActionOf(func() {
		ran = append(ran, "it")
		if panics {
			panic(text)
		}
	}))
	then := func(s string) any { return func() { ran = append(ran, s) } }
	var pipes [4]any
	at := 1 + sym.Choose("at", 3)
	pipes[at] = act
	f := &cli.Flag{Name: "f", Value: cli.Bool()}
	a := &cli.Arg{Name: "a", Value: cli.String()}
	sub := &cli.Command{Name: "sub", Flags: []*cli.Flag{f}, Args: []*cli.Arg{a}, Action: then("action"), After: then("after")}
	args := []string{"-f", "x"}
	want := []string{"it", "action", "after"}
	switch sym.Choose("where", 3) {
	case 0:
		switch at {
		case 1:
			sub.Before = act
		case 2:
			sub.Action = cli.Pipeline(act, then("action"))
		case 3:
			sub.After = cli.Pipeline(act, then("after"))
			want = []string{"action", "it", "after"}
		}
	case 1:
		f.Before, f.Action, f.After = pipes[1], pipes[2], pipes[3]
		if at == 3 {
			want = []string{"action", "after", "it"}
		}
	case 2:
		a.Before, a.Action, a.After = pipes[1], pipes[2], pipes[3]
		if at == 3 {
			want = []string{"action", "after", "it"}
		}
	}
	app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard, Action: then("app")}
	if sym.Bool("nested") {
		app.Commands = []*cli.Command{sub}
		args = append([]string{"app", "sub"}, args...)
	} else {
		app.Flags, app.Args, app.Before, app.Action, app.After = sub.Flags, sub.Args, sub.Before, sub.Action, sub.After
		args = append([]string{"app"}, args...)
	}
	err := app.RunContext(context.Background(), args)
	if strings.Join(ran, " ") != strings.Join(want, " ") {
		sym.Fail("a recovered action kept others from running")
	}
	sym.Assert((err != nil) == panics, "a run fails exactly when a recovered action panicked")
	if err != nil && panics {
		var ie *cli.InternalError
		if !errors.As(err, &ie) || ie.Err.Error() != text {
			sym.Fail("the error of a run is not the panic of the action")
		}
	}
	sym.Reach("ran")
}
