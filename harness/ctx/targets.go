package ctx

import (
	"context"
	"fmt"
	"io"
	"slices"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

// thing is a value which has all conventions.
type thing struct {
	id         int
	aliases    []string
	text       string
	completion cli.Completion
	data       map[string]any
}

func (*thing) Set(string) error                  { return nil }
func (*thing) String() string                    { return "" }
func (t *thing) SetAliases(a []string)           { t.aliases = a }
func (t *thing) SetDefaultText(s string)         { t.text = s }
func (t *thing) SetCompletion(c cli.Completion)  { t.completion = c }
func (t *thing) SetData(n string, v any)         { t.data[n] = v }
func (t *thing) LookupData(n string) (any, bool) { v, ok := t.data[n]; return v, ok }

// HTargets provides values to initialize on any element
func HTargets() {
	place := sym.Choose("place", 4)
	paths := []string{"app", "app s", "app -f", "app <x>"}
	count := sym.Choose("values", sym.Bound(3, 4))
	// Names are chosen so that they could be equal
	var names []string
	for range count {
		names = append(names, sym.StringN("name", 1, "ab"))
	}
	asked := sym.StringN("asked", 1, "abf")
	decorated := sym.Bool("decorated")
	text := sym.StringN("text", 1, "")
	byProto := sym.Bool("prototype")
	failing := sym.Choose("failing", count+1)

	var things []*thing
	var ran []int
	var acts []any
	for i, name := range names {
		v := &thing{id: i, data: map[string]any{}}
		things = append(things, v)
		var set cli.Action = cli.Pipeline(cli.Data("k", i), cli.Data("t", text), cli.SetCompletion(cli.CompletionValues(text)))
		if byProto {
			set = cli.Pipeline(set, cli.Prototype{DefaultText: text})
		}
		act := func(c *cli.Context) error {
			ran = append(ran, i)
			sym.Assert(c.Path().String() == paths[place]+" <-"+name+">", "the path of the value differs")
			sym.Assert(c.Path().IsExpr() && !c.Path().IsFlag() && !c.Path().IsArg() && !c.Path().IsCommand(), "the path is of another kind")
			sym.Assert(c.Timing() == cli.InitialTiming, "the value is initialized at another time")
			k, ok := c.LookupData("k")
			sym.Assert(ok && k == i && v.data["k"] == i && v.data["t"] == text, "the data differs")
			own, ok := c.LookupValueTarget("")
			sym.Assert(ok && own == v, "the value isn't found in its own context")
			if i == failing {
				return errBroken
			}
			return nil
		}
		acts = append(acts, cli.ProvideValueInitializer(v, name, set, cli.ActionOf(act)))
	}
	lookups := 0
	acts = append(acts, func(c *cli.Context) {
		lookups++
		n := asked
		if decorated {
			n = "<-" + n + ">"
		}
		v, ok := c.LookupValueTarget(n)
		first := slices.Index(names, asked)
		sym.Assert(ok == (first >= 0), "a value is or isn't found")
		sym.Assert(!ok && v == nil || ok && v == things[first], "another value is found")
		child, ok := c.FindTarget(cli.ContextPath{"", "<-" + asked + ">"}[:1])
		sym.Assert(ok && child == c, "a context isn't found by the empty path")
	})
	uses := cli.Pipeline(acts...)
	app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard, Action: func() {}}
	switch place {
	case 0:
		app.Uses = uses
	case 1:
		app.Commands = []*cli.Command{{Name: "s", Uses: uses}}
	case 2:
		app.Flags = []*cli.Flag{{Name: "f", Uses: uses}}
	case 3:
		app.Args = []*cli.Arg{{Name: "x", Uses: uses}}
	}
	err := app.RunContext(context.Background(), []string{"app"})
	var want []int
	for i := range count {
		want = append(want, i)
		if i == failing {
			break
		}
	}
	sym.Assert(slices.Equal(ran, want), "the values aren't initialized once in order")
	sym.Assert((err != nil) == (failing < count), "the result differs")
	sym.Assert(lookups == 1, "the element isn't initialized once")
	for i, v := range things {
		if i > failing {
			break
		}
		sym.Assert(v.completion != nil && v.text == map[bool]string{true: text}[byProto], "what is set on the value differs")
	}
	sym.Reach(fmt.Sprint("values ", count))
}

// HValues gets all values of a context
func HValues() {
	var args []*cli.Arg
	var want, sub []any
	line := []string{"app"}
	given := sym.Choose("given", 4)
	n := sym.Choose("args", sym.Bound(3, 4))
	sym.Assume(given <= n)
	for i := range n {
		s := sym.StringN("value", 1, "ab")
		a := &cli.Arg{Name: fmt.Sprint("x", i), Value: cli.String()}
		want = append(want, "")
		if sym.Bool("bool") {
			a.Value = cli.Bool()
			s = []string{"true", "false"}[sym.Choose("bool value", 2)]
			want[i] = false
			if i < given {
				want[i] = s == "true"
			}
		} else if i < given {
			want[i] = s
		}
		if i < given {
			line = append(line, s)
		}
		args = append(args, a)
	}
	check := func(want []any) func(c *cli.Context) {
		return func(c *cli.Context) {
			sym.Assert(c.NValue() == len(want), "the number of values differs")
			got := c.Values()
			sym.Assert(len(got) == len(want), "the number of all values differs")
			for i := range want {
				sym.Assert(got[i] == want[i] && c.Value(i) == want[i], "a value differs")
			}
			sym.Assert(c.Value(len(want)) == nil && c.Value(-1-len(want)) == nil, "there are more values")
			sym.Assert(c.Matches(nil) && c.Matches(cli.AnyCommand) && !c.Matches(cli.AnyFlag), "the context doesn't match")
		}
	}
	ran := 0
	app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard}
	if sym.Bool("sub") {
		line = slices.Insert(line, 1, "s")
		app.After = check(sub)
		app.Commands = []*cli.Command{{Name: "s", Args: args, Action: func(c *cli.Context) { ran++; check(want)(c) }}}
		app.After = nil
	} else {
		app.Args = args
		app.Action = func(c *cli.Context) { ran++; check(want)(c) }
	}
	app.Flags = []*cli.Flag{{Name: "f", Value: cli.Bool(), Before: func(c *cli.Context) {
		sym.Assert(c.NValue() == 0 && len(c.Values()) == 0, "a flag has values of args")
	}}}
	err := app.RunContext(context.Background(), line)
	sym.Assert(err == nil && ran == 1, "the run fails")
	sym.Reach("values")
}

// HCompletion sets the completion of elements in any way
func HCompletion() {
	mark := func(s string) cli.CompletionFunc {
		return func(c *cli.Context) []cli.CompletionItem { return []cli.CompletionItem{{Value: s}} }
	}
	element := sym.Choose("element", 4)
	own := sym.Bool("own")
	text := "own"
	var field cli.Completion
	if own {
		field = mark(text)
	}
	want := ""
	if own {
		want = text
	}
	var acts []any
	for i := sym.Choose("settings", 3); i > 0; i-- {
		s := sym.StringN("text", 1, "")
		switch sym.Choose("way", 4) {
		case 0:
			acts = append(acts, mark(s))
			want = s
		case 1:
			acts = append(acts, cli.SetCompletion(mark(s)))
			want = s
		case 2:
			acts = append(acts, cli.Prototype{Completion: mark(s)})
			if want == "" {
				want = s
			}
		case 3:
			acts = append(acts, cli.FileCompletion)
			want = "file"
		}
	}
	seen := 0
	acts = append(acts, func(c *cli.Context) {
		seen++
		comp := c.Completion()
		if want == "" && element == 0 {
			// Commands have one by default
			sym.Assert(comp != nil, "a command has no completion")
			return
		}
		sym.Assert((comp == nil) == (want == ""), "there is or isn't a completion")
		if comp == nil {
			return
		}
		if want == "file" {
			sym.Assert(comp == cli.FileCompletion, "the completion of files differs")
			return
		}
		items := comp.Complete(c)
		sym.Assert(len(items) == 1 && items[0].Value == want, "the completion differs")
	})
	uses := cli.Pipeline(acts...)
	app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard, Action: func() {}}
	switch element {
	case 0:
		app.Commands = []*cli.Command{{Name: "s", Completion: field, Uses: uses}}
	case 1:
		app.Flags = []*cli.Flag{{Name: "f", Completion: field, Uses: uses}}
	case 2:
		app.Args = []*cli.Arg{{Name: "x", Completion: field, Uses: uses}}
	case 3:
		app.Flags = []*cli.Flag{{Name: "f", Value: new(cli.File), Completion: field, Uses: uses}}
		if want == "" {
			want = "file"
		}
	}
	err := app.RunContext(context.Background(), []string{"app"})
	sym.Assert(err == nil && seen == 1, "the run fails")
	sym.Reach("completion")
}
