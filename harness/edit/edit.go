// Package edit states that elements which are set up by code are those which are declared.
package edit

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/expr"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

// custom is a value which has conventions for being set up.
type custom struct {
	texts [5]string
	data  map[string]any
	args  []*cli.Arg
}

func (c *custom) Set(string) error                { return nil }
func (c *custom) String() string                  { return "" }
func (c *custom) SetCategory(s string)            { c.texts[0] = s }
func (c *custom) SetHelpText(s string)            { c.texts[1] = s }
func (c *custom) SetUsageText(s string)           { c.texts[2] = s }
func (c *custom) SetManualText(s string)          { c.texts[3] = s }
func (c *custom) SetDescription(v any)            { c.texts[4] = fmt.Sprint(v) }
func (c *custom) LocalArgs() []*cli.Arg           { return c.args }
func (c *custom) SetLocalArgs(a []*cli.Arg) error { c.args = a; return nil }
func (c *custom) SetData(n string, v any)         { c.data[n] = v }

// described is a value which has a description only.
type described struct{ text string }

func (d *described) SetDescription(s string) { d.text = s }

var setters = []func(*cli.Context, string) error{
	(*cli.Context).SetCategory,
	(*cli.Context).SetHelpText,
	(*cli.Context).SetUsageText,
	(*cli.Context).SetManualText,
	func(c *cli.Context, s string) error { return c.SetDescription(s) },
}

var actions = []func(string) cli.Action{
	cli.Category,
	cli.HelpText,
	cli.UsageText,
	cli.ManualText,
	func(s string) cli.Action { return cli.Description(s) },
}

func prototype(i int, s string) cli.Prototype {
	switch i {
	case 0:
		return cli.Prototype{Category: s}
	case 1:
		return cli.Prototype{HelpText: s}
	case 2:
		return cli.Prototype{UsageText: s}
	case 3:
		return cli.Prototype{ManualText: s}
	}
	return cli.Prototype{Description: s}
}

// texts gives the texts of a context.
func texts(c *cli.Context) [5]string {
	d, _ := c.Description().(string)
	return [5]string{c.Category(), c.HelpText(), c.UsageText(), c.ManualText(), d}
}

// HTexts sets the texts of any element in any way.
func HTexts() {
	own := [5]string{"c", "h", "u", "m", "d"}
	if sym.Bool("none") {
		own = [5]string{}
	}
	target := sym.Choose("target", 7)
	if target == 0 {
		own[0] = "" // there is no such field
	}
	want := own
	outer := false
	var acts []cli.Action
	for i := sym.Choose("settings", sym.Bound(2, 3)); i > 0; i-- {
		k := sym.Choose("text", 5)
		s := sym.StringN("value", 1, "")
		switch sym.Choose("way", 4) {
		case 0:
			acts = append(acts, actions[k](s))
			want[k] = s
		case 1:
			acts = append(acts, cli.ActionFunc(func(c *cli.Context) error { return setters[k](c, s) }))
			want[k] = s
		case 2:
			if target < 4 || target == 4 && want[k] == "" {
				// Only if it isn't set
				acts = append(acts, prototype(k, s))
				if want[k] == "" {
					want[k] = s
				}
			}
		case 3:
			acts = append(acts, cli.FlagSetup(func(f *cli.Flag) {
				sym.Assert(target == 2 || target >= 5, "a flag is set up which is none")
				f.HelpText = s
			}), cli.ArgSetup(func(a *cli.Arg) {
				sym.Assert(target == 3 || target == 4, "an arg is set up which is none")
				a.HelpText = s
			}))
			if target < 2 {
				acts = append(acts, cli.CommandSetup(func(c *cli.Command) {
					c.HelpText = s
				}))
			}
			if target < 4 {
				want[1] = s
			}
			outer = outer || target >= 5
		}
	}
	var got [5]string
	seen := 0
	at := sym.Choose("timing", 3) // in which the texts are read
	read := func(t int) cli.Action {
		return cli.ActionFunc(func(c *cli.Context) error {
			if t == at {
				got = texts(c)
				seen++
			}
			return nil
		})
	}
	uses, customize := cli.Action(cli.ActionPipeline(acts)), cli.Action(nil)
	patterns := []string{"app", "sub", "-f", "<a>", "<-e>", "<-v>", "<-v>"}
	if target > 0 && sym.Bool("customize") {
		uses, customize = nil, cli.Customize(patterns[target], uses)
	}
	app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard}
	sub := &cli.Command{Name: "sub"}
	f := &cli.Flag{Name: "f"}
	a := &cli.Arg{Name: "a"}
	e := &expr.Expr{Name: "e", Evaluate: true}
	v, d := &custom{}, &described{}
	x := &cli.Arg{Name: "x", Value: &expr.Expression{Exprs: []*expr.Expr{e}}}
	switch target {
	case 0:
		app.HelpText, app.UsageText, app.ManualText, app.Description = own[1], own[2], own[3], own[4]
		app.Uses, app.Before, app.Action, app.After = uses, read(0), read(1), read(2)
	case 1:
		sub.Category, sub.HelpText, sub.UsageText, sub.ManualText, sub.Description = own[0], own[1], own[2], own[3], own[4]
		sub.Uses, sub.Before, sub.Action, sub.After = uses, read(0), read(1), read(2)
	case 2:
		f.Category, f.HelpText, f.UsageText, f.ManualText, f.Description = own[0], own[1], own[2], own[3], own[4]
		f.Uses, f.Before, f.Action, f.After = uses, read(0), read(1), read(2)
	case 3:
		a.Category, a.HelpText, a.UsageText, a.ManualText, a.Description = own[0], own[1], own[2], own[3], own[4]
		a.Uses, a.Before, a.Action, a.After = uses, read(0), read(1), read(2)
	case 4:
		e.Category, e.HelpText, e.UsageText, e.ManualText, e.Description = own[0], own[1], own[2], own[3], own[4]
		e.Uses = uses
	case 5:
		v.texts = own
		f.Uses = cli.ProvideValueInitializer(v, "v", uses)
	case 6:
		// others have no effect
		d.text = own[4]
		f.Uses = cli.ProvideValueInitializer(d, "v", uses)
	}
	if target > 0 {
		app.Uses = customize
	}
	app.Flags = []*cli.Flag{f}
	argv := []string{"app", "-f1", "y"}
	if target == 1 {
		app.Commands = []*cli.Command{sub, {Name: "other"}}
		argv[2] = "sub"
	} else if target == 4 {
		app.Args = []*cli.Arg{a, x}
		argv = append(argv, "-e")
	} else {
		app.Args = []*cli.Arg{a, {Name: "b"}}
	}
	err := app.RunContext(context.Background(), argv)
	sym.Assert(err == nil, "an app whose elements have texts fails")
	switch target {
	case 4:
		d, _ := e.Description.(string)
		got = [5]string{e.Category, e.HelpText, e.UsageText, e.ManualText, d}
	case 5:
		got = v.texts
	case 6:
		got = want
		got[4] = d.text
	default:
		sym.Assert(seen == 1, "a pipeline is not run once")
	}
	for i := range got {
		sym.Observe("text", got[i])
		sym.Assert(got[i] == want[i], "an element has another text than the one which is set last")
	}
	sym.Assert(target == 1 || sub.HelpText == "", "a text is set on another element")
	sym.Assert(target == 2 || outer || f.HelpText == "" && f.Category == "", "a text is set on another element")
	sym.Assert(target == 3 || a.HelpText == "" && a.Category == "", "a text is set on another element")
	sym.Reach("texts")
}

// element is one of a list which is edited.
type element struct {
	name    string
	aliases []string
}

func (e element) named(n string) bool {
	for _, a := range e.aliases {
		if a == n {
			return true
		}
	}
	return e.name == n
}

// HEdits adds and removes flags, args and commands and compares the result with a list.
func HEdits() {
	kind := sym.Choose("kind", 3)
	model := []element{{"a", []string{"x"}}, {"b", nil}}
	if kind == 1 {
		model[0].aliases = nil
	}
	flags := []*cli.Flag{{Name: "a", Aliases: []string{"x"}}, {Name: "b"}}
	args := []*cli.Arg{{Name: "a", NArg: 0}, {Name: "b", NArg: 0}}
	cmds := []*cli.Command{{Name: "a", Aliases: []string{"x"}}, {Name: "b"}}
	timing := sym.Choose("timing", 4)
	var acts []cli.Action
	names := "cdefgh"
	initial := [3][2]any{{flags[0], flags[1]}, {args[0], args[1]}, {cmds[0], cmds[1]}}[kind]
	for i := sym.Choose("edits", sym.Bound(3, 4)); i > 0; i-- {
		var n []string
		switch sym.Choose("edit", 2) {
		case 0:
			// add one or two
			for j := sym.Choose("more", 3); j > 0; j-- {
				n = append(n, names[:1])
				names = names[1:]
				if timing == 0 {
					model = append(model, element{name: n[len(n)-1]})
				}
			}
			var f []*cli.Flag
			var a []*cli.Arg
			var c []*cli.Command
			for _, s := range n {
				f, a, c = append(f, &cli.Flag{Name: s}), append(a, &cli.Arg{Name: s, NArg: 0}), append(c, &cli.Command{Name: s})
			}
			switch kind {
			case 0:
				if len(n) == 1 {
					acts = append(acts, cli.AddFlag(f[0]))
				} else {
					acts = append(acts, cli.AddFlags(f...))
				}
			case 1:
				if len(n) == 1 {
					acts = append(acts, cli.AddArg(a[0]))
				} else {
					acts = append(acts, cli.AddArgs(a...))
				}
			case 2:
				if len(n) == 1 {
					acts = append(acts, cli.AddCommand(c[0]))
				} else {
					acts = append(acts, cli.AddCommands(c...))
				}
			}
			if timing != 0 && len(n) == 0 {
				acts = acts[:len(acts)-1] // does nothing
			}
		case 1:
			var by any
			at := -1
			switch sym.Choose("by", 3) {
			case 0:
				s := sym.StringN("name", 1, "abcxz")
				by = s
				for k, e := range model {
					if at < 0 && e.named(s) {
						at = k
					}
				}
			case 1:
				k := sym.Choose("index", 6) - 3
				by = k
				if k < 0 {
					k += len(model)
				}
				if k >= 0 && k < len(model) {
					at = k
				}
			case 2:
				k := sym.Choose("element", 2)
				by = initial[k]
				for i, e := range model {
					if e.name == "ab"[k:k+1] {
						at = i
					}
				}
			}
			if at >= 0 && timing == 0 {
				model = append(model[:at:at], model[at+1:]...)
			}
			acts = append(acts, []func(any) cli.Action{cli.RemoveFlag, cli.RemoveArg, cli.RemoveCommand}[kind](by))
		}
	}
	app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard}
	ran := ""
	var got []string
	list := func(c *cli.Context) error {
		ran = c.Name()
		switch kind {
		case 0:
			for _, f := range c.LocalFlags() {
				if len(f.Name) == 1 {
					got = append(got, f.Name)
				}
			}
		case 1:
			for _, a := range c.LocalArgs() {
				got = append(got, a.Name)
			}
		case 2:
			for _, s := range c.Command().Subcommands {
				if len(s.Name) == 1 {
					got = append(got, s.Name)
				}
			}
		}
		return nil
	}
	edit := cli.Action(cli.ActionPipeline(acts))
	sub := &cli.Command{Name: "sub", Flags: flags, Args: args, Action: list}
	argv := []string{"app", "sub"}
	switch kind {
	case 0:
		sub.Args = nil
	case 1:
		sub.Flags = nil
	case 2:
		sub.Flags, sub.Args, sub.Subcommands = nil, nil, cmds
	}
	switch timing {
	case 0:
		sub.Uses = edit
	case 1:
		sub.Before = edit
	case 2:
		sub.Action = cli.Pipeline(list, edit)
	case 3:
		sub.After = edit
	}
	app.Commands = []*cli.Command{sub}
	// Then one is given on the command line
	given := sym.StringN("given", 1, "abcx")
	found := ""
	for _, e := range model {
		if e.named(given) && (kind != 1 || found == "") {
			found = e.name
			break
		}
	}
	switch kind {
	case 0:
		argv = append(argv, "-"+given+"1")
	case 1:
		for range model {
			argv = append(argv, given)
		}
		found = "sub"
	case 2:
		argv = append(argv, given)
	}
	err := app.RunContext(context.Background(), argv)
	sym.Observe("err", fmt.Sprint(err))
	var want []string
	for _, e := range model {
		want = append(want, e.name)
	}
	if timing != 0 && len(acts) > 0 && found != "" && (kind != 2 || timing != 2) {
		sym.Assert(errors.Is(err, cli.ErrTimingTooLate), "a flag, arg or command can be added or removed after initialization")
	} else if found == "" {
		sym.Assert(err != nil && (timing == 1 || ran == ""), "a flag or command which is removed can be used")
		return
	} else if kind != 2 {
		sym.Assert(err == nil && ran == "sub", "a command fails whose flags or args are edited")
	} else {
		sym.Assert(err == nil, "a command can't be used which is there")
	}
	if ran != "" {
		sym.Assert(strings.Join(got, " ") == strings.Join(want, " "), "a command has other flags, args or commands than those added and not removed")
	}
	sym.Reach("edits")
}

// HAliases adds and removes aliases.
func HAliases() {
	kind := sym.Choose("kind", 4)
	var own []string
	for _, n := range []string{"p", "q"} {
		if sym.Bool("own") {
			own = append(own, n)
		}
	}
	model := append([]string(nil), own...)
	late := sym.Bool("late")
	var acts []cli.Action
	for i := sym.Choose("edits", sym.Bound(3, 4)); i > 0; i-- {
		n := sym.StringN("alias", 1, "pqr")
		switch sym.Choose("edit", 3) {
		case 0:
			if strings.Contains(strings.Join(model, ""), n) {
				sym.Assume(false)
			}
			acts = append(acts, cli.AddAlias(n))
			model = append(model, n)
		case 1:
			m := "s"
			if strings.Contains(strings.Join(model, ""), n) || strings.Contains(strings.Join(model, ""), m) {
				sym.Assume(false)
			}
			acts = append(acts, cli.Alias(n, m))
			model = append(model, n, m)
		case 2:
			acts = append(acts, cli.RemoveAlias(n))
			var rest []string
			for _, m := range model {
				if m != n {
					rest = append(rest, m)
				}
			}
			model = rest
		}
	}
	if kind == 2 {
		model, own = nil, nil
	}
	var got []string
	var gotNames []string
	read := cli.ActionFunc(func(c *cli.Context) error {
		got = c.Aliases()
		gotNames = nil
		switch t := c.Target().(type) {
		case *cli.Flag:
			gotNames = t.Names()
		case *cli.Command:
			gotNames = t.Names()
		}
		return nil
	})
	edit := cli.Action(cli.ActionPipeline(acts))
	uses, before := edit, cli.Action(nil)
	if late {
		uses, before = nil, edit
		model = own
	}
	app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard}
	f := &cli.Flag{Name: "f"}
	a := &cli.Arg{Name: "a", NArg: 0}
	sub := &cli.Command{Name: "sub"}
	switch kind {
	case 0:
		f.Aliases, f.Uses, f.Before = own, uses, cli.Pipeline(read, before)
	case 1:
		sub.Aliases, sub.Uses, sub.Before = own, uses, cli.Pipeline(read, before)
	case 2:
		a.Uses, a.Before = uses, cli.Pipeline(read, before)
	case 3:
		f.Aliases, f.Before = own, cli.Pipeline(read, before)
		if !late {
			app.Uses = cli.Customize("-f", edit)
		}
	}
	app.Flags = []*cli.Flag{f}
	argv := []string{"app"}
	given := sym.StringN("given", 1, "pqrs")
	there := false
	for _, n := range model {
		there = there || n == given
	}
	switch kind {
	case 0, 3:
		argv = append(argv, "-"+given, "1")
	case 1:
		app.Commands = []*cli.Command{sub}
		argv = append(argv, given)
	case 2:
		app.Args = []*cli.Arg{a}
		there = true
	}
	err := app.RunContext(context.Background(), argv)
	sym.Observe("err", fmt.Sprint(err))
	if !there {
		sym.Assert(err != nil, "an alias can be used which is removed")
		return
	}
	if late && len(acts) > 0 {
		sym.Assert(errors.Is(err, cli.ErrTimingTooLate), "an alias can be added or removed after initialization")
	} else {
		sym.Assert(err == nil, "an alias can't be used which is there")
	}
	sym.Assert(strings.Join(got, " ") == strings.Join(model, " "), "the aliases are not those added and not removed")
	if kind == 0 || kind == 3 {
		for i, n := range gotNames {
			gotNames[i] = strings.TrimPrefix(n, "-")
		}
	}
	if kind != 2 {
		sym.Assert(len(gotNames) == 1+len(model) && strings.Join(gotNames[1:], " ") == strings.Join(model, " "), "the names are not the name and the aliases")
	}
	sym.Reach("aliases")
}

// HMetadata sets and deletes data on any element, and names it.
func HMetadata() {
	target := sym.Choose("target", 5)
	own := map[string]any{}
	var acts []cli.Action
	model := map[string]any{}
	if sym.Bool("own") {
		own["k"], model["k"] = 0, 0
	} else if sym.Bool("nil") {
		own = nil
	}
	for i := 1 + sym.Choose("settings", sym.Bound(2, 3)); i > 0; i-- {
		k := []string{"k", "j"}[sym.Choose("key", 2)]
		var v any
		if !sym.Bool("delete") {
			v = i
		}
		if sym.Bool("method") {
			acts = append(acts, cli.ActionFunc(func(c *cli.Context) error { return c.SetData(k, v) }))
		} else {
			acts = append(acts, cli.Data(k, v))
		}
		if v == nil {
			delete(model, k)
		} else {
			model[k] = v
		}
	}
	ran := false
	check := cli.ActionFunc(func(c *cli.Context) error {
		ran = true
		for _, k := range []string{"k", "j"} {
			v, ok := c.LookupData(k)
			w, there := model[k]
			sym.Assert(ok == there && v == w, "the data of an element is not what is set last")
			sym.Assert(target == 4 || c.Data()[k] == w, "the data of an element is not what is set last")
		}
		return nil
	})
	uses := cli.Pipeline(cli.ActionPipeline(acts), check)
	app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard}
	f := &cli.Flag{Name: "f"}
	a := &cli.Arg{Name: "a", NArg: 0}
	sub := &cli.Command{Name: "sub"}
	e := &expr.Expr{Name: "e", Evaluate: true}
	app.Flags = []*cli.Flag{f}
	app.Args = []*cli.Arg{a}
	switch target {
	case 0:
		app.Data, app.Uses = own, uses
	case 1:
		sub.Data, sub.Uses = own, uses
		app.Commands, app.Args = []*cli.Command{sub}, nil
	case 2:
		f.Data, f.Uses = own, uses
	case 3:
		a.Data, a.Uses = own, uses
	case 4:
		e.Data, e.Uses = own, uses
		app.Args = append(app.Args, &cli.Arg{Name: "x", Value: &expr.Expression{Exprs: []*expr.Expr{e}}})
	}
	err := app.RunContext(context.Background(), []string{"app"})
	sym.Assert(err == nil && ran, "an app with data fails")
	sym.Reach("data")
}
