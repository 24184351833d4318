// Package proto checks prototypes.
package proto

import (
	"context"
	"fmt"
	"io"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

type item int

func (item) Complete(context.Context) []cli.CompletionItem { return nil }

// the fields that are copied if not set; the last ones only to some elements
var fields = []string{"name", "category", "help", "manual", "usage", "description", "completion", "default", "file", "value", "narg"}

const (
	flag = iota
	arg
	command
)

func has(kind int, field string) bool {
	switch field {
	case "default", "file", "value":
		return kind != command
	case "narg":
		return kind == arg
	}
	return true
}

// owner is the element, or a prototype
type owner struct {
	id     string
	fields map[string]string
	value  *int
	// what is merged
	alias, env, data, shared, hidden bool
}

func (o *owner) any(f string, v any) any {
	if o.fields[f] != "" {
		return v
	}
	return nil
}

func (o *owner) completion() cli.Completion {
	if o.fields["completion"] != "" {
		return item(o.id[0])
	}
	return nil
}

func (o *owner) narg() int { return 2 + int(o.id[0]-'0') }

func when(b bool, s ...string) []string {
	if b {
		return s
	}
	return nil
}

func (o *owner) datas() map[string]any {
	var m map[string]any
	if o.data {
		m = map[string]any{"data" + o.id: o.id}
	}
	if o.shared {
		if m == nil {
			m = map[string]any{}
		}
		m["more"+o.id] = o.id + o.id
	}
	return m
}

func (o *owner) options() cli.Option {
	if o.hidden {
		return cli.Hidden
	}
	return 0
}

// HPrototype applies two prototypes to an element: a field which each of
// them has or not, and all the others alike.
func HPrototype() {
	kind := sym.Choose("kind", 3)
	prevent := sym.Choose("prevent", 2) == 1
	field := sym.Choose("field", len(fields))
	if !has(kind, fields[field]) {
		field = 1
	}
	var owners []*owner
	for i := 0; i < 3; i++ {
		one, others := sym.String("text", 1, "ab"), sym.String("others", 1, "ab")
		o := &owner{id: fmt.Sprint(i), fields: map[string]string{}, value: new(int)}
		for n, f := range fields {
			o.fields[f] = others
			if n == field {
				o.fields[f] = one
			}
		}
		owners = append(owners, o)
	}
	run(kind, prevent, owners)
}

// HMerged applies two prototypes with what is merged.
func HMerged() {
	kind := sym.Choose("kind", 3)
	prevent := sym.Choose("prevent", 2) == 1
	what := sym.Choose("what", 2)
	var owners []*owner
	for i := 0; i < 3; i++ {
		o := &owner{id: fmt.Sprint(i), fields: map[string]string{}, value: new(int)}
		switch what {
		case 0:
			o.alias, o.env = sym.Bool("alias"), sym.Bool("env")
		case 1:
			o.data, o.shared, o.hidden = sym.Bool("data"), sym.Bool("more data"), sym.Bool("hidden")
		}
		owners = append(owners, o)
	}
	run(kind, prevent, owners)
}

func run(kind int, prevent bool, owners []*owner) {
	// there has to be a name in the end
	owners[2].fields["name"] = "c"
	o := owners[0]
	opts := o.options()
	if prevent {
		opts |= cli.PreventSetup
		o.fields["name"] = "c"
		owners[1].fields["narg"], owners[2].fields["narg"] = "", ""
	}
	var trace []string
	note := func(s string) any { return func() { trace = append(trace, s) } }
	proto := func(p *owner) cli.Prototype {
		t := p.fields
		return cli.Prototype{
			Name: t["name"], Category: t["category"], HelpText: t["help"], ManualText: t["manual"],
			UsageText: t["usage"], Description: p.any("description", p.id), Completion: p.completion(),
			DefaultText: t["default"], FilePath: t["file"], Value: p.any("value", p.value), NArg: p.any("narg", p.narg()),
			Aliases: when(p.alias, "alias"+p.id), EnvVars: when(p.env, "ENV"+p.id), Data: p.datas(), Options: p.options(),
			Setup: cli.Setup{Uses: note("u" + p.id), Before: note("b" + p.id), Action: note("a" + p.id), After: note("c" + p.id)},
		}
	}
	first, second := proto(owners[1]), proto(owners[2])
	uses := cli.Pipeline(first, &second)
	app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard, Action: func() {}}
	args := []string{"app"}
	var (
		f       *cli.Flag
		a       *cli.Arg
		c       *cli.Command
		visible int
		t       = o.fields
	)
	switch kind {
	case flag:
		f = &cli.Flag{
			Name: t["name"], Category: t["category"], HelpText: t["help"], ManualText: t["manual"],
			UsageText: t["usage"], Description: o.any("description", o.id), Completion: o.completion(),
			DefaultText: t["default"], FilePath: t["file"], Value: o.any("value", o.value),
			Aliases: when(o.alias, "alias"+o.id), EnvVars: when(o.env, "ENV"+o.id), Data: o.datas(), Options: opts, Uses: uses,
		}
		app.Flags = []*cli.Flag{f}
	case arg:
		a = &cli.Arg{
			Name: t["name"], Category: t["category"], HelpText: t["help"], ManualText: t["manual"],
			UsageText: t["usage"], Description: o.any("description", o.id), Completion: o.completion(),
			DefaultText: t["default"], FilePath: t["file"], Value: o.any("value", o.value), NArg: o.any("narg", o.narg()),
			EnvVars: when(o.env, "ENV"+o.id), Data: o.datas(), Options: opts, Uses: uses,
		}
		app.Args = []*cli.Arg{a}
	case command:
		c = &cli.Command{
			Name: t["name"], Category: t["category"], HelpText: t["help"], ManualText: t["manual"],
			UsageText: t["usage"], Description: o.any("description", o.id), Completion: o.completion(),
			Aliases: when(o.alias, "alias"+o.id), Data: o.datas(), Options: opts, Uses: uses, Action: func() {},
		}
		app.Commands = []*cli.Command{c}
	}
	app.Before = func(c *cli.Context) {
		cmd := c.Command()
		switch kind {
		case flag:
			for _, x := range cmd.VisibleFlags() {
				if x == f {
					visible++
				}
			}
		case arg:
			visible = len(cmd.VisibleArgs())
		case command:
			visible = -1
			for _, x := range cmd.VisibleSubcommands() {
				if x.Name == "c" || x.Name == "a" || x.Name == "b" {
					visible = 1
				}
			}
		}
	}

	// who a field should come from
	from := func(f string) *owner {
		for _, x := range owners {
			if x.fields[f] != "" {
				return x
			}
			if prevent {
				break
			}
		}
		return nil
	}
	text := func(f string) string {
		if x := from(f); x != nil {
			return x.fields[f]
		}
		return ""
	}
	switch kind {
	case flag:
		name := text("name")
		args = append(args, "-"+name, "5")
	case arg:
		n := 1
		if x := from("narg"); x != nil {
			n = x.narg()
		}
		for i := 0; i < n; i++ {
			args = append(args, "5")
		}
	case command:
		args = append(args, text("name"))
	}
	err := app.RunContext(context.Background(), args)
	sym.Observe("err", fmt.Sprint(err))
	sym.Assert(err == nil, "an element set up by a prototype cannot be used")
	want := "u1 u2 b1 b2 a1 a2 c1 c2"
	if prevent {
		want = ""
	}
	var got [7]string
	var completion cli.Completion
	var description, value, narg any
	var aliases, envs []string
	var data map[string]any
	switch kind {
	case flag:
		got = [7]string{f.Name, f.Category, f.HelpText, f.ManualText, f.UsageText, f.DefaultText, f.FilePath}
		completion, description, value, aliases, envs, data = f.Completion, f.Description, f.Value, f.Aliases, f.EnvVars, f.Data
	case arg:
		got = [7]string{a.Name, a.Category, a.HelpText, a.ManualText, a.UsageText, a.DefaultText, a.FilePath}
		completion, description, value, envs, data, narg = a.Completion, a.Description, a.Value, a.EnvVars, a.Data, a.NArg
	case command:
		got = [7]string{c.Name, c.Category, c.HelpText, c.ManualText, c.UsageText}
		completion, description, aliases, data = c.Completion, c.Description, c.Aliases, c.Data
	}
	texts := []string{"name", "category", "help", "manual", "usage", "default", "file"}
	if prevent {
		for i, name := range texts {
			sym.Assert(o.fields[name] == "" || !has(kind, name) || got[i] == o.fields[name], "a text of an element that prevents setup was replaced")
		}
		if o.fields["completion"] != "" && completion != o.completion() || o.fields["description"] != "" && description != o.id || has(kind, "value") && o.fields["value"] != "" && value != o.value {
			sym.Fail("a field of an element that prevents setup was replaced")
		}
		if kind == command {
			if len(aliases) != len(when(o.alias, "")) || len(data) != len(o.datas()) || completion != o.completion() || (visible != 1) != o.hidden {
				sym.Fail("a prototype changed a command that prevents setup")
			}
		}
		// all else is done nevertheless
		sym.Known("prototype-prevent-setup")
	}
	sym.Assert(strings.Join(trace, " ") == want, "the setup of a prototype does not run exactly once, unless prevented")
	for i, name := range texts {
		if has(kind, name) {
			sym.Assert(got[i] == text(name), "a text of an element is not its own or that of the first prototype that has it: "+name)
		}
	}
	if x := from("completion"); (x == nil) != (completion == nil) || x != nil && completion != x.completion() {
		sym.Fail("the completion of an element is not its own or that of the first prototype that has it")
	}
	if x := from("description"); x == nil && description != nil && description != "" || x != nil && description != x.id {
		sym.Fail("the description of an element is not its own or that of the first prototype that has it")
	}
	if kind != command {
		p, ok := value.(*int)
		if x := from("value"); x == nil && ok || x != nil && p != x.value {
			sym.Fail("the value of an element is not its own or that of the first prototype that has it")
		}
	}
	if kind == arg {
		if x := from("narg"); x != nil && narg != x.narg() {
			sym.Fail("the count of an arg is not its own or that of the first prototype that has it")
		}
	}
	var wantAliases, wantEnvs []string
	hidden := false
	for i, x := range owners {
		if i > 0 && prevent {
			x = &owner{}
		}
		wantAliases = append(wantAliases, when(x.alias, "alias"+x.id)...)
		wantEnvs = append(wantEnvs, when(x.env, "ENV"+x.id)...)
		hidden = hidden || x.hidden
		id := fmt.Sprint(i)
		if d, ok := data["data"+id]; ok != x.data || ok && d != id {
			sym.Fail("data of an element or prototype is missing or added")
		}
		if d, ok := data["more"+id]; ok != x.shared || ok && d != id+id {
			sym.Fail("data of an element or prototype is missing or added")
		}
	}
	if kind != arg {
		sym.Assert(strings.Join(aliases, " ") == strings.Join(wantAliases, " "), "the aliases of the element and prototypes are not merged")
	}
	if kind != command {
		sym.Assert(strings.Join(envs, " ") == strings.Join(wantEnvs, " "), "the environment variables of the element and prototypes are not merged")
	}
	sym.Assert(hidden == (visible != 1), "the options of the element and prototypes are not merged")
	sym.Reach("ran")
}
