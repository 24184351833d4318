// Package complete checks shell completion.
package complete

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"slices"
	"sort"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

// opt is a flag
type opt struct {
	short, long string
	values      []string
	hidden      bool
	boolean     bool
}

func (o *opt) flag() *cli.Flag {
	f := &cli.Flag{Name: o.long, Value: new(string)}
	if o.short != "" {
		f.Aliases = []string{o.short}
	}
	if o.long == "" {
		f.Name, f.Aliases = o.short, nil
	}
	if o.boolean {
		f.Value = new(bool)
	}
	if o.long == "num" {
		f.Value = new(int)
	}
	if o.values != nil {
		f.Completion = cli.CompletionValues(o.values...)
	}
	if o.hidden {
		f.Options = cli.Hidden
	}
	return f
}

func (o *opt) names() []string {
	var res []string
	if o.short != "" {
		res = append(res, "-"+o.short)
	}
	if o.long != "" {
		res = append(res, "--"+o.long)
	}
	return res
}

// node is a command
type node struct {
	name   string
	alias  []string
	hidden bool
	flags  []*opt
	args   [][]string
	subs   []*node
}

func (n *node) command() *cli.Command {
	c := &cli.Command{Name: n.name, Action: func() {}}
	c.Aliases = n.alias
	if n.hidden {
		c.Options = cli.Hidden
	}
	for _, f := range n.flags {
		c.Flags = append(c.Flags, f.flag())
	}
	for i, a := range n.args {
		c.Args = append(c.Args, &cli.Arg{Name: string(rune('p' + i)), NArg: 1, Completion: cli.CompletionValues(a...)})
	}
	for _, s := range n.subs {
		c.Subcommands = append(c.Subcommands, s.command())
	}
	return c
}

func tree() *node {
	return &node{
		name: "app",
		flags: []*opt{
			{short: "l", long: "long", values: []string{"al", "be"}},
			{long: "lon", values: []string{"no"}},
			{long: "len", hidden: true},
			{short: "o", boolean: true},
			{long: "num"},
			{long: "loner", values: []string{"one"}},
		},
		subs: []*node{
			{name: "sub", flags: []*opt{{short: "d", long: "deep", values: []string{"al", "do"}}, {long: "wide", boolean: true}}, args: [][]string{{"one", "two"}, {"al"}}},
			{name: "se", hidden: true, alias: []string{"sec"}},
			{name: "plain", alias: []string{"s", "so"}},
			{name: "mid", subs: []*node{{name: "sub", alias: []string{"nos", "son"}}, {name: "leaf", flags: []*opt{{long: "long", values: []string{"le"}}}}}},
		},
	}
}

func builtin() []*opt {
	return []*opt{{short: "h", long: "help", boolean: true}, {long: "version", boolean: true}}
}

// suggest gets what is to be suggested; nothing is claimed if not ok
func suggest(args []string, inc string) (res []string, ok bool) {
	root := tree()
	root.flags = append(root.flags, builtin()...)
	root.subs = append(root.subs, &node{name: "help", alias: []string{"h"}, args: [][]string{nil}}, &node{name: "version"})
	above := [][]*opt{}
	cur := root
	var pending *opt
	n := 0
	find := func(name string) *opt {
		for i := len(above); i >= 0; i-- {
			list := cur.flags
			if i < len(above) {
				list = above[i]
			}
			for _, o := range list {
				for _, n := range o.names() {
					if n == name {
						return o
					}
				}
			}
		}
		return nil
	}
	for i := 0; i < len(args); i++ {
		a := args[i]
		if strings.HasPrefix(a, "-") {
			name, _, has := strings.Cut(a, "=")
			o := find(name)
			if o == nil {
				return nil, false
			}
			if o.boolean || has {
				continue
			}
			i++
			if i == len(args) {
				pending = o
			}
			continue
		}
		if len(cur.subs) > 0 {
			var next *node
			for _, s := range cur.subs {
				if s.name == a || slices.Contains(s.alias, a) {
					next = s
				}
			}
			if next == nil {
				return nil, true
			}
			above = append(above, cur.flags)
			cur = next
			continue
		}
		n++
	}
	if n > len(cur.args) || cur.name == "help" {
		return nil, false
	}
	add := func(values ...string) {
		for _, v := range values {
			if strings.HasPrefix(v, inc) {
				res = append(res, v)
			}
		}
	}
	if strings.HasPrefix(inc, "-") {
		name, _, _ := strings.Cut(inc, "=")
		for _, o := range cur.flags {
			if o.hidden {
				continue
			}
			given := false
			for _, n := range o.names() {
				given = given || n == name || len(n) == 2 && !o.boolean && strings.HasPrefix(inc, n)
			}
			if given && o.values != nil {
				for _, n := range o.names() {
					for _, v := range o.values {
						if len(n) == 2 {
							add(n + v)
						} else {
							add(n + "=" + v)
						}
					}
				}
				return res, true
			}
		}
		var found []*opt
		for _, o := range cur.flags {
			if o.hidden {
				continue
			}
			for i, n := range o.names() {
				if strings.HasPrefix(n, inc) {
					if i == 0 || len(found) == 0 || found[len(found)-1] != o {
						found = append(found, o)
					}
					add(n)
				}
			}
		}
		if len(found) == 1 {
			// the last name suffices
			n := res[len(res)-1]
			if !found[0].boolean && len(n) > 2 {
				n += "="
			}
			return []string{n}, true
		}
		return res, true
	}
	switch {
	case pending != nil:
		add(pending.values...)
	case len(cur.subs) > 0:
		for _, s := range cur.subs {
			if !s.hidden {
				add(s.name)
				add(s.alias...)
			}
		}
	case n < len(cur.args):
		add(cur.args[n]...)
	case len(cur.args) > 0:
		// all args have a value
		return nil, false
	}
	return res, true
}

var menu = []string{"sub", "mid", "--long", "-l=al", "-o", "--deep", "one", "--num=x", "plain", "se", "--nope", "leaf"}

// HComplete completes an arbitrary token after others.
func HComplete() {
	var args []string
	for i, n := 0, sym.Choose("n", sym.Bound(3, 4)); i < n; i++ {
		args = append(args, menu[sym.Choose("arg", len(menu))])
	}
	inc := sym.String("incomplete", sym.Bound(3, 4), "-slonead=")
	if sym.Choose("long", 2) == 1 {
		inc = "--lo" + inc
	}
	root := tree()
	app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard, Action: func() {}}
	c := root.command()
	app.Flags, app.Commands = c.Flags, c.Subcommands
	ctx, err := app.Initialize(context.Background())
	sym.Assert(err == nil, "an app failed to initialize")
	items := cli.FromContext(ctx).Complete(append([]string{"app"}, args...), inc)
	sym.Reach("completed")
	var got []string
	for _, it := range items {
		got = append(got, it.Value)
		sym.Assert(it.PreventSpaceAfter == strings.HasSuffix(it.Value, "="), "a space is to be added after =, or not after a token")
		sym.Assert(it.Type == cli.CompletionTypeToken, "a completion has the wrong type")
	}
	want, ok := suggest(args, inc)
	if !ok {
		return
	}
	sort.Strings(got)
	sort.Strings(want)
	sym.Observe("got", strings.Join(got, " "))
	sym.Assert(strings.Join(got, " ") == strings.Join(want, " "), "what is suggested is not what can be there")
}


// script reads what was written as the script for zsh does:
// the lines which are not empty are taken in fours.
func script(out string) (items [][4]string, ok bool) {
	var lines []string
	for _, l := range strings.Split(out, "\n") {
		if l != "" {
			lines = append(lines, l)
		}
	}
	if len(lines)%4 != 0 {
		return nil, false
	}
	for i := 0; i < len(lines); i += 4 {
		items = append(items, [4]string{lines[i], lines[i+1], lines[i+2], lines[i+3]})
	}
	return items, true
}

// HZsh runs an app with a request to complete by zsh.
func HZsh() {
	words := []string{"app"}
	for i, n := 0, sym.Choose("n", 3); i < n; i++ {
		words = append(words, menu[sym.Choose("arg", 4)])
	}
	inc := sym.String("incomplete", 2, "-slo")
	if inc != "" {
		words = append(words, inc)
	}
	at := sym.Choose("cword", 6) - 1
	help := sym.String("help", 2, "x \n\"_")
	required := sym.Bool("required")

	os.Setenv("_JOE_APP_COMPLETE", "zsh")
	os.Setenv("COMP_WORDS", strings.Join(words, " "))
	os.Setenv("COMP_CWORD", fmt.Sprint(at))
	defer os.Unsetenv("_JOE_APP_COMPLETE")

	ran := 0
	root := tree()
	mk := func(w io.Writer) *cli.App {
		app := &cli.App{Name: "app", Stdout: w, Stderr: io.Discard, Action: func() { ran++ }}
		c := root.command()
		app.Flags, app.Commands = c.Flags, c.Subcommands
		for _, f := range app.Flags {
			f.HelpText = help
			f.Action = func() { ran++ }
		}
		app.Flags[0].HelpText = help
		for _, s := range app.Commands {
			s.HelpText = help
			s.Action = func() { ran++ }
		}
		if required {
			app.Flags = append(app.Flags, &cli.Flag{Name: "must", Value: new(string), Options: cli.Required})
			app.Commands[0].Args[0].Options = cli.Required
		}
		return app
	}

	var out bytes.Buffer
	err := mk(&out).RunContext(context.Background(), []string{"app"})
	sym.Reach("ran")
	sym.Observe("out", out.String())
	var code cli.ExitCoder
	sym.Assert(errors.As(err, &code) && code.ExitCode() == 0, "a request to complete doesn't exit with success")
	sym.Assert(ran == 0, "an action ran to complete")

	ctx, err := mk(io.Discard).Initialize(context.Background())
	sym.Assert(err == nil, "an app failed to initialize")
	var args []string
	token := ""
	if at >= 0 && at <= len(words) {
		args = words[:at]
	}
	if at >= 0 && at < len(words) {
		token = words[at]
	}
	want := cli.FromContext(ctx).Complete(args, token)
	got, ok := script(out.String())
	sym.Assert(ok, "what is written isn't four lines for each item")
	sym.Assert(len(got) == len(want), "the items written differ in number")
	for i, w := range want {
		desc, _, space := got[i][2], got[i][0], got[i][3]
		sym.Assert(got[i][0] == "plain", "a token is written as another type")
		sym.Assert(got[i][1] == w.Value, "another value is written")
		sym.Assert((space == "1") == w.PreventSpaceAfter, "the space after isn't as requested")
		if flat := strings.Join(strings.Fields(w.HelpText), " "); flat == "" {
			sym.Assert(desc == "_", "an item without help isn't written as such")
		} else {
			sym.Assert(desc == flat, "another help text is written")
		}
	}
}

// HFormat writes arbitrary items
func HFormat() {
	var items []cli.CompletionItem
	for i, n := 0, sym.Choose("n", 3); i < n; i++ {
		items = append(items, cli.CompletionItem{
			Type:              cli.CompletionType(sym.Choose("type", 3)),
			Value:             sym.String("value", 1, "a_\"="),
			HelpText:          sym.String("help", 2, "x \n_"),
			PreventSpaceAfter: sym.Bool("nospace"),
		})
	}
	os.Setenv("_JOE_APP_COMPLETE", "zsh")
	os.Setenv("COMP_WORDS", "app ")
	os.Setenv("COMP_CWORD", "1")
	defer os.Unsetenv("_JOE_APP_COMPLETE")
	var out bytes.Buffer
	app := &cli.App{
		Name: "app", Stdout: &out, Stderr: io.Discard,
		Uses: cli.SetCompletion(cli.CompletionFunc(func(*cli.Context) []cli.CompletionItem { return items })),
	}
	err := app.RunContext(context.Background(), []string{"app"})
	sym.Reach("ran")
	sym.Observe("out", out.String())
	var code cli.ExitCoder
	sym.Assert(errors.As(err, &code) && code.ExitCode() == 0, "a request to complete doesn't exit with success")
	got, ok := script(out.String())
	sym.Assert(ok, "what is written isn't four lines for each item")
	sym.Assert(len(got) == len(items), "the items written differ in number")
	for i, w := range items {
		sym.Assert(got[i][0] == [3]string{"plain", "file", "dir"}[w.Type], "a token is written as another type")
		if w.Value != "" {
			sym.Assert(got[i][1] == w.Value, "another value is written")
		}
		sym.Assert((got[i][3] == "1") == w.PreventSpaceAfter, "the space after isn't as requested")
		if flat := strings.Join(strings.Fields(w.HelpText), " "); flat == "" {
			sym.Assert(got[i][2] == "_", "an item without help isn't written as such")
		} else {
			sym.Assert(got[i][2] == flat, "another help text is written")
		}
	}
}
