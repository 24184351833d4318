package help

import (
	"fmt"
	"text/template"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

type late struct{ text *string }

func (l late) String() string { return *l.text }

// described makes a description of some kind, whose text may be set only later
func described(text string) (d any, set func()) {
	nothing := func() {}
	t := &cli.Template{Template: template.Must(template.New("d").Parse("{{ .A }} of {{ .B }}"))}
	type data struct{ A, B string }
	switch sym.Choose("kind", 4) {
	case 1:
		s := new(string)
		return late{s}, func() { *s = text + " of it" }
	case 2:
		return t.Bind(data{text, "it"}), nothing
	case 3:
		s := new(string)
		return t.BindFunc(func() any { return data{*s, "it"} }), func() { *s = text }
	}
	return text + " of it", nothing
}

// HDescriptions shows the help screen of a command whose elements have descriptions.
func HDescriptions() {
	text := sym.StringN("text", 2, "xy")
	cmd, setCmd := described(text)
	el, setEl := described("el" + text)
	hasCmd, hasHelp := sym.Bool("described"), sym.Bool("has help")
	uses := sym.Bool("uses")
	where := sym.Choose("on", 4)
	hidden := sym.Bool("hidden")

	fl := &flagSpec{names: []string{"f"}, kind: boolean, help: "plain"}
	second := &flagSpec{names: []string{"g"}, kind: boolean, help: "plain"}
	f, g := fl.flag(), second.flag()
	a := &cli.Arg{Name: "a", Value: new(string)}
	f.Description, a.Description = nil, nil
	sub := &cli.Command{Name: "sub", Args: []*cli.Arg{a}}
	app := &cli.App{Name: "app", Commands: []*cli.Command{sub}}
	if hasCmd {
		if uses {
			sub.Uses = cli.Description(cmd)
		} else {
			sub.Description = cmd
		}
	}
	if hasHelp {
		sub.HelpText = "helps"
	}
	var opts cli.Option
	if hidden {
		opts = cli.Hidden
	}
	// the flag or arg has the description; an element which is hidden or of a command above isn't described
	shown := !hidden
	lines := []*flagSpec{fl}
	var above []*flagSpec
	argument := " [<a>]"
	switch where {
	case 0, 3:
		if uses {
			f.Uses = cli.Description(el)
		} else {
			f.Description = el
		}
		f.Options |= opts
		fl.hidden = hidden
		if where == 3 {
			shown = false
		}
	case 1:
		if uses {
			a.Uses = cli.Description(el)
		} else {
			a.Description = el
		}
		a.Options |= opts
		if hidden {
			argument = ""
		}
	case 2:
		g.Description, f.Description = el, "first"
		g.Options |= opts
		second.hidden = hidden
	}
	if where == 3 {
		app.Flags = []*cli.Flag{f}
		lines = nil
		if !hidden {
			above = append(above, fl)
		}
	} else {
		sub.Flags = []*cli.Flag{f}
	}
	if where == 2 {
		sub.Flags = append(sub.Flags, g)
		lines = append(lines, second)
	}

	want := []string{usageOf("app sub", lines, argument)}
	switch {
	case hasCmd:
		want = append(want, text+" of it")
	case hasHelp:
		want = append(want, "helps")
	}
	want = append(want, listing(lines)...)
	want = append(want, global(above)...)
	if where == 2 {
		want = append(want, "first")
	}
	if shown {
		want = append(want, "el"+text+" of it")
	}
	setCmd()
	setEl()
	_ = fmt.Sprint
	check(app, []string{"app", "help", "sub"}, want)
}
