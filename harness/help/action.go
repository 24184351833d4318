package help

import (
	"bytes"
	"context"
	"io"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

// HPrints runs the flags and commands that print the version and the license
func HPrints() {
	version := sym.StringN("version", sym.Bound(2, 3), "a<.")
	license := sym.StringN("license", sym.Bound(2, 3), "a<&")
	print, name, want := cli.PrintVersion(), "version", "app, version "+version+"\n"
	isLicense := sym.Bool("license?")
	if isLicense {
		print, name, want = cli.PrintLicense(), "license", license+"\n\n"
	}
	var out, stderr bytes.Buffer
	ran := ""
	note := func(s string) func(*cli.Context) {
		return func(*cli.Context) { ran += s }
	}
	app := &cli.App{
		Name: "app", Version: version, License: license, Stdout: &out, Stderr: &stderr,
		Action:   note("app "),
		Commands: []*cli.Command{{Name: "sub", Action: note("sub ")}},
	}
	template := sym.Choose("template", 5)
	uses := cli.Pipeline()
	tplName := strings.ToUpper(name[:1]) + name[1:]
	switch template {
	case 1: // its own template
		uses = cli.Pipeline(cli.RegisterTemplate(tplName, "{{ .App.Name }}: {{ .App.Version }} {{ .App.License }}."))
		want = "app: " + version + " " + license + "."
	case 2: // and its own function
		uses = cli.Pipeline(
			cli.RegisterTemplateFunc("Bracket", func(s string) string { return "[" + s + "]" }),
			cli.RegisterTemplate(tplName, "{{ .App.Version | Bracket }}"))
		want = "[" + version + "]"
	case 3: // a nested template
		uses = cli.Pipeline(
			cli.RegisterTemplate("", `{{ define "`+tplName+`" }}{{ template "Inner" .App }}{{ end }}{{ define "Inner" }}({{ .Version }}{{ end }}`))
		want = "(" + version
	case 4: // registered twice, the later applies
		uses = cli.Pipeline(
			cli.RegisterTemplate(tplName, "x"),
			cli.RegisterTemplate(tplName, "{{ .Command.Name }}"))
	}
	at := "app"
	var args []string
	switch sym.Choose("way", 5) {
	case 0: // a flag of its own
		name = "own"
		app.Flags = append(app.Flags, &cli.Flag{Name: "own", Uses: print})
		args = []string{"app", "--own"}
	case 1: // the flag which it describes
		app.Flags = append(app.Flags, &cli.Flag{Uses: print})
		args = []string{"app", "--" + name}
		sym.Assume(isLicense)
	case 2: // a flag of a command
		app.Commands[0].Flags = append(app.Commands[0].Flags, &cli.Flag{Uses: print})
		args = []string{"app", "sub", "--" + name}
		at = "sub"
	case 3: // a command
		app.Commands = append(app.Commands, &cli.Command{Name: "own", Uses: print})
		args = []string{"app", "own"}
		at = "own"
	case 4: // the action of an app
		args = []string{"app"}
		app.Action = print
	}
	if template == 4 {
		want = at
	}
	app.Uses = uses
	exits := len(args) > 1
	err := app.RunContext(context.Background(), args)
	sym.Observe("out", out.String())
	sym.Observe("err", stderr.String())
	sym.Observe("ran", ran)
	sym.Assert(out.String() == want, "what is printed isn't what the template says")
	sym.Assert(stderr.Len() == 0, "something is written to the standard error")
	sym.Assert(ran == "", "an action ran besides the one that prints")
	if exits {
		e, ok := err.(cli.ExitCoder)
		sym.Assert(ok && e.ExitCode() == 0, "the flag that prints doesn't exit with success")
	} else {
		sym.Assert(err == nil, "printing fails")
	}
}

// HHelpOf displays the help screen of a command named by the action
func HHelpOf() {
	var out bytes.Buffer
	paths := [][]string{nil, {"app"}, {"app", "sub"}, {"app", "sub", "leaf"}, {"app", "no"}, {"app", "sub", "no"}, {"app", "also"}}
	path := paths[sym.Choose("path", len(paths))]
	help := cli.DisplayHelpScreen(append([]string(nil), path...)...)
	app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: &out, HelpText: "Help of app",
		Commands: []*cli.Command{
			{Name: "sub", Aliases: []string{"also"}, HelpText: "Help of sub", Subcommands: []*cli.Command{
				{Name: "leaf", HelpText: "Help of leaf"},
			}},
			{Name: "other", HelpText: "Help of other"},
		},
	}
	var args []string
	self := "app"
	switch sym.Choose("way", 4) {
	case 0:
		app.Action = help
		args = []string{"app"}
	case 1:
		app.Commands[1].Action = help
		args = []string{"app", "other"}
		self = "app other"
	case 2:
		app.Flags = []*cli.Flag{{Name: "f", Uses: help}}
		args = []string{"app", "-f"}
	case 3:
		app.Commands[0].Flags = []*cli.Flag{{Name: "f", Uses: help}}
		args = []string{"app", "sub", "-f"}
		self = "app sub"
	}
	want := self
	if path != nil {
		want = strings.Join(path, " ")
	}
	want = strings.Replace(want, "also", "sub", 1)
	missing := strings.HasSuffix(want, "no")
	err := app.RunContext(context.Background(), args)
	sym.Observe("out", out.String())
	if missing {
		sym.Assert(err != nil, "help of a command that doesn't exist")
		pe, ok := err.(*cli.ParseError)
		sym.Assert(ok && pe.Code == cli.CommandNotFound && pe.Name == "no", "the error doesn't name the command")
		sym.Assert(out.Len() == 0, "a help screen in spite of the error")
		return
	}
	if args[len(args)-1] == "-f" {
		e, ok := err.(cli.ExitCoder)
		sym.Assert(ok && e.ExitCode() == 0, "the help flag doesn't exit with success")
	} else {
		sym.Assert(err == nil, "displaying help fails")
	}
	first, _, _ := strings.Cut(out.String(), "\n")
	sym.Assert(strings.HasPrefix(first+" ", "usage: "+want+" "), "the help screen is of another command")
	last := want[strings.LastIndexByte(want, ' ')+1:]
	sym.Assert(strings.Contains(out.String(), "\nHelp of "+last+"\n"), "the help screen has another help text")
}
