package help

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

// HUsageText shows the usage text that a command has.
func HUsageText() {
	text := ""
	if sym.Bool("text") {
		text = sym.StringN("usage", sym.Bound(2, 3), "a<-")
	}
	var uses cli.Action
	field := text
	switch sym.Choose("way", 3) {
	case 1:
		uses, field = cli.UsageText(text), ""
	case 2:
		uses, field = cli.Prototype{UsageText: text}, ""
	}
	onApp := sym.Bool("app")
	sub := &cli.Command{
		Name:  "sub",
		Flags: []*cli.Flag{{Name: "x", Value: new(bool)}, {Name: "long", Value: new(string), Options: cli.Required}},
		Args:  []*cli.Arg{{Name: "a", NArg: 1}, {Name: "b", NArg: -1}},
	}
	var out bytes.Buffer
	app := &cli.App{Name: "app", Commands: []*cli.Command{sub}, Stdout: io.Discard, Stderr: &out}
	app.Flags = []*cli.Flag{{Name: "y", Value: new(bool)}}
	wantApp := "app {--help | --version} [-y] <command> [<args>]..."
	wantSub := "sub [-x] --long=STRING <a> <b>..."
	if onApp {
		app.UsageText, app.Uses = field, uses
	} else {
		sub.UsageText, sub.Uses = field, uses
	}
	if text != "" {
		if onApp {
			wantApp = text
		} else {
			wantSub = text
		}
	}
	args := [][]string{{"app", "--help"}, {"app", "help"}, {"app", "help", "sub"}, {"app", "sub", "--help"}}[sym.Choose("help", 4)]
	want := "usage: " + wantApp
	if len(args) == 3 {
		want = "usage: app " + wantSub
	}
	var root *cli.Command
	app.Before = func(c *cli.Context) { root = c.Command() }
	err := app.RunContext(context.Background(), args)
	sym.Observe("err", fmt.Sprint(err))
	sym.Observe("out", out.String())
	first, _, _ := strings.Cut(out.String(), "\n")
	sym.Assert(first == want, "the usage of a command is not its usage text, or the flags and args it has")
	sym.Assert(root != nil && root.Synopsis() == wantApp, "the synopsis of an app is not what its help shows")
	sym.Assert(sub.Synopsis() == wantSub, "the synopsis of a command is not what its help shows")
	sym.Assert(sub.Args[0].Synopsis() == "<a>" && sub.Args[1].Synopsis() == "<b>...", "the synopsis of an arg is not what its command shows")
	sym.Assert(sub.Flags[0].Synopsis() == "-x" && sub.Flags[1].Synopsis() == "--long=STRING", "the synopsis of a flag is not what its command shows")
	sym.Reach("usage")
}
