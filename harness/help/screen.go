package help

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"sort"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

// squeeze gets the lines of a text that are not empty, with runs of blanks as
// one blank. The lines of the usage, which can be wrapped, are joined.
func squeeze(text string) []string {
	var res []string
	usage := false
	for _, l := range strings.Split(text, "\n") {
		words := strings.Fields(l)
		switch {
		case len(words) == 0:
			usage = false
			continue
		case usage:
			res[len(res)-1] += " " + strings.Join(words, " ")
			continue
		case words[0] == "usage:":
			usage = true
		}
		res = append(res, strings.Join(words, " "))
	}
	return res
}

// check compares the help screen to the lines that are expected
func check(app *cli.App, args []string, want []string) {
	var out bytes.Buffer
	app.Stdout, app.Stderr = io.Discard, &out
	err := app.RunContext(context.Background(), args)
	sym.Observe("err", fmt.Sprint(err))
	sym.Observe("out", out.String())
	got := squeeze(out.String())
	for i := range want {
		want[i] = strings.Join(strings.Fields(want[i]), " ")
		sym.Assert(i < len(got), "a line is missing from the help screen")
		sym.Assert(got[i] == want[i], "a line of the help screen is wrong")
	}
	sym.Assert(len(got) == len(want), "the help screen has a line too many")
}

const (
	boolean = iota
	text
	number
	list
	mapping
)

// flagSpec describes a flag
type flagSpec struct {
	names              []string
	kind               int
	help, usage, cat   string
	hidden, req, exits bool
	no                 bool
}

func (s *flagSpec) flag() *cli.Flag {
	var opts cli.Option
	for o, b := range map[cli.Option]bool{cli.Hidden: s.hidden, cli.Required: s.req, cli.Exits: s.exits, cli.No: s.no} {
		if b {
			opts |= o
		}
	}
	f := &cli.Flag{Name: s.names[0], Aliases: s.names[1:], HelpText: s.help, UsageText: s.usage, Category: s.cat, Options: opts}
	switch s.kind {
	case boolean:
		f.Value = new(bool)
	case number:
		f.Value = new(int)
	case list:
		f.Value = new([]string)
	case mapping:
		f.Value = new(map[string]string)
	}
	return f
}

// texts that describe flags: without placeholders, and the placeholders in the
// order of their positions
var helps = []struct{ raw, text, placeholders string }{
	{"", "", ""},
	{"plain", "plain", ""},
	{"set {X}s", "set Xs", "X"},
	{"{2:X} to {1:Y} or {X}", "X to Y or X", "Y X"},
}

func (s *flagSpec) names2() (short, long string) {
	for _, n := range s.names {
		switch {
		case len(n) == 1 && short == "":
			short = "-" + n
		case len(n) > 1 && long == "":
			long = "--" + n
		}
	}
	if s.no {
		if long == "" {
			long = "-" + short
		}
		long = "--[no-]" + long[2:]
	}
	return
}

func (s *flagSpec) value(first string) string {
	res := s.usage
	if res == "" {
		for _, h := range helps {
			if h.raw == s.help {
				res = h.placeholders
			}
		}
	}
	if res == "" {
		res = []string{"", "STRING", "NUMBER", "VALUES", "NAME=VALUE"}[s.kind]
	}
	if res == "" {
		return ""
	}
	if _, long := s.names2(); long == "" {
		return " " + res
	}
	return "=" + res
}

func (s *flagSpec) line() string {
	short, long := s.names2()
	res := short
	if long != "" {
		if short != "" {
			res += ", "
		}
		res += long
	}
	res += s.value(res) + " "
	for _, h := range helps {
		if h.raw == s.help {
			return res + h.text
		}
	}
	return res + s.help
}

// usageOf gets the usage of a command
func usageOf(name string, flags []*flagSpec, args string) string {
	var (
		exits, req, opt []string
		oreq, oopt      []string
	)
	for _, f := range flags {
		short, long := f.names2()
		one := long
		if one == "" {
			one = short
		}
		one += f.value(one)
		switch {
		case f.hidden:
		case f.exits:
			exits = append(exits, one)
		case f.kind == boolean && len(f.names[0]) == 1 && f.req:
			req = append(req, short[1:])
		case f.kind == boolean && len(f.names[0]) == 1:
			opt = append(opt, short[1:])
		case f.req:
			oreq = append(oreq, " "+one)
		default:
			oopt = append(oopt, " ["+one+"]")
		}
	}
	res := name
	if len(exits) > 0 {
		res += " {" + strings.Join(exits, " | ") + "}"
	}
	if len(req) > 0 {
		sort.Strings(req)
		res += " -" + strings.Join(req, "")
	}
	if len(opt) > 0 {
		sort.Strings(opt)
		res += " [-" + strings.Join(opt, "") + "]"
	}
	return "usage: " + res + strings.Join(oopt, "") + strings.Join(oreq, "") + args
}

// listing gets the lines which list flags
func listing(flags []*flagSpec) []string {
	var cats []string
	by := map[string][]*flagSpec{}
	for _, f := range flags {
		if by[f.cat] == nil {
			cats = append(cats, f.cat)
		}
		by[f.cat] = append(by[f.cat], f)
	}
	sort.Strings(cats)
	var res []string
	for _, cat := range cats {
		var names, lines []string
		documented := len(cats) == 1 && cat == ""
		for _, f := range by[cat] {
			documented = documented || f.help != ""
			if f.hidden {
				continue
			}
			dash := "--"
			if len(f.names[0]) == 1 {
				dash = "-"
			}
			names = append(names, dash+f.names[0])
			lines = append(lines, f.line())
		}
		if len(names) == 0 {
			continue
		}
		if cat != "" {
			res = append(res, cat+":")
		}
		if documented {
			res = append(res, lines...)
		} else {
			res = append(res, strings.Join(names, ", "))
		}
	}
	return res
}

var builtins = []*flagSpec{
	{names: []string{"help", "h"}, kind: boolean, exits: true, help: "Display this help screen then exit"},
	{names: []string{"version"}, kind: boolean, exits: true, help: "Print the build version then exit"},
}

// global gets the lines which list the flags of the commands above
func global(flags []*flagSpec) []string {
	return append([]string{"Global options (specify before any sub-commands)"}, listing(append(flags, builtins...))...)
}

// HFlag shows the help screen of a command with a flag of any kind.
func HFlag() {
	s := &flagSpec{names: []string{"a"}}
	if sym.Choose("long", 2) == 1 {
		s.names[0] = "alpha"
	}
	switch sym.Choose("alias", 4) {
	case 1:
		s.names = append(s.names, "b")
	case 2:
		s.names = append(s.names, "beta")
	case 3:
		s.names = append(s.names, "beta", "b")
	}
	s.kind = sym.Choose("kind", 5)
	if s.kind == boolean {
		s.help = helps[sym.Choose("help", 2)].raw
		s.no = sym.Bool("no")
	} else {
		s.help = helps[sym.Choose("help", len(helps))].raw
		s.usage = []string{"", "USG"}[sym.Choose("usage", 2)]
	}
	s.hidden, s.req, s.exits = sym.Bool("hidden"), sym.Bool("required"), sym.Bool("exits")
	app := &cli.App{Name: "app", Commands: []*cli.Command{{Name: "sub", Flags: []*cli.Flag{s.flag()}}}}
	flags := []*flagSpec{s}
	want := append([]string{usageOf("app sub", flags, "")}, listing(flags)...)
	check(app, []string{"app", "help", "sub"}, append(want, global(nil)...))
}

// HFlags shows the help screen of a command with several flags.
func HFlags() {
	var flags []*flagSpec
	for i, n := range []string{"b", "alpha", "c"} {
		s := &flagSpec{names: []string{n}, kind: []int{boolean, text, boolean}[i]}
		s.cat = []string{"", "L", "K"}[sym.Choose("category", 3)]
		if sym.Bool("has help") {
			s.help = "plain"
		}
		s.hidden = sym.Bool("hidden")
		flags = append(flags, s)
	}
	sub := &cli.Command{Name: "sub"}
	for _, s := range flags {
		sub.Flags = append(sub.Flags, s.flag())
	}
	how := sym.Choose("how", 3)
	if how > 0 {
		sub.Options = cli.SortedFlags
		flags[0], flags[1] = flags[1], flags[0]
	}
	app := &cli.App{Name: "app", Commands: []*cli.Command{sub}}
	args := []string{"app", "help", "sub"}
	if how > 1 {
		args = []string{"app", "sub", "--help"}
	}
	want := append([]string{usageOf("app sub", flags, "")}, listing(flags)...)
	check(app, args, append(want, global(nil)...))
}

// HPlaceholders shows a flag with an arbitrary help text.
func HPlaceholders() {
	text := sym.String("text", sym.Bound(6, 7), "{}A1:")
	f := &cli.Flag{Name: "f", HelpText: text}
	sub := &cli.Command{Name: "sub", Flags: []*cli.Flag{f}}
	app := &cli.App{Name: "app", Commands: []*cli.Command{sub}}
	// what is between braces, at least a byte, is a placeholder: its name, after
	// its position if there is one
	type placeholder struct {
		pos  int
		name string
	}
	var (
		found []placeholder
		rest  = text
		plain string
	)
	for rest != "" {
		end := -1
		if rest[0] == '{' && len(rest) > 2 {
			end = strings.IndexByte(rest[2:], '}')
		}
		if end < 0 {
			plain += rest[:1]
			rest = rest[1:]
			continue
		}
		p := placeholder{pos: -1, name: rest[1 : end+2]}
		rest = rest[end+3:]
		if pos, name, ok := strings.Cut(p.name, ":"); ok {
			p.pos, p.name = 0, name
			if pos == "1" {
				p.pos = 1
			} else if pos == "11" {
				p.pos = 11
			} else if pos == "111" {
				p.pos = 111
			}
		}
		plain += p.name
		dup := false
		for _, o := range found {
			dup = dup || o.name == p.name
		}
		if !dup {
			found = append(found, p)
		}
	}
	sort.SliceStable(found, func(i, j int) bool { return found[i].pos < found[j].pos })
	value := ""
	for i, p := range found {
		if i > 0 {
			value += " "
		}
		value += p.name
	}
	if value == "" {
		value = "STRING"
	}
	sym.Assert(f.Synopsis() == "-f "+value, "the synopsis of a flag is wrong")
	check(app, []string{"app", "help", "sub"}, append([]string{"usage: app sub [-f " + value + "]", "-f " + value + " " + plain}, global(nil)...))
}
