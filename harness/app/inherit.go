package app

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

// levelFlag is the flag of one level
type levelFlag struct {
	none         bool
	name, alias  string
	local        bool // non-persistent
	value        string
	count        int
	given        [3][]string // raw occurrences at each level
	names        []string
	flag         *cli.Flag
	defaultValue string
}

func (f *levelFlag) is(n string) bool {
	return !f.none && (f.name == n || (f.alias != "" && f.alias == n))
}

func flagToken(n string) string {
	if len(n) == 1 {
		return "-" + n
	}
	return "--" + n
}

// HInherit sets and looks up flags with arbitrary names and aliases at three levels.
func HInherit() {
	var fs [3]*levelFlag
	depth := 1 + sym.Choose("depth", 2)
	for l := range fs {
		f := &levelFlag{}
		fs[l] = f
		if l > depth {
			f.none = true
			continue
		}
		switch l {
		case 0, 1:
			f.local = sym.Bool("local")
		}
		f.name = "a"
		if l > 0 || sym.Bound(0, 1) > 0 {
			// one name is as good as another
			f.name = []string{"a", "b", "cc"}[sym.Choose("name", sym.Bound(2, 3))]
		}
		f.alias = []string{"", "a", "b", "cc"}[sym.Choose("alias", 4)]
		sym.Assume(f.alias != f.name)
		f.value = "d" + fmt.Sprint(l)
		f.flag = &cli.Flag{Name: f.name, Value: &f.value, Options: map[bool]cli.Option{true: cli.NonPersistent}[f.local]}
		if f.alias != "" {
			f.flag.Aliases = []string{f.alias}
		}
		f.defaultValue = f.value
	}
	// visible gets whether the flag of a level can be used at another
	visible := func(l, at int) bool {
		if fs[l].none || (fs[l].local && l != at) {
			return false
		}
		for k := l + 1; k <= at; k++ {
			if !fs[k].none && fs[k].name == fs[l].name && (k == at || !fs[k].local) {
				return false
			}
		}
		return true
	}
	resolve := func(n string, at int) int {
		for l := at; l >= 0; l-- {
			if visible(l, at) && fs[l].is(n) {
				return l
			}
		}
		return -1
	}

	argv := []string{"app"}
	bad := ""
	var want [3]string
	for l := range fs {
		want[l] = fs[l].value
	}
	for l := 0; l <= depth; l++ {
		if l > 0 {
			argv = append(argv, []string{"", "sub", "leaf"}[l])
		}
		k := sym.Choose("set", 4)
		if k == 3 {
			continue
		}
		n := []string{"a", "b", "cc"}[k]
		v := fmt.Sprint("v", l)
		argv = append(argv, flagToken(n), v)
		r := resolve(n, l)
		if r < 0 {
			bad = flagToken(n)
			break
		}
		want[r] = v
		fs[r].count++
		fs[r].given[l] = []string{flagToken(n), v}
	}

	ran := false
	act := func(c *cli.Context) {
		ran = true
		for _, n := range []string{"a", "b", "cc"} {
			// the nearest command which defines the name; other cases are left open
			def, clear := -1, true
			for l := depth; l >= 0; l-- {
				if fs[l].is(n) {
					if def < 0 {
						def = l
						if !visible(l, depth) {
							// only what no other flag with the name could be meant by
							clear = fs[l].local
							for k := 0; k < 3; k++ {
								clear = clear && (k == l || fs[k].none || (!fs[k].is(n) && fs[k].name != fs[l].name))
							}
						}
					}
				}
			}
			if def < 0 {
				f, ok := c.LookupFlag(n)
				sym.Assert(!ok && f == nil && !c.Seen(n) && c.Value(n) == nil, "a flag is found by a name that none has")
				continue
			}
			if !clear {
				continue
			}
			d := fs[def]
			f, _ := c.LookupFlag(n)
			sym.Assert(f == d.flag, "looking up a flag does not find the one of the nearest command")
			sym.Assert(c.String(n) == want[def], "the value of a flag is not that of the one of the nearest command")
			sym.Assert(c.String(flagToken(n)) == want[def], "the value of a flag with dashes is not that of the one of the nearest command")
			sym.Assert(c.Seen(n) == (d.count > 0), "a flag is seen though not given, or not though given")
			sym.Assert(c.Occurrences(n) == d.count, "the occurrences of a flag are not as often as it was given")
			if len(n) == 1 {
				sym.Assert(c.String(rune(n[0])) == want[def], "the value of a flag by rune is not that of the one of the nearest command")
			}
			var raw []string
			for l := depth; l >= def && raw == nil; l-- {
				raw = d.given[l]
			}
			sym.Assert(strings.Join(c.Raw(n), " ") == strings.Join(raw, " "), "the raw occurrences of a flag are not those at the nearest command")
			if raw != nil {
				raw = raw[1:]
			}
			sym.Assert(strings.Join(c.RawOccurrences(n), " ") == strings.Join(raw, " "), "the raw occurrences of a flag are not those at the nearest command")
		}
	}
	cmds := make([]*cli.Command, 3)
	for l := 2; l > 0; l-- {
		if l > depth {
			continue
		}
		cmds[l] = &cli.Command{Name: []string{"", "sub", "leaf"}[l], Flags: []*cli.Flag{fs[l].flag}, Action: act}
		if l < depth {
			cmds[l].Subcommands = []*cli.Command{cmds[l+1]}
			cmds[l].Action = nil
		}
	}
	app := &cli.App{
		Name: "app", Stderr: io.Discard, Stdout: io.Discard,
		Flags:    []*cli.Flag{fs[0].flag},
		Commands: []*cli.Command{cmds[1]},
	}
	err := app.RunContext(context.Background(), argv)
	sym.Observe("err", fmt.Sprint(argv, " ", err))
	if bad != "" {
		var pe *cli.ParseError
		sym.Assert(errors.As(err, &pe) && pe.Code == cli.UnknownOption && !ran, "a flag that a command does not have is accepted")
		sym.Assert(pe == nil || pe.Name == bad, "the error for a flag that a command does not have does not name it")
		return
	}
	sym.Assert(err == nil && ran, "a flag that a command has is refused")
	for l := 0; l <= depth; l++ {
		sym.Observe("value", fs[l].value)
		sym.Assert(fs[l].value == want[l], "a flag does not have the value given to it, wherever it was given")
	}
}
