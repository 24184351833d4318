package proto

import (
	"context"
	"fmt"
	"io"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

// some makes a list with room for more
func some(ok bool, s string) []string {
	if !ok {
		return nil
	}
	return append(make([]string, 0, 4), s)
}

// HShared uses one prototype in two elements, which have others of their own.
func HShared() {
	kind := sym.Choose("kind", 3)
	alias, env, data := sym.Bool("alias"), sym.Bool("env"), sym.Bool("data")
	shared := cli.Prototype{HelpText: "help", Aliases: some(alias, "s"), EnvVars: some(env, "S")}
	if data {
		shared.Data = map[string]any{"s": "s"}
	}
	app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard}
	type lists struct {
		aliases, envs *[]string
		data          *map[string]any
		want          string
		wantData      []string
	}
	var all []lists
	names := []string{"x", "y"}
	for i := range names {
		n := names[i]
		first, second := sym.Bool("own"), sym.Bool("second")
		own := some(first, n+"o")
		other := cli.Prototype{HelpText: "other"}
		if second {
			other.Aliases, other.EnvVars, other.Data = some(true, n+"p"), some(true, n+"p"), map[string]any{n: n}
		}
		uses := cli.Pipeline(shared, other)
		if sym.Bool("pointer") {
			uses = cli.Pipeline(&shared, &other)
		}
		var l lists
		switch kind {
		case flag:
			f := &cli.Flag{Name: n, EnvVars: own, Uses: uses}
			app.Flags = append(app.Flags, f)
			l = lists{aliases: &f.Aliases, envs: &f.EnvVars, data: &f.Data}
		case arg:
			a := &cli.Arg{Name: n, EnvVars: own, Uses: uses}
			app.Args = append(app.Args, a)
			l = lists{envs: &a.EnvVars, data: &a.Data}
		case command:
			c := &cli.Command{Name: n, Aliases: own, Uses: uses}
			app.Commands = append(app.Commands, c)
			l = lists{aliases: &c.Aliases, data: &c.Data}
		}
		if kind != arg {
			if kind == command && first {
				l.want += n + "o "
			}
			if alias {
				l.want += "s "
			}
			if second {
				l.want += n + "p "
			}
		}
		l.want += "| "
		if kind != command {
			if first {
				l.want += n + "o "
			}
			if env {
				l.want += "S "
			}
			if second {
				l.want += n + "p "
			}
		}
		if data {
			l.wantData = append(l.wantData, "s")
		}
		if second {
			l.wantData = append(l.wantData, n)
		}
		all = append(all, l)
	}
	_, err := app.Initialize(context.Background())
	sym.Assert(err == nil, "elements that share a prototype cannot be initialized")
	for _, l := range all {
		var got []string
		if l.aliases != nil {
			got = append(got, *l.aliases...)
		}
		got = append(got, "|")
		if l.envs != nil {
			got = append(got, *l.envs...)
		}
		sym.Observe("lists", fmt.Sprint(got))
		sym.Assert(strings.Join(got, " ")+" " == l.want, "a prototype that is shared mixes the lists of the elements")
		n := 0
		for _, k := range []string{"s", "x", "y"} {
			if _, ok := (*l.data)[k]; ok {
				n++
			}
		}
		sym.Assert(n == len(l.wantData), "a prototype that is shared mixes the data of the elements")
		for _, k := range l.wantData {
			sym.Assert((*l.data)[k] == k, "data of a prototype is missing")
		}
	}
	sym.Assert(len(shared.Data) < 2 && len(shared.Aliases) < 2 && len(shared.EnvVars) < 2, "a prototype was changed by its use")
}
