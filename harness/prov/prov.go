// Package prov checks providers.
package prov

import (
	"bytes"
	"context"
	"errors"
	"io"
	"maps"
	"slices"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/provider"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

func show(m map[string]string) string {
	var s []string
	for _, k := range slices.Sorted(maps.Keys(m)) {
		s = append(s, k+"="+m[k])
	}
	return strings.Join(s, ";")
}

var errMake = errors.New("cannot make it")

// the providers of a registry: a has a factory and defaults, b is a value, c has
// only a name and d's factory fails
func registry(allow bool) (*provider.Registry, *map[string]string) {
	var got map[string]string
	return &provider.Registry{
		Name: "p", AllowUnknown: allow,
		Providers: provider.Details{
			"a": {
				Defaults: map[string]string{"x": "1", "y": "2"}, HelpText: "help",
				Factory: func(m map[string]string) (any, error) { got = m; return "made", nil },
			},
			"b": {Value: 42},
			"c": {Defaults: map[string]string{"x": ""}},
			"d": {Factory: func(map[string]string) (any, error) { return nil, errMake }},
		},
	}, &got
}

type pair struct{ k, v string }

func (p pair) text() string { return p.k + "=" + strings.ReplaceAll(p.v, ",", "\\,") }

func choosePair(i int) pair {
	if i > 0 {
		return pair{[]string{"x", "z"}[sym.Choose("key", 2)], "w"}
	}
	return pair{[]string{"x", "y", "z"}[sym.Choose("key", 3)], sym.StringN("value", sym.Choose("len", sym.Bound(2, 3)), "v,=")}
}

// HApp names a provider and sets its arguments by flags.
func HApp() {
	where := sym.Choose("registry", 3)
	allow := sym.Bool("allow")
	sym.Assume(where < 2 || !allow)
	def := sym.Bool("default")
	argFlag := sym.Choose("argFlag", 2)
	name := ""
	v := new(provider.Value)
	if def {
		v.Name, name = "a", "a"
	}
	args := []string{"app"}
	var sets, later []pair
	named := false
	for i := sym.Choose("tokens", sym.Bound(3, 4)); i > 0; i-- {
		kind := sym.Choose("token", 3)
		switch kind {
		case 0, 1:
			var t []string
			if !named {
				named = true
				name = []string{"a", "b", "c", "d", "u", ""}[sym.Choose("name", 6)]
				t = append(t, name)
				if kind == 1 {
					p := choosePair(len(sets) + len(later))
					sets, t = append(sets, p), append(t, p.text())
				}
			} else {
				p := choosePair(len(sets) + len(later))
				sets, t = append(sets, p), append(t, p.text())
				if kind == 1 {
					p := pair{"x", "w"}
					sets, t = append(sets, p), append(t, p.text())
				}
			}
			args = append(args, "--p="+strings.Join(t, ","))
		case 2:
			p := choosePair(len(sets) + len(later))
			later = append(later, p)
			args = append(args, "--p-arg="+p.text())
		}
	}
	all := append(append([]pair{}, sets...), later...)
	want := map[string]string{}
	for _, p := range all {
		want[p.k] = p.v
	}

	r, opts := registry(allow)
	ran := false
	var made any
	var makeErr error
	f := &cli.Flag{Name: "p", Value: v}
	app := &cli.App{
		Name: "app", Stdout: io.Discard, Stderr: io.Discard, Flags: []*cli.Flag{f},
		Action: func(c *cli.Context) {
			ran = true
			x := c.Value("p").(*provider.Value)
			sym.Assert(x.Name == name, "a provider flag doesn't have the name given")
			got := map[string]string{}
			if x.Args != nil {
				got = *x.Args.(*map[string]string)
			}
			sym.Observe("got", show(got))
			sym.Assert(show(got) == show(want), "a provider flag doesn't have exactly the arguments given")
			s := name
			if len(want) > 0 {
				s += "," + strings.ReplaceAll(show(want), ";", ",")
			}
			sym.Assert(x.String() == s, "the text of a provider isn't its name and arguments")
			if reg := provider.Services(c).Registry("p"); where < 2 {
				sym.Assert(reg == r, "a registry isn't available to the action")
				made, makeErr = reg.New(x.Name, got)
			} else {
				sym.Assert(reg == nil, "there is a registry out of nowhere")
			}
		},
	}
	var uses cli.ActionPipeline
	switch where {
	case 0:
		app.Uses = r
	case 1:
		uses = append(uses, r)
	}
	if argFlag == 0 {
		uses = append(uses, cli.Accessory("-", (*provider.Value).ArgumentFlag))
	} else {
		app.Flags = append(app.Flags, &cli.Flag{Uses: provider.SetArgument("p")})
	}
	f.Uses = uses
	err := app.RunContext(context.Background(), args)

	exists := len(name) == 1 && strings.Contains("abcd", name)
	valid := exists || !named
	if exists && (named || len(later) > 0) {
		for k := range want {
			valid = valid && (name == "a" && k != "z" || name == "c" && k == "x")
		}
	}
	if where < 2 && !allow && !valid {
		sym.Assert(err != nil && !ran, "a provider or an argument which doesn't exist is accepted")
		return
	}
	sym.Assert(err == nil && ran, "a provider which exists is refused")
	if where == 2 {
		return
	}
	switch name {
	case "a":
		full := map[string]string{"x": "1", "y": "2"}
		maps.Copy(full, want)
		sym.Assert(makeErr == nil && made == "made" && show(*opts) == show(full), "a provider isn't created with the arguments given and defaults for the others")
	case "b":
		sym.Assert(makeErr == nil && made == 42, "a provider with a value isn't this value")
	case "d":
		sym.Assert(makeErr == errMake, "the error of a factory is lost")
	default:
		sym.Assert(makeErr != nil && made == nil, "a provider which doesn't exist is created")
	}
}

// HList lists the providers.
func HList() {
	m := map[string]map[string]string{}
	d := provider.Details{}
	want := ""
	for _, n := range []string{"k", "l", "m"} {
		if !sym.Bool("listed") {
			continue
		}
		defs := map[string]string{}
		var t []string
		for _, k := range []string{"x", "y"}[:sym.Choose("defaults", 3)] {
			defs[k] = sym.StringN("value", 1, "ab=")
			t = append(t, k+"="+defs[k])
		}
		m[n], d[n] = defs, provider.Detail{Defaults: defs, Factory: func(map[string]string) (any, error) { return nil, nil }}
		want += n + "\t" + strings.Join(t, ", ") + "\n"
	}
	r := &provider.Registry{Name: "p", Providers: provider.Map(m)}
	if sym.Bool("details") {
		r.Providers = d
	}
	sym.MapOrder(true)
	names := r.ProviderNames()
	sym.MapOrder(false)
	slices.Sort(names)
	sym.Assert(strings.Join(names, ",") == strings.Join(slices.Sorted(maps.Keys(m)), ","), "the names aren't those of the providers")
	var out bytes.Buffer
	ran := false
	f := &cli.Flag{Uses: provider.ListProviders("p")}
	app := &cli.App{
		Name: "app", Stdout: &out, Stderr: io.Discard, Flags: []*cli.Flag{f, {Name: "p", Value: new(provider.Value)}},
		Action: func() { ran = true },
	}
	if sym.Bool("flag") {
		app.Flags[1].Uses = r
	} else {
		app.Uses = r
	}
	err := app.RunContext(context.Background(), []string{"app", "--list-p"})
	got := out.String()
	sym.Observe("got", got)
	sym.Assert(err != nil && err.(cli.ExitCoder).ExitCode() == 0 && !ran, "listing providers doesn't exit")
	sym.Assert(got == want, "the list doesn't have each provider once with its defaults")
}

type options struct {
	X string
	N int
	B bool
}

// HFactory makes providers with functions of several types.
func HFactory() {
	x := sym.String("text", 2, "")
	n := sym.Choose("number", 3)
	opts := map[string]string{}
	hasX, hasN, hasB := sym.Bool("x"), sym.Bool("n"), sym.Bool("b")
	want := options{}
	if hasX {
		opts["x"], want.X = x, x
	}
	if hasN {
		opts["N"], want.N = []string{"0", "17", "-3"}[n], []int{0, 17, -3}[n]
	}
	if hasB {
		opts["b"], want.B = "true", true
	}
	fail := sym.Bool("fail")
	var e error
	if fail {
		e = errMake
	}
	var got options
	var f provider.FactoryFunc
	kind := sym.Choose("kind", 5)
	switch kind {
	case 0:
		f = provider.Factory(func(o options) any { got = o; return "made" })
		e = nil
	case 1:
		f = provider.Factory(func(o options) (any, error) { got = o; return "made", e })
	case 2:
		f = provider.Factory(func(o *options) (string, error) { got = *o; return "made", e })
	case 3:
		f = provider.Factory(func(m map[string]string) (any, error) {
			got.X, got.B = m["x"], m["b"] == "true"
			got.N = map[string]int{"": 0, "0": 0, "17": 17, "-3": -3}[m["N"]]
			return "made", e
		})
	case 4:
		f = provider.Factory(func(any) (any, error) { got = want; return "made", e })
	}
	if len(opts) == 0 && sym.Bool("nil") {
		opts = nil
	}
	made, err := f(opts)
	sym.Observe("x", got.X)
	sym.Assert(err == e && made == "made", "a factory doesn't give the result of its function")
	sym.Assert(got == want, "the function of a factory doesn't get the options")
}
