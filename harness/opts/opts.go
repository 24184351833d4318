// Package opts checks that the options of flags, args and commands have just the effects they are for.
package opts

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"slices"
	"strings"
	"time"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

// HNo gives a flag that has a mirror for the false value.
func HNo() {
	long := sym.Choose("long", 3)
	names := [][]string{{"v"}, {"verbose", "v"}, {"v", "verbose", "w"}}[long]
	mirrors := [][]string{{"--no-v"}, {"--no-verbose"}, {"--no-v", "--no-verbose"}}[long]
	forms := [][]string{{"-v"}, {"-v", "--verbose"}, {"-v", "--verbose", "-w"}}[long]
	def := sym.Bool("default")
	sub := sym.Bool("sub")
	type token struct {
		text   string
		mirror bool
		value  bool
	}
	var toks []token
	for i := sym.Choose("tokens", sym.Bound(3, 4)); i > 0; i-- {
		switch sym.Choose("token", 3) {
		case 0:
			toks = append(toks, token{forms[sym.Choose("form", len(forms))], false, true})
		case 1:
			toks = append(toks, token{mirrors[sym.Choose("mirror", len(mirrors))], true, false})
		case 2:
			b := sym.Bool("value")
			toks = append(toks, token{fmt.Sprintf("--%s=%v", names[len(names)/2], b), false, b})
		}
	}
	unknown := ""
	if sym.Bool("unknown") {
		unknown = []string{"--no-w", "--no-", "--no-verbos", "-no-v", "--no-no-v"}[sym.Choose("which", 5)]
	}
	want := def
	for _, t := range toks {
		want = t.value
	}
	for _, t := range toks {
		if t.mirror {
			// the mirror is set after the flag
			want = false
		}
	}

	v := def
	var befores, actions, afters, runs int
	f := &cli.Flag{Name: names[0], Aliases: slices.Clone(names[1:]), Options: cli.No, Value: &v,
		Before: func() { befores++ },
		Action: func(c *cli.Context) {
			actions++
			sym.Assert(c.Bool("") == want && c.Bool(names[0]) == want && v == want, "the action of the flag has another value")
		},
		After: func() { afters++ }}
	action := func(c *cli.Context) {
		runs++
		sym.Assert(c.Bool(names[0]) == want && v == want, "the flag has another value")
	}
	app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard}
	argv := []string{"app"}
	if sub {
		app.Commands = []*cli.Command{{Name: "sub", Flags: []*cli.Flag{f}, Action: action}}
		argv = append(argv, "sub")
	} else {
		app.Flags = []*cli.Flag{f}
		app.Action = action
	}
	for _, t := range toks {
		argv = append(argv, t.text)
	}
	if unknown != "" {
		argv = append(argv, unknown)
	}
	err := app.RunContext(context.Background(), argv)
	if unknown != "" {
		sym.Observe("error", fmt.Sprint(err))
		sym.Assert(err != nil && runs == 0, "a flag which is no mirror is taken for one")
		return
	}
	sym.Assert(err == nil && runs == 1, "the flag or its mirror is refused")
	given := 0
	if len(toks) > 0 {
		given = 1
	}
	sym.Assert(befores == 1 && afters == 1, "the flag isn't initialized or finished once")
	sym.Assert(actions == given, "the action of the flag doesn't run exactly if it or its mirror is given")
}

// HOptional gives flags whose value can be omitted.
func HOptional() {
	kind := sym.Choose("kind", 7)
	var value any
	var get func() string
	var uses cli.Action = cli.Optional
	def, opt, given := "", "", []string{"5", "7"}
	switch kind {
	case 0:
		x := 3
		value, get, def, opt = &x, func() string { return fmt.Sprint(x) }, "3", "1"
	case 1:
		x := uint8(3)
		value, get, def, opt = &x, func() string { return fmt.Sprint(x) }, "3", "77"
		uses = cli.OptionalValue(uint8(77))
	case 2:
		x := 2.5
		value, get, def, opt = &x, func() string { return fmt.Sprint(x) }, "2.5", "1"
	case 3:
		x := time.Minute
		value, get, def, opt = &x, func() string { return x.String() }, "1m0s", "1s"
		given = []string{"2s", "4ms"}
	case 4:
		x := "default"
		value, get, def, opt = &x, func() string { return x }, x, "optional"
		uses = cli.OptionalValue("optional")
		given = []string{sym.StringN("value", 1, ""), "b"}
		sym.Assume(given[0] != "=")
	case 5:
		x := []string{"default"}
		value, get, def, opt = &x, func() string { return strings.Join(x, "+") }, x[0], "optional"
		uses = cli.OptionalValue([]string{"optional"})
	case 6:
		x := int64(-2)
		value, get, def, opt = &x, func() string { return fmt.Sprint(x) }, "-2", "1"
	}
	want := def
	argv := []string{"app"}
	var rest []string
	var all []string
	last := false
	for i := sym.Choose("tokens", 4); i > 0; i-- {
		v := given[i%2]
		switch k := sym.Choose("token", 6); k {
		case 0, 1:
			argv = append(argv, []string{"-f", "--flag"}[k])
			want = opt
			all = []string{opt}
			if k == 1 {
				// a value which follows is its value
				last = true
				continue
			}
		case 2, 3, 4:
			switch k {
			case 2:
				argv = append(argv, "-f"+v)
			case 3:
				argv = append(argv, "--flag="+v)
			case 4:
				argv = append(argv, "--flag", v)
				// which is a flag by itself
				sym.Assume(v[0] != '-')
			}
			want = v
			all = append(all, v)
		case 5:
			// a value for the arg
			sym.Assume(!last)
			argv = append(argv, "x")
			rest = append(rest, "x")
		}
		// so is what follows a value of a list
		last = kind == 5 && (last || argv[len(argv)-2] == "--flag")
	}
	var others []string
	runs := 0
	app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard,
		Flags:  []*cli.Flag{{Name: "f", Aliases: []string{"flag"}, Value: value, Uses: uses}},
		Args:   []*cli.Arg{{Name: "a", Value: &others, NArg: cli.TakeExceptForFlags}},
		Action: func() { runs++ },
	}
	err := app.RunContext(context.Background(), argv)
	sym.Observe("value", get())
	sym.Observe("error", fmt.Sprint(err))
	sym.Assert(err == nil && runs == 1, "a flag with an optional value is refused")
	if kind == 5 && len(all) > 0 {
		want = all[len(all)-1]
		got := strings.Split(get(), "+")
		sym.Assert(got[len(got)-1] == want, "the last value is another one")
	} else {
		sym.Assert(get() == want, "the flag has neither the value given nor the optional one")
	}
	sym.Assert(slices.Equal(others, rest), "the arg has other values")
}

// HVisible hides and shows commands and flags.
func HVisible() {
	under := sym.Bool("underscore")
	kind := sym.Choose("kind", 2)
	own := sym.Choose("own", 4)
	parent := sym.Bool("disabled by the parent")
	top := sym.Bool("disabled by the app")
	uses := sym.Bool("uses")
	name := "name"
	if under {
		name = "_name"
	}
	opt := []cli.Option{0, cli.Hidden, cli.Visible, cli.DisableAutoVisibility}[own]
	hidden := own == 1 || under && own == 0 && !parent && !top
	found := false
	var out bytes.Buffer
	for _, argv := range [][]string{{"app", "sub"}, {"app", "sub", "--help"}} {
		sub := &cli.Command{Name: "sub"}
		app := &cli.App{Name: "app", Commands: []*cli.Command{sub}}
		if parent {
			sub.Options = cli.DisableAutoVisibility
		}
		if top {
			app.Options = cli.DisableAutoVisibility
		}
		if kind == 0 {
			f := &cli.Flag{Name: name, Value: new(bool)}
			if uses {
				f.Uses = opt
			} else {
				f.Options = opt
			}
			sub.Flags = []*cli.Flag{f}
		} else {
			c := &cli.Command{Name: name}
			if uses {
				c.Uses = opt
			} else {
				c.Options = opt
			}
			sub.Subcommands = []*cli.Command{c}
		}
		sub.After = func(c *cli.Context) {
			for _, f := range c.Command().VisibleFlags() {
				found = found || f.Name == name
			}
			for _, c := range c.Command().VisibleSubcommands() {
				found = found || c.Name == name
			}
		}
		sub.Action = func() {}
		app.Stdout, app.Stderr = io.Discard, &out
		err := app.RunContext(context.Background(), argv)
		sym.Assert(len(argv) > 2 || err == nil && found == !hidden, "what is hidden is visible, or what is visible hidden")
	}
	sym.Observe("help", out.String())
	sym.Assert(strings.Contains(out.String(), name) == !hidden, "help shows what is hidden, or not what is visible")
}

// HTrigger runs the actions of options which are triggered or implied.
func HTrigger() {
	source := sym.Choose("source", 5)
	how := sym.Choose("how", 5)
	arg := sym.Bool("arg")
	given := sym.StringN("value", 1, "abc")

	var ran []string
	act := cli.ActionFunc(func(c *cli.Context) error {
		ran = append(ran, c.String(""))
		return nil
	})
	x := ""
	want := ""
	runs := 0
	var uses []any
	var vars []string
	argv := []string{"app"}
	switch source {
	case 1:
		want, runs = given, 1
		if !arg {
			argv = append(argv, "-f", given)
		} else {
			argv = append(argv, given)
		}
	case 2:
		want = "env"
		vars = []string{"JOE_ZZ_TRIGGER"}
	case 3:
		want = given
		uses = append(uses, cli.At(cli.ImplicitValueTiming, cli.SetValue(given)))
	case 4:
		x, want = given, given
	}
	implied := source == 2 || source == 3
	app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard, Action: func() {}}
	switch how {
	case 1:
		uses = append(uses, cli.Trigger)
		runs = 1
	case 2:
		uses = append(uses, cli.ImpliedAction)
	case 3:
		app.Options = cli.ImpliedAction
	case 4:
		uses = append(uses, cli.Before(cli.Trigger))
		runs = 1
	}
	if (how == 2 || how == 3) && implied {
		runs = 1
	}
	if arg {
		app.Args = []*cli.Arg{{Name: "f", Value: &x, Uses: cli.Pipeline(uses...), EnvVars: vars, Action: act, NArg: 0}}
	} else {
		app.Flags = []*cli.Flag{{Name: "f", Value: &x, Uses: cli.Pipeline(uses...), EnvVars: vars, Action: act}}
	}
	if source == 2 {
		os.Setenv("JOE_ZZ_TRIGGER", "env")
	}
	err := app.RunContext(context.Background(), argv)
	os.Unsetenv("JOE_ZZ_TRIGGER")
	sym.Observe("ran", strings.Join(ran, " "))
	sym.Assert(err == nil, "the run fails")
	sym.Assert(len(ran) == runs, "the action doesn't run exactly if it is triggered, or implied and to be run then")
	for _, r := range ran {
		sym.Assert(r == want, "the action has another value")
	}
	sym.Assert(x == want, "there is another value")
}

// HFlagsAfter gives flags before, between and after values.
func HFlagsAfter() {
	mode := sym.Choose("mode", 4)
	sub := sym.Bool("sub")
	var toks []string
	var rest []string
	b, s := false, ""
	n := sym.Choose("tokens", sym.Bound(4, 5))
	only := mode == 3
	disallowed, late := mode == 1 || mode == 2, false
	for i := 0; i < n; i++ {
		t := []string{"-b", "-sv", "--s=w", "x", "--", "-"}[sym.Choose("token", 6)]
		toks = append(toks, t)
		if t == "--" && mode < 3 {
			// it ends the values of an arg, too
			sym.Assume(!only && len(rest) == 0)
		}
		if disallowed && !only && len(rest) > 0 && len(t) > 1 && t[0] == '-' {
			late = true
		}
		switch {
		case only:
			rest = append(rest, t)
		case t == "-b":
			b = true
		case t == "-sv":
			s = "v"
		case t == "--s=w":
			s = "w"
		case t == "--":
			only = true
		default:
			rest = append(rest, t)
		}
	}
	var gotB, ran bool
	var gotS string
	var others []string
	flags := []*cli.Flag{{Name: "b", Value: &gotB}, {Name: "s", Value: &gotS}}
	args := []*cli.Arg{{Name: "a", Value: &others, NArg: cli.TakeExceptForFlags}}
	opts := []cli.Option{0, cli.DisallowFlagsAfterArgs, cli.DisallowFlagsAfterArgs, cli.SkipFlagParsing}[mode]
	var uses cli.Action
	if mode == 2 {
		opts, uses = 0, opts
	}
	action := func() { ran = true }
	app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard}
	argv := []string{"app"}
	if sub {
		app.Commands = []*cli.Command{{Name: "sub", Flags: flags, Args: args, Options: opts, Uses: uses, Action: action}}
		argv = append(argv, "sub")
	} else {
		app.Flags, app.Args, app.Options, app.Uses, app.Action = flags, args, opts, uses, action
	}
	err := app.RunContext(context.Background(), append(argv, toks...))
	sym.Observe("error", fmt.Sprint(err))
	sym.Observe("rest", strings.Join(others, " "))
	if late {
		sym.Reach("late")
		sym.Assert(err != nil && !ran, "a flag after a value is accepted")
		return
	}
	sym.Assert(err == nil && ran, "the run fails")
	sym.Assert(gotB == b && gotS == s, "the flags have other values")
	sym.Assert(slices.Equal(others, rest), "the arg has other values")
}
