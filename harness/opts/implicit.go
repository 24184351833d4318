package opts

import (
	"context"
	"io"
	"os"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

// HImplicit gives values by actions in any order.
func HImplicit() {
	arg := sym.Bool("arg")
	names := [][]string{{"f"}, {"flag-x"}, {"f", "long"}, {"long-name-x", "l"}}[sym.Choose("names", 4)]
	long := names[0]
	if len(names) > 1 && len(long) == 1 && !arg {
		long = names[1]
	}
	snake := strings.ToUpper(strings.ReplaceAll(long, "-", "_"))

	def := sym.StringN("default", 1, "de")
	var v = def
	want, implied := def, false
	fails := false
	set := func(text string) {
		if !implied {
			want, implied = text, true
		}
	}
	n := sym.Bound(2, 3)
	var kinds []int
	usesEnv := false
	for range n {
		k := sym.Choose("action", 6)
		kinds = append(kinds, k)
		usesEnv = usesEnv || k == 0
	}
	pattern, env, envMatches := "VQI", "VQI", true
	if usesEnv {
		named := []string{"VQI", snake, "VQI_" + snake, snake + "_VQI", "VQI_" + snake + "_VQJ"}
		i := sym.Choose("pattern", 5)
		pattern = []string{"VQI", "{}", "VQI{}", "{}VQI", "VQI{}VQJ"}[i]
		env = named[i]
		if sym.Bool("another variable") {
			env, envMatches = named[(i+1)%5], false
		}
		os.Setenv(env, "env")
	}
	var acts []cli.Action
	for _, k := range kinds {
		switch k {
		case 0:
			acts = append(acts, cli.FromEnv("VQI_NONE", pattern))
			if envMatches {
				set("env")
			}
		case 1:
			t := sym.StringN("value", 1, "xy")
			acts = append(acts, cli.ImplicitValue(func(c *cli.Context) (string, bool) { return t, true }))
			set(t)
		case 2:
			acts = append(acts, cli.ImplicitValue(func(c *cli.Context) (string, bool) { return "no", false }))
		case 3:
			acts = append(acts, cli.Implicitly(cli.SetValue("direct")))
			fails = fails || implied // as it is already set
			set("direct")
		case 4:
			acts = append(acts, cli.Implicitly(cli.ActionFunc(func(c *cli.Context) error {
				if c.ImplicitlySet() {
					return nil
				}
				return c.SetValue("action")
			})))
			set("action")
		}
	}
	given := sym.Bool("given")
	argv := []string{"app"}
	if given {
		want, implied, fails = "given", false, false
	}
	var got string
	var implicit, acted bool
	app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard, Action: func(c *cli.Context) {
		acted, got, implicit = true, c.String(names[0]), c.ContextOf(names[0]).ImplicitlySet()
	}}
	if arg {
		app.Args = []*cli.Arg{{Name: names[0], Value: &v, NArg: 0, Uses: cli.ActionPipeline(acts)}}
		argv = append(argv, "given")
	} else {
		app.Flags = []*cli.Flag{{Name: names[0], Aliases: names[1:], Value: &v, Uses: cli.ActionPipeline(acts)}}
		argv = append(argv, "-"+map[bool]string{true: "-"}[len(names[0]) > 1]+names[0], "given")
	}
	if !given {
		argv = argv[:1]
	}
	err := app.RunContext(context.Background(), argv)
	os.Unsetenv(env)
	sym.Observe("got", got)
	if fails {
		sym.Assert(err != nil && !acted, "a value is set implicitly though another was")
		return
	}
	sym.Assert(acted && got == want, "the value isn't that of the first source which has one")
	sym.Assert(implicit == implied, "a value is implicit otherwise than when it wasn't given")
	sym.Reach("implicit")
}
