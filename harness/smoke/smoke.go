package smoke

import (
	"context"
	"fmt"
	"io"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

func HApp() {
	var n int
	var s string
	ran := false
	app := &cli.App{
		Name:   "app",
		Stderr: io.Discard, Stdout: io.Discard,
		Flags: []*cli.Flag{
			{Name: "num", Aliases: []string{"n"}, Value: &n},
			{Name: "str", Value: &s},
		},
		Args: []*cli.Arg{{Name: "rest", Value: new([]string), NArg: -2}},
		Action: func(c *cli.Context) error {
			ran = true
			sym.Observe("rest", fmt.Sprint(c.List("rest")))
			return nil
		},
	}
	args := []string{"app", sym.String("a", 4, "-n=1x"), sym.String("b", 2, "-n=1x")}
	err := app.RunContext(context.Background(), args)
	if err != nil {
		sym.Observe("err", err.Error())
	}
	sym.ObserveBool("ran", ran)
	sym.ObserveInt("n", n)
	sym.Observe("s", s)
}
