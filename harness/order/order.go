// Package order decides whether the outcome of a run is always the same: the
// engine takes the entries of every map in an arbitrary order, in both of two
// runs, which must not be told apart.
package order

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/provider"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

// anyOrder is an action: from there, the run takes maps in any order
func anyOrder(*cli.Context) {
	sym.MapOrder(true)
}

// same runs something twice, or natively often enough for it to differ
func same(run func() string, what string) {
	times := 2
	if !sym.Symbolic() {
		times = 12
	}
	first := run()
	sym.MapOrder(false)
	for i := 1; i < times; i++ {
		again := run()
		sym.MapOrder(false)
		sym.Assert(again == first, what)
	}
	sym.Observe("outcome", first)
}

// journal is a value that notes when it is set
type journal struct {
	name string
	log  *strings.Builder
}

func (j journal) Set(s string) error {
	j.log.WriteString(j.name + "=" + s + ";")
	if s == "x" {
		return errors.New("no value of " + j.name)
	}
	return nil
}

func (j journal) String() string { return "" }

// HApply gives several flags and args, of which some have invalid values or
// share what they set.
func HApply() {
	tokens := []string{"--b=", "-a", "--long=", ""}
	argv := []string{"app"}
	if sym.Tier() > 0 && sym.Bool("sub") {
		argv = append(argv, "sub")
	}
	for i := 0; i < 2; i++ {
		argv = append(argv, tokens[sym.Choose("token", len(tokens))]+sym.StringN("value", 1, "1x"))
	}
	shared := sym.Choose("shared", 3)
	same(func() string {
		var log strings.Builder
		var nums [4]int
		value := func(i int, name string) any {
			switch shared {
			case 0:
				return journal{name, &log}
			case 1:
				return &nums[i]
			}
			return &nums[0]
		}
		flags := []*cli.Flag{{Name: "long", Value: value(0, "long")}, {Name: "a", Value: value(1, "a")}, {Name: "b", Value: value(2, "b")}}
		args := []*cli.Arg{{Name: "arg", Value: value(3, "arg"), NArg: 0, Uses: anyOrder}}
		ran := func(*cli.Context) {
			log.WriteString("ran")
		}
		app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard}
		if len(argv) > 1 && argv[1] == "sub" {
			app.Commands = []*cli.Command{{Name: "sub", Flags: flags, Args: args, Action: ran}}
		} else {
			app.Flags, app.Args, app.Action = flags, args, ran
		}
		err := app.RunContext(context.Background(), argv)
		return fmt.Sprint(err) + "|" + log.String() + "|" + fmt.Sprint(nums)
	}, "two runs with the same command line differ")
}

// HProvider gives a provider several arguments which it doesn't have.
func HProvider() {
	text := "p"
	for i := 0; i < 2; i++ {
		text += []string{"", ",a=1", ",b=2", ",c=3"}[sym.Choose("arg", 4)]
	}
	more := [][]string{nil, {"--p-arg=d=4"}, {"--p-arg=b=5"}}[sym.Choose("more", 3)]
	same(func() string {
		var out bytes.Buffer
		v := new(provider.Value)
		app := &cli.App{
			Name: "app", Stdout: &out, Stderr: &out,
			Uses: &provider.Registry{Name: "p", Providers: provider.Map{"p": {"a": "0"}, "q": nil}},
			Flags: []*cli.Flag{
				{Name: "p", Value: v},
				{Uses: provider.SetArgument("p")},
			},
			Before: anyOrder,
			Action: func() {},
		}
		err := app.RunContext(context.Background(), append([]string{"app", "--p=" + text}, more...))
		return fmt.Sprint(err) + "|" + v.String() + "|" + out.String()
	}, "two runs with the same provider differ")
}
