package values

import (
	"context"
	"io"
	"math/big"
	"net"
	"net/url"
	"reflect"
	"regexp"
	"time"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

// variable is a variable of some type and the value to set.
type variable struct {
	ptr   any
	value any
	same  func() bool // whether the variable has the value
}

func of[T comparable](v T) variable {
	var zero T
	p := &zero
	return variable{p, v, func() bool { return *p == v }}
}

// HDirect sets flags and args to values of their own type.
func HDirect() {
	x := sym.Int64("value")
	t := sym.String("text", sym.Bound(2, 3), "")
	bb := []byte(t)
	var list []string
	var m map[string]string
	var ip net.IP
	var bytes []byte
	all := []func() variable{
		func() variable { return of(x > 3) },
		func() variable { return of(t) },
		func() variable { return of(int(x)) },
		func() variable { return of(int8(x)) },
		func() variable { return of(int16(x)) },
		func() variable { return of(int32(x)) },
		func() variable { return of(x) },
		func() variable { return of(uint(x)) },
		func() variable { return of(uint8(x)) },
		func() variable { return of(uint16(x)) },
		func() variable { return of(uint32(x)) },
		func() variable { return of(uint64(x)) },
		func() variable { return of(float32(1.5)) },
		func() variable { return of(float64(2.5)) },
		func() variable { return of(time.Duration(x)) },
		func() variable { return of(&url.URL{Path: t}) },
		func() variable { return of(regexp.MustCompile("a")) },
		func() variable { return of(big.NewInt(x)) },
		func() variable { return of(big.NewFloat(0.5)) },
		func() variable {
			return variable{&list, []string{t, "x"}, func() bool { return len(list) == 2 && list[0] == t && list[1] == "x" }}
		},
		func() variable {
			return variable{&m, map[string]string{t: "x"}, func() bool { return len(m) == 1 && m[t] == "x" }}
		},
		func() variable { return variable{&ip, net.IPv4(1, 2, 3, 4), func() bool { return ip.Equal(net.IPv4(1, 2, 3, 4)) }} },
		func() variable { return variable{&bytes, bb, func() bool { return string(bytes) == t }} },
	}
	v := all[sym.Choose("type", len(all))]()
	f, a := &cli.Flag{Name: "f", Value: v.ptr}, &cli.Arg{Name: "a", Value: v.ptr, NArg: 0}
	app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard}
	isFlag := sym.Bool("flag")
	acted, seen := false, false
	n := "a"
	if isFlag {
		app.Flags, n = []*cli.Flag{f}, "f"
	} else {
		app.Args = []*cli.Arg{a}
	}
	var before, uses cli.Action
	switch sym.Choose("way", 5) {
	case 0:
		before = cli.SetValue(v.value)
	case 1:
		before = cli.ActionFunc(func(c *cli.Context) error { return c.SetValue(v.value) })
	case 2:
		uses = cli.Implicitly(cli.SetValue(v.value))
	case 3:
		uses = cli.Before(cli.SetValue(v.value))
	case 4:
		app.Before = func(c *cli.Context) error {
			if isFlag {
				return f.Set(v.value)
			}
			return a.Set(v.value)
		}
	}
	if isFlag {
		f.Before, f.Uses = before, uses
	} else {
		a.Before, a.Uses = before, uses
	}
	app.Action = func(c *cli.Context) {
		acted = true
		got := c.Value(n)
		seen = reflect.TypeOf(got) == reflect.TypeOf(v.value)
		if k := reflect.TypeOf(got).Kind(); k != reflect.Slice && k != reflect.Map {
			seen = seen && got == v.value
		}
	}
	err := app.RunContext(context.Background(), []string{"app"})
	sym.Assert(err == nil && acted, "a run without arguments fails")
	sym.Assert(v.same(), "the variable doesn't have the value that was set")
	sym.Assert(seen, "the value that was set is read as another")
	sym.Reach("direct")
}
