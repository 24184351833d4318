// Package lookup states the properties of reading values by name and type.
package lookup

import (
	"context"
	"io"
	"math/big"
	"net"
	"net/url"
	"reflect"
	"regexp"
	"strings"
	"time"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

// name is a way to name an option which is called a or, as an arg, the one at index 0.
type name struct {
	flag, arg bool
	of        func(*cli.Flag, *cli.Arg) any
}

var names = []name{
	{true, true, func(*cli.Flag, *cli.Arg) any { return "a" }},
	{true, false, func(*cli.Flag, *cli.Arg) any { return "-a" }},
	{true, false, func(*cli.Flag, *cli.Arg) any { return "--a" }},
	{false, true, func(*cli.Flag, *cli.Arg) any { return "<a>" }},
	{true, false, func(*cli.Flag, *cli.Arg) any { return 'a' }},
	{true, false, func(f *cli.Flag, _ *cli.Arg) any { return f }},
	{false, true, func(_ *cli.Flag, a *cli.Arg) any { return a }},
}

// source gives a lookup of a value by the name a and checks what is read from it.
func source(v, ptr any, check func(l cli.Lookup, n any)) {
	f, a := &cli.Flag{Name: "a"}, &cli.Arg{Name: "a"}
	holder := false
	direct := check
	check = func(l cli.Lookup, n any) {
		direct(l, n)
		raw, ok := l.Interface(n)
		sym.Assert(ok, "the value which was set is said not to exist")
		_, plain := n.(int)
		if reflect.TypeOf(ptr).Kind() == reflect.Pointer && n != nil && n != any("") && !plain {
			// (the ones set without a pointer are never given as one)
			if holder {
				sym.Assert(raw == ptr, "the pointer which was set isn't what is held")
			} else if reflect.TypeOf(v).Kind() != reflect.Pointer {
				sym.Assert(reflect.TypeOf(raw) == reflect.TypeOf(v), "the value held is of another type than the one set")
			}
		}
	}
	run := func(app *cli.App, names ...any) {
		n := names[sym.Choose("name", len(names))]
		acted := false
		app.Name = "app"
		app.Stdout, app.Stderr = io.Discard, io.Discard
		app.Action = func(c *cli.Context) error {
			acted = true
			check(c, n)
			return nil
		}
		err := app.RunContext(context.Background(), []string{"app"})
		sym.Assert(err == nil && acted, "an app without arguments fails")
	}
	src := sym.Choose("source", 7)
	holder = src > 2
	switch src {
	case 0, 1:
		if sym.Bool("pointer") {
			v, holder = ptr, true
		}
		n := names[sym.Choose("name", len(names))].of(f, a)
		check(cli.LookupValues{"a": v, "b": "b"}, n)
	case 2:
		if sym.Bool("pointer") {
			v, holder = ptr, true
		}
		n := names[sym.Choose("name", len(names))].of(f, a)
		check(cli.LookupFunc(func(name string) (any, bool) {
			if name == "a" {
				return v, true
			}
			return nil, false
		}), n)
	case 3:
		f.Value = ptr
		run(&cli.App{Flags: []*cli.Flag{{Name: "b"}, f}}, "a", "-a", "--a", 'a', f)
	case 4:
		a.Value, a.NArg = ptr, 0
		run(&cli.App{Args: []*cli.Arg{a, {Name: "b"}}}, "a", "<a>", a, 0, -2)
	case 6:
		// in its own pipeline
		own := any("")
		if sym.Bool("nil") {
			own = nil
		}
		acted := false
		before := func(c *cli.Context) error {
			acted = true
			check(c, own)
			return nil
		}
		app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard}
		if sym.Bool("arg") {
			a.Value, a.NArg, a.Before = ptr, 0, before
			app.Args = []*cli.Arg{a}
		} else {
			f.Value, f.Before = ptr, before
			app.Flags = []*cli.Flag{f}
		}
		err := app.RunContext(context.Background(), []string{"app"})
		sym.Assert(err == nil && acted, "an app without arguments fails")
	case 5:
		// of an ancestor
		f.Value = ptr
		sub := &cli.App{Flags: []*cli.Flag{f}}
		n := names[sym.Choose("name", 3)].of(f, a)
		acted := false
		sub.Name = "app"
		sub.Stdout, sub.Stderr = io.Discard, io.Discard
		sub.Commands = []*cli.Command{{Name: "sub", Action: func(c *cli.Context) error {
			acted = true
			check(c, n)
			return nil
		}}}
		err := sub.RunContext(context.Background(), []string{"app", "sub"})
		sym.Assert(err == nil && acted, "an app without arguments fails")
	}
}

// ints are the integers of all signed kinds.
func ints(l cli.Lookup, n any) []int64 {
	return []int64{l.Int64(n), int64(l.Int(n)), int64(l.Int32(n)), int64(l.Int16(n)), int64(l.Int8(n))}
}

func uints(l cli.Lookup, n any) []uint64 {
	return []uint64{l.Uint64(n), uint64(l.Uint(n)), uint64(l.Uint32(n)), uint64(l.Uint16(n)), uint64(l.Uint8(n))}
}

// HLookupInts reads integers of each signed kind with the getters of all of them.
func HLookupInts() {
	x := sym.Int64("value")
	var v, ptr any
	kinds := 6
	switch sym.Choose("kind", kinds) {
	case 0:
		v, ptr = x, &x
	case 1:
		y := int(x)
		v, ptr = y, &y
	case 2:
		y := int32(x)
		x = int64(y)
		v, ptr = y, &y
	case 3:
		y := int16(x)
		x = int64(y)
		v, ptr = y, &y
	case 4:
		y := int8(x)
		x = int64(y)
		v, ptr = y, &y
	case 5:
		y := time.Duration(x)
		v, ptr = y, &y
	}
	source(v, ptr, func(l cli.Lookup, n any) {
		g := ints(l, n)
		sym.Assert(g[0] == x && g[1] == x, "an integer is read as another")
		sym.Assert(x != int64(int32(x)) || g[2] == x, "an integer which fits is read as another 32-bit integer")
		sym.Assert(x != int64(int16(x)) || g[3] == x, "an integer which fits is read as another 16-bit integer")
		sym.Assert(x != int64(int8(x)) || g[4] == x, "an integer which fits is read as another 8-bit integer")
		if d, ok := v.(time.Duration); ok {
			sym.Assert(l.Duration(n) == d, "a duration is read as another")
		}
		same(l, n, v)
	})
	sym.Reach("read")
}

// HLookupUints reads integers of each unsigned kind with the getters of all of them.
func HLookupUints() {
	x := uint64(sym.Int64("value"))
	var v, ptr any
	switch sym.Choose("kind", 5) {
	case 0:
		v, ptr = x, &x
	case 1:
		y := uint(x)
		v, ptr = y, &y
	case 2:
		y := uint32(x)
		x = uint64(y)
		v, ptr = y, &y
	case 3:
		y := uint16(x)
		x = uint64(y)
		v, ptr = y, &y
	case 4:
		y := uint8(x)
		x = uint64(y)
		v, ptr = y, &y
	}
	source(v, ptr, func(l cli.Lookup, n any) {
		g := uints(l, n)
		sym.Assert(g[0] == x && g[1] == x, "an unsigned integer is read as another")
		sym.Assert(x != uint64(uint32(x)) || g[2] == x, "an unsigned integer which fits is read as another 32-bit integer")
		sym.Assert(x != uint64(uint16(x)) || g[3] == x, "an unsigned integer which fits is read as another 16-bit integer")
		sym.Assert(x != uint64(uint8(x)) || g[4] == x, "an unsigned integer which fits is read as another 8-bit integer")
		same(l, n, v)
	})
	sym.Reach("read")
}

// same states that the value itself is read, whichever way it is held.
func same(l cli.Lookup, n any, v any) {
	sym.Assert(l.Value(n) == v, "the value read is not the one which was set")
	raw, ok := l.Interface(n)
	sym.Assert(ok && raw != nil, "the value which was set is said not to exist")
}

// HLookupTexts reads values of the kinds which are not integers.
func HLookupTexts() {
	t := sym.String("text", sym.Bound(2, 3), "")
	b := sym.Bool("bool")
	switch sym.Choose("kind", 14) {
	case 0:
		source(t, &t, func(l cli.Lookup, n any) {
			sym.Assert(l.String(n) == t, "a string is read as another")
			same(l, n, t)
		})
	case 1:
		source(b, &b, func(l cli.Lookup, n any) {
			sym.Assert(l.Bool(n) == b, "a bool is read as another")
			same(l, n, b)
		})
	case 2:
		v := []string{t, "x"}
		source(v, &v, func(l cli.Lookup, n any) {
			got := l.List(n)
			sym.Assert(len(got) == 2 && got[0] == t && got[1] == "x", "a list is read as another")
		})
	case 3:
		v := map[string]string{t: "x"}
		source(v, &v, func(l cli.Lookup, n any) {
			got := l.Map(n)
			sym.Assert(len(got) == 1 && got[t] == "x", "a map is read as another")
		})
	case 4:
		v := []byte(t)
		source(v, &v, func(l cli.Lookup, n any) {
			sym.Assert(string(l.Bytes(n)) == t, "bytes are read as others")
		})
	case 5:
		v := &cli.NameValue{Name: "n", Value: t}
		source(v, v, func(l cli.Lookup, n any) {
			got := l.NameValue(n)
			sym.Assert(got != nil && got.Name == "n" && got.Value == t, "a name-value pair is read as another")
		})
	case 6:
		v := []*cli.NameValue{{Name: "n", Value: t}}
		source(v, &v, func(l cli.Lookup, n any) {
			got := l.NameValues(n)
			sym.Assert(len(got) == 1 && got[0] == v[0], "name-value pairs are read as others")
		})
	case 7:
		v := &cli.File{Name: t}
		source(v, v, func(l cli.Lookup, n any) {
			sym.Assert(l.File(n) == v, "a file is read as another")
		})
	case 8:
		v := &cli.FileSet{Files: []string{t}}
		source(v, v, func(l cli.Lookup, n any) {
			sym.Assert(l.FileSet(n) == v, "a set of files is read as another")
		})
	case 9:
		v := &url.URL{Path: t}
		source(v, &v, func(l cli.Lookup, n any) {
			sym.Assert(l.URL(n) == v, "a URL is read as another")
			same(l, n, v)
		})
	case 10:
		v := net.IP{1, 2, 3, 4}
		if b {
			v[3] = 5
		}
		source(v, &v, func(l cli.Lookup, n any) {
			got := l.IP(n)
			sym.Assert(len(got) == 4 && got[3] == v[3], "an IP is read as another")
		})
	case 11:
		v := big.NewInt(7)
		source(v, &v, func(l cli.Lookup, n any) {
			sym.Assert(l.BigInt(n) == v, "a big int is read as another")
			same(l, n, v)
		})
	case 12:
		v := big.NewFloat(7.5)
		source(v, &v, func(l cli.Lookup, n any) {
			sym.Assert(l.BigFloat(n) == v, "a big float is read as another")
			same(l, n, v)
		})
	case 13:
		v := regexp.MustCompile("a+")
		source(v, &v, func(l cli.Lookup, n any) {
			sym.Assert(l.Regexp(n) == v, "a regexp is read as another")
			same(l, n, v)
		})
	}
	sym.Reach("read")
}

// HLookupFloats reads floats of both sizes.
func HLookupFloats() {
	vals := []float64{0, 1, -1.5, 0.1, 3e38, 1e300}
	x := vals[sym.Choose("value", len(vals))]
	if sym.Bool("small") {
		v := float32(x)
		source(v, &v, func(l cli.Lookup, n any) {
			sym.Assert(l.Float32(n) == v && l.Float64(n) == float64(v), "a float is read as another")
			same(l, n, v)
		})
		return
	}
	source(x, &x, func(l cli.Lookup, n any) {
		sym.Assert(l.Float64(n) == x && l.Float32(n) == float32(x), "a float is read as another")
		same(l, n, x)
	})
}

// HLookupMissing reads with each getter what isn't there.
func HLookupMissing() {
	nm := sym.StringN("name", sym.Bound(1, 2), "ab-<>é")
	sym.Assume(strings.Trim(nm, "-<>") != "a" && strings.Trim(nm, "-<>") != "")
	var n any = nm
	switch sym.Choose("form", 5) {
	case 1:
		n = 'b'
	case 2:
		n = &cli.Flag{Name: "b"}
	case 3:
		n = &cli.Arg{Name: "b"}
	case 4:
		n = sym.Choose("index", 5) - 2
	}
	check := func(l cli.Lookup) {
		for _, i := range ints(l, n) {
			sym.Assert(i == 0, "an integer is read which doesn't exist")
		}
		for _, i := range uints(l, n) {
			sym.Assert(i == 0, "an integer is read which doesn't exist")
		}
		sym.Assert(l.String(n) == "" && !l.Bool(n) && l.Float32(n) == 0 && l.Float64(n) == 0 && l.Duration(n) == 0, "a value is read which doesn't exist")
		sym.Assert(len(l.List(n)) == 0 && len(l.Map(n)) == 0 && len(l.Bytes(n)) == 0 && len(l.NameValues(n)) == 0 && len(l.IP(n)) == 0, "a value is read which doesn't exist")
		sym.Assert(l.NameValue(n) == nil && l.File(n) == nil && l.FileSet(n) == nil && l.URL(n) == nil && l.Regexp(n) == nil && l.BigInt(n) == nil && l.BigFloat(n) == nil, "a value is read which doesn't exist")
		v, ok := l.Interface(n)
		sym.Assert(v == nil && !ok && l.Value(n) == nil, "a value is said to exist which doesn't")
	}
	_, index := n.(int)
	switch s := sym.Choose("source", 5); s {
	case 0, 1, 2, 3:
		if index {
			return // no args there
		}
		check([]cli.Lookup{
			cli.LookupValues{"a": 1},
			cli.LookupValues(nil),
			cli.LookupFunc(func(n string) (any, bool) { return nil, false }),
			cli.LookupFunc(nil),
		}[s])
	case 4:
		acted := false
		app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard, Flags: []*cli.Flag{{Name: "a"}}, Commands: []*cli.Command{{Name: "sub", Action: func(c *cli.Context) error {
			acted = true
			check(c)
			sym.Assert(!c.Seen(n) && c.Occurrences(n) <= 0 && len(c.Raw(n)) == 0 && len(c.RawOccurrences(n)) == 0, "an option is seen which doesn't exist")
			return nil
		}}}}
		err := app.RunContext(context.Background(), []string{"app", "sub"})
		sym.Assert(err == nil && acted, "an app without arguments fails")
	}
	sym.Reach("missing")
}
