// Package bnd checks bound functions and evaluators.
package bnd

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/url"
	"regexp"
	"strings"
	"time"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/bind"
	"github.com/Carbonfrost/joe-cli/extensions/expr"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

func run(app *cli.App, args ...string) error {
	app.Name = "app"
	app.Stdout, app.Stderr = io.Discard, io.Discard
	return app.RunContext(context.Background(), append([]string{"app"}, args...))
}

// level is a type of a client
type level int

func (l *level) Set(s string) error {
	*l = level(len(s))
	return nil
}
func (l *level) String() string { return fmt.Sprint(int(*l)) }

// kind is one type of value
type kind func()

// one binds a value of a type at one of the places. There are two texts for values and how
// these show, and how the value shows that isn't given.
func one[T any](typed func(...any) bind.Binder[T], show func(T) string, texts, shows [2]string, none string) kind {
	return func() {
		b := typed
		switch sym.Choose("binder", 3) {
		case 1:
			b = bind.For[T]
		case 2:
			b = bind.Value[T]
		}
		if b == nil {
			b = bind.For[T]
		}
		var got []string
		fn := func(v T) error {
			got = append(got, show(v))
			return nil
		}
		which := sym.Choose("text", 2)
		text, want := texts[which], shows[which]
		given := sym.Bool("given")
		app := &cli.App{
			Flags: []*cli.Flag{{Name: "flag"}, {Name: "o", Value: new(bool)}},
			Args:  []*cli.Arg{{Name: "arg"}},
		}
		var args []string
		place := sym.Choose("place", 6)
		switch place {
		case 0: // the flag itself
			app.Flags[0].Uses = bind.Call(fn, b())
		case 1: // the arg itself
			app.Args[0].Uses = bind.Call(fn, b())
		case 2: // the arg by index
			app.Uses = bind.Call(fn, b())
		case 3: // the arg by name
			app.Uses = bind.Call(fn, b("arg"))
		case 4: // the flag by name
			app.Uses = bind.Call(fn, b("flag"))
		case 5: // another flag
			app.Flags[1].Uses = bind.Call(fn, b("flag"))
		}
		flag := place == 0 || place > 3
		if given {
			if flag {
				if place == 5 && sym.Bool("before") {
					args = append(args, "-o")
				}
				args = append(args, "--flag="+text)
			} else {
				args = append(args, text)
			}
		} else {
			want = none
			if n, ok := any(*new(T)).(*cli.NameValue); ok && n == nil && !flag {
				sym.Assume(false) // such an arg is required
			}
		}
		calls := 1
		if place == 5 {
			if sym.Bool("other") {
				args = append(args, "-o")
			} else if len(args) == 0 || args[0] != "-o" {
				calls = 0
			}
		} else if place < 2 && !given {
			calls = 0
		}
		err := run(app, args...)
		sym.Observe("got", strings.Join(got, "|"))
		sym.Assert(err == nil, "a run fails whose function is bound to a valid value")
		sym.Assert(len(got) == calls, "a bound function isn't called exactly once per run, or exactly if its flag or arg is given")
		sym.Assert(calls == 0 || got[0] == want, "a bound function doesn't get the value that was given")
	}
}

func show[T any](v T) string { return fmt.Sprint(v) }

// HFor binds a value of any type.
func HFor() {
	num := [2]string{"7", "40"}
	kinds := []kind{
		one(bind.String, show[string], [2]string{"a", "b c"}, [2]string{"a", "b c"}, ""),
		one(bind.Int, show[int], num, num, "0"),
		one(bind.Int8, show[int8], num, num, "0"),
		one(bind.Int16, show[int16], num, num, "0"),
		one(bind.Int32, show[int32], num, num, "0"),
		one(bind.Int64, show[int64], num, num, "0"),
		one(bind.Uint, show[uint], num, num, "0"),
		one(bind.Uint8, show[uint8], num, num, "0"),
		one(bind.Uint16, show[uint16], num, num, "0"),
		one(bind.Uint32, show[uint32], num, num, "0"),
		one(bind.Uint64, show[uint64], num, num, "0"),
		one(bind.Float32, show[float32], [2]string{"1.5", "2"}, [2]string{"1.5", "2"}, "0"),
		one(bind.Float64, show[float64], [2]string{"1.5", "2"}, [2]string{"1.5", "2"}, "0"),
		one(bind.Duration, show[time.Duration], [2]string{"3s", "2m"}, [2]string{"3s", "2m0s"}, "0s"),
		one(bind.List, func(v []string) string { return strings.Join(v, "/") }, [2]string{"a,b", "c"}, [2]string{"a/b", "c"}, ""),
		one(bind.Map, func(v map[string]string) string { return fmt.Sprintf("%d %s", len(v), v["k"]) }, [2]string{"k=v", "k=w,l=x"}, [2]string{"1 v", "2 w"}, "0 "),
		one(bind.NameValue, func(v *cli.NameValue) string { return v.Name + "/" + v.Value }, [2]string{"k=v", "k"}, [2]string{"k/v", "k/true"}, "/"),
		one(bind.NameValues, func(v []*cli.NameValue) string {
			var s []string
			for _, e := range v {
				s = append(s, e.Name+"/"+e.Value)
			}
			return strings.Join(s, " ")
		}, [2]string{"k=v", "k=w,l=x"}, [2]string{"k/v", "k/w l/x"}, ""),
		one(bind.File, func(v *cli.File) string { return v.Name }, [2]string{"a", "b"}, [2]string{"a", "b"}, ""),
		one(bind.FileSet, func(v *cli.FileSet) string { return strings.Join(v.Files, " ") }, [2]string{"a", "b"}, [2]string{"a", "b"}, ""),
		one(bind.Bytes, func(v []byte) string { return string(v) }, [2]string{"0a", "ff"}, [2]string{"\n", "\xff"}, ""),
		one(bind.IP, show[net.IP], [2]string{"127.0.0.1", "::1"}, [2]string{"127.0.0.1", "::1"}, "<nil>"),
		one(bind.URL, func(v *url.URL) string {
			if v == nil {
				return "none"
			}
			return v.Host
		}, [2]string{"http://a/", "http://b/"}, [2]string{"a", "b"}, "none"),
		one(bind.Regexp, func(v *regexp.Regexp) string {
			if v == nil {
				return "none"
			}
			return v.String()
		}, [2]string{"a", "b"}, [2]string{"a", "b"}, "none"),
		one(bind.BigInt, func(v *big.Int) string {
			if v == nil {
				return "none"
			}
			return v.String()
		}, num, num, "none"),
		one(bind.Interface, show[any], [2]string{"a", "b"}, [2]string{"a", "b"}, ""),
		one(nil, func(v *level) string { return fmt.Sprint(int(*v)) }, [2]string{"a", "abc"}, [2]string{"1", "3"}, "0"),
	}
	kinds[sym.Choose("type", len(kinds))]()
}

// HBool binds a Boolean value, which differs from others as the flag need not have a value.
func HBool() {
	b := bind.Bool
	switch sym.Choose("binder", 3) {
	case 1:
		b = bind.For[bool]
	case 2:
		b = bind.Value[bool]
	}
	var got []bool
	fn := func(v bool) error {
		got = append(got, v)
		return nil
	}
	f := &cli.Flag{Name: "f"}
	a := &cli.Arg{Name: "a"}
	app := &cli.App{Flags: []*cli.Flag{f}, Args: []*cli.Arg{a}}
	place := sym.Choose("place", 3)
	switch place {
	case 0:
		f.Uses = bind.Call(fn, b())
	case 1:
		a.Uses = bind.Call(fn, b())
	case 2:
		app.Uses = bind.Call(fn, b("f"))
	}
	var args []string
	n := sym.Choose("given", 3)
	want := false
	for i := 0; i < n; i++ {
		if place == 1 {
			want = sym.Bool("value")
			args = append(args, fmt.Sprint(want))
			break
		}
		switch sym.Choose("form", 3) {
		case 0:
			args, want = append(args, "-f"), true
		case 1:
			args, want = append(args, "--f=true"), true
		case 2:
			args, want = append(args, "--f=false"), false
		}
	}
	err := run(app, args...)
	sym.Observe("got", fmt.Sprint(got, err))
	sym.Assert(err == nil, "a run fails whose function is bound to a valid value")
	if n == 0 && place < 2 {
		sym.Assert(len(got) == 0, "a bound function is called for a flag or arg which isn't given")
		return
	}
	sym.Assert(len(got) == 1 && got[0] == want, "a bound function isn't called once with the value that was given")
}

var errBind, errFunc = errors.New("no value"), errors.New("function failed")

// HCall calls functions, actions and evaluators of several parameters.
func HCall() {
	n := 1 + sym.Choose("n", 3)
	var trace []string
	failAt := sym.Choose("fail", 5) // one of the binders, the function, or none
	var vals [3]string
	mk := func(i int) bind.Binder[string] {
		vals[i] = sym.StringN("value", 1, "ab")
		switch sym.Choose("kind", 3) {
		case 0:
			return bind.FromContext(func(context.Context) string {
				trace = append(trace, fmt.Sprint("bind", i))
				return vals[i]
			})
		case 1:
			return bind.Exact(vals[i])
		}
		return bind.Func[string](func(c *cli.Context) (string, error) {
			trace = append(trace, fmt.Sprint("bind", i))
			if failAt == i {
				return "?", errBind
			}
			return vals[i], nil
		})
	}
	var bs []bind.Binder[string]
	fails := false
	var want []string
	for i := 0; i < n; i++ {
		b := mk(i)
		bs = append(bs, b)
		f, isFunc := b.(bind.Func[string])
		_ = f
		_, isExact := b.(interface{ SetName(any) })
		if fails {
			continue
		}
		if !isExact {
			want = append(want, fmt.Sprint("bind", i))
		}
		fails = isFunc && failAt == i
	}
	call := func(a ...string) error {
		trace = append(trace, "call "+strings.Join(a, "/"))
		if failAt == 4 {
			return errFunc
		}
		return nil
	}
	act := func(a ...string) cli.Action {
		trace = append(trace, "make")
		return cli.ActionOf(func() error { return call(a...) })
	}
	ev := func(a ...string) expr.Evaluator {
		trace = append(trace, "make")
		return expr.EvaluatorFunc(func(_ *cli.Context, v any, yield func(any) error) error {
			if err := call(a...); err != nil {
				return err
			}
			return yield(v)
		})
	}
	kind := sym.Choose("form", 3)
	var action cli.Action
	var evaluator expr.Evaluator
	switch kind {
	case 0:
		switch n {
		case 1:
			action = bind.Call(func(a string) error { return call(a) }, bs[0])
		case 2:
			action = bind.Call2(func(a, b string) error { return call(a, b) }, bs[0], bs[1])
		case 3:
			action = bind.Call3(func(a, b, c string) error { return call(a, b, c) }, bs[0], bs[1], bs[2])
		}
	case 1:
		switch n {
		case 1:
			action = bind.Action(func(a string) cli.Action { return act(a) }, bs[0])
		case 2:
			action = bind.Action2(func(a, b string) cli.Action { return act(a, b) }, bs[0], bs[1])
		case 3:
			action = bind.Action3(func(a, b, c string) cli.Action { return act(a, b, c) }, bs[0], bs[1], bs[2])
		}
	case 2:
		switch n {
		case 1:
			evaluator = bind.Evaluator(func(a string) expr.Evaluator { return ev(a) }, bs[0])
		case 2:
			evaluator = bind.Evaluator2(func(a, b string) expr.Evaluator { return ev(a, b) }, bs[0], bs[1])
		case 3:
			evaluator = bind.Evaluator3(func(a, b, c string) expr.Evaluator { return ev(a, b, c) }, bs[0], bs[1], bs[2])
		}
	}
	app := &cli.App{}
	var args []string
	f := &cli.Flag{Name: "f", Value: new(bool)}
	if evaluator != nil {
		ex := &expr.Expression{Exprs: []*expr.Expr{{Name: "x", Evaluate: evaluator}}}
		app.Args = []*cli.Arg{{Name: "w", NArg: 1}, {Name: "e", Value: ex}}
		app.Action = func(c *cli.Context) error { return ex.Evaluate(c, "v") }
		args = []string{"w", "-x"}
	} else {
		switch sym.Choose("place", 4) {
		case 0:
			app.Uses = action
		case 1:
			app.Action = action
		case 2:
			app.Flags, args = []*cli.Flag{f}, []string{"-f"}
			f.Uses = action
		case 3:
			app.Flags, args = []*cli.Flag{f}, []string{"-f"}
			f.Action = action
		}
	}
	if !fails {
		if kind > 0 {
			want = append(want, "make")
		}
		want = append(want, "call "+strings.Join(vals[:n], "/"))
	}
	err := run(app, args...)
	sym.Observe("trace", strings.Join(trace, " "))
	sym.Assert(strings.Join(trace, " ") == strings.Join(want, " "), "a bound function isn't called once with its values in order, or is called though a value can't be bound")
	if fails {
		sym.Assert(errors.Is(err, errBind), "the error of a binder isn't the error of the run")
	} else if failAt == 4 {
		sym.Assert(errors.Is(err, errFunc), "the error of a bound function isn't the error of the run")
	} else {
		sym.Assert(err == nil, "a run fails whose function is bound to valid values")
	}
}

// HOperands binds the operands of expression operators, which come before the args of the
// command of the same index or name.
func HOperands() {
	var got []string
	ev := func(s string) expr.Evaluator {
		return expr.EvaluatorFunc(func(_ *cli.Context, v any, yield func(any) error) error {
			got = append(got, fmt.Sprint(v, " ", s))
			return yield(v)
		})
	}
	name := func(s string) []any {
		if sym.Bool("named") {
			return []any{s}
		}
		return nil
	}
	operand := []string{"n", "w"}[sym.Choose("operand", 2)] // which can be named like the arg
	x := &expr.Expr{Name: "x", Args: []*cli.Arg{{Name: operand, NArg: 1}}}
	x.Evaluate = bind.Evaluator(func(n int) expr.Evaluator { return ev(fmt.Sprint("x", n)) }, bind.Int(name(operand)...))
	y := &expr.Expr{Name: "y", Args: []*cli.Arg{{Name: "a", NArg: 1}, {Name: "b", NArg: 1}}}
	second := bind.Exact(true)
	exact := sym.Bool("exact")
	if !exact {
		second = bind.Bool(name("b")...)
	}
	y.Evaluate = bind.Evaluator2(func(n string, b bool) expr.Evaluator { return ev(fmt.Sprint("y", n, b)) }, bind.String(name("a")...), second)
	ex := &expr.Expression{Exprs: []*expr.Expr{x, y}}
	arg := ""
	app := &cli.App{
		Args: []*cli.Arg{{Name: "w", NArg: 1}, {Name: "e", Value: ex}},
		Action: func(c *cli.Context) error {
			arg = c.String("w")
			return ex.Evaluate(c, "v")
		},
	}
	w := "w" + sym.StringN("arg", 1, "01w")
	args := []string{w}
	n := sym.Choose("n", 3)
	want := ""
	for i := 0; i < n; i++ {
		if sym.Bool("x") {
			d := sym.StringN("digit", 1, "123456789")
			args, want = append(args, "-x", d), want+"v x"+d+","
			continue
		}
		d := sym.StringN("text", 1, "abc")
		b := exact || sym.Bool("bool")
		args, want = append(args, "-y", d, fmt.Sprint(b)), want+"v y"+d+fmt.Sprint(b)+","
	}
	err := run(app, args...)
	sym.Observe("got", fmt.Sprint(got, err))
	sym.Assert(err == nil && arg == w, "an operator that binds its operands changes an arg of the command")
	s := ""
	for _, g := range got {
		s += g + ","
	}
	sym.Assert(s == want, "an operator isn't called with the values of its own operands")
}

// setting is a value that others set
type setting struct {
	values []string
	from   string
}

func (s *setting) Set(v string) error {
	s.from = v
	return nil
}
func (s *setting) String() string { return s.from }
func (s *setting) Text(v string) error {
	s.values = append(s.values, v)
	if v == "!" {
		return errFunc
	}
	return nil
}

type settingKey struct{}

// HIndirect sets other values with what is given, or a fixed value.
func HIndirect() {
	target := &setting{}
	var direct []string
	fixed := sym.Bool("fixed")
	var opt []string
	if fixed {
		opt = []string{sym.StringN("value", 1, "vw")}
	}
	ctx := context.WithValue(context.Background(), settingKey{}, target)
	var act cli.Action
	form := sym.Choose("form", 4)
	switch form {
	case 0:
		act = cli.BindIndirect("target", (*setting).Text, opt...)
	case 1:
		act = bind.Indirect("target", (*setting).Text, opt...)
	case 2:
		act = cli.BindContext(func(c context.Context) *setting { return c.Value(settingKey{}).(*setting) }, (*setting).Text, opt...)
	case 3:
		act = cli.Bind(func(v string) error {
			direct = append(direct, v)
			if v == "!" {
				return errFunc
			}
			return nil
		}, opt...)
	}
	f := &cli.Flag{Name: "f"}
	if sym.Bool("uses") {
		f.Uses = act
	} else {
		sym.Assume(!fixed) // it is Uses that makes such a flag Boolean
		f.Action = act
	}
	ran := false
	app := &cli.App{
		Name: "app", Stdout: io.Discard, Stderr: io.Discard,
		Action: func() { ran = true },
	}
	app.Flags = []*cli.Flag{f}
	tgt := &cli.Flag{Name: "target", Value: target}
	isArg := sym.Bool("arg")
	if isArg {
		app.Args = []*cli.Arg{{Name: "target", Value: target, NArg: 0}}
	} else if sym.Bool("first") {
		app.Flags = []*cli.Flag{tgt, f}
	} else {
		app.Flags = append(app.Flags, tgt)
	}
	args := []string{"app"}
	var want []string
	n := sym.Choose("given", 3)
	for i := 0; i < n; i++ {
		if fixed {
			args, want = append(args, "-f"), opt
			continue
		}
		v := sym.String("text", 1, "vw!")
		args, want = append(args, "--f="+v), []string{v}
	}
	from := ""
	if sym.Bool("set") {
		from = "t"
		if isArg {
			args = append(args, from)
		} else {
			args = append(args, "--target="+from)
		}
	}
	err := app.RunContext(ctx, args)
	got := target.values
	if form == 3 {
		got = direct
	}
	sym.Observe("got", strings.Join(got, "|"))
	sym.Assert(len(got) == len(want) && (len(got) == 0 || got[0] == want[0]), "a bound function isn't called once with the value that was given")
	failed := len(want) > 0 && want[0] == "!"
	sym.Assert(failed == errors.Is(err, errFunc) && failed == (err != nil), "the error of a bound function isn't the error of the run")
	sym.Assert(ran == !failed, "the error of a bound function isn't the error of the run")
	sym.Assert(target.from == from, "setting a value indirectly changes what was given for it")
}

// HRedirect sets another flag or arg with what is given, or a fixed value.
func HRedirect() {
	numbers := sym.Bool("numbers")
	mk := func(fixed string) cli.Action {
		if numbers {
			if fixed == "" {
				return bind.Redirect[int]("t")
			}
			return bind.Redirect("t", int(fixed[0]))
		}
		if fixed == "" {
			return bind.Redirect[string]("t")
		}
		return bind.Redirect("t", fixed)
	}
	x := sym.StringN("x", 1, "123456789")
	app := &cli.App{}
	app.Flags = []*cli.Flag{{Name: "x", Uses: mk(x)}, {Name: "y", Uses: mk("")}}
	isArg := sym.Bool("arg")
	if isArg {
		app.Args = []*cli.Arg{{Name: "t", NArg: 0}}
	} else {
		at := sym.Choose("at", 3)
		fs := append([]*cli.Flag{}, app.Flags[:at]...)
		app.Flags = append(append(fs, &cli.Flag{Name: "t"}), app.Flags[at:]...)
	}
	got := ""
	app.Action = func(c *cli.Context) { got = fmt.Sprint(c.Value("t")) }
	want := ""
	if numbers {
		want = "0"
	}
	var args []string
	if sym.Bool("t") {
		want = sym.StringN("tv", 1, "123456789")
		if isArg {
			args = append(args, want)
		} else {
			args = append(args, "-t"+want)
		}
	}
	last := sym.Bool("reverse") // doesn't matter as the order is that of the definitions
	ys := sym.Choose("ys", 3)
	hasX := sym.Bool("hasX")
	if hasX && !last {
		args = append(args, "-x")
	}
	if hasX {
		want = x
		if numbers {
			want = fmt.Sprint(int(x[0]))
		}
	}
	for i := 0; i < ys; i++ {
		want = sym.StringN("y", 1, "123456789")
		args = append(args, "--y="+want)
	}
	if hasX && last {
		args = append(args, "-x")
	}
	err := run(app, args...)
	sym.Observe("got", got)
	sym.Assert(err == nil, "a flag that sets another one fails")
	sym.Assert(got == want, "a flag that sets another one doesn't set exactly its value")
}

// HAccessory checks accessory flags.
func HAccessory() {
	name := []string{"", "-", "q", "-q"}[sym.Choose("name", 3)]
	cat := []string{"", "c"}[sym.Choose("category", 2)]
	fs := &cli.FileSet{}
	app := &cli.App{}
	isArg := sym.Bool("arg")
	acc := cli.Accessory(name, (*cli.FileSet).RecursiveFlag)
	if isArg {
		app.Args = []*cli.Arg{{Name: "files", Value: fs, Category: cat, Uses: acc}}
	} else {
		app.Flags = []*cli.Flag{{Name: "files", Value: fs, Category: cat, Uses: acc}, {Name: "o", Value: new(bool)}}
	}
	want := name
	switch name {
	case "":
		want = "recursive"
	case "-":
		want = "files-recursive"
	}
	var names []string
	ok := false
	app.Action = func(c *cli.Context) {
		for _, f := range c.LocalFlags() {
			switch f.Name {
			case "help", "version", "zsh-completion", "files", "o":
			default:
				names = append(names, f.Name)
				ok = f.Category == cat && f.Data["DependentFlag"] == "files"
			}
		}
	}
	var args []string
	rec := false
	for i := sym.Choose("n", 3); i > 0; i-- {
		switch sym.Choose("how", 3) {
		case 0:
			args, rec = append(args, "--"+want), true
		case 1:
			args, rec = append(args, "--"+want+"=true"), true
		case 2:
			args, rec = append(args, "--"+want+"=false"), false
		}
	}
	if sym.Bool("files") {
		if isArg {
			args = append(args, "a")
		} else {
			args = append(args, "--files=a")
		}
	}
	err := run(app, args...)
	sym.Observe("names", strings.Join(names, " "))
	sym.Assert(err == nil && fs.Recursive == rec, "an accessory flag doesn't set what it is for")
	sym.Assert(len(names) == 1 && names[0] == want && ok, "an accessory flag isn't added once under its name and the category of its flag or arg")
}
