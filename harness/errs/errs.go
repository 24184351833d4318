// Package errs checks errors, exit status and validation.
package errs

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

type status int

func (s status) Error() string { return "status" }
func (s status) ExitCode() int { return int(s) }

// HExit makes errors from arbitrary operands.
func HExit() {
	n := sym.Choose("n", 4)
	var args []any
	for i := 0; i < n; i++ {
		switch sym.Choose("kind", 7) {
		case 0:
			args = append(args, sym.String("text", 2, "a %d"))
		case 1:
			args = append(args, []int{0, 1, 3, -1}[sym.Choose("int", 4)])
		case 2:
			args = append(args, []cli.ErrorCode{cli.UnexpectedArgument, cli.CommandNotFound}[sym.Choose("code", 2)])
		case 3:
			args = append(args, status(7))
		case 4:
			args = append(args, nil)
		case 5:
			args = append(args, errors.New("err"))
		case 6:
			args = append(args, true)
		}
	}
	err := cli.Exit(args...)
	sym.Observe("err", fmt.Sprint(err.Error(), " ", err.ExitCode()))
	code, text := 1, args
	prefix := ""
	if n > 0 {
		switch last := args[n-1].(type) {
		case int:
			code, text = last, args[:n-1]
		case cli.ErrorCode:
			code, text = 2, args[:n-1]
			prefix = []string{"unexpected argument", "is not a command"}[last]
			if n > 1 {
				prefix += ": "
			}
		case status:
			if n == 1 {
				code, prefix, text = 7, "status", nil
			}
		case nil:
			if n == 1 {
				text = nil
			}
		}
	}
	want := prefix + fmt.Sprint(text...)
	if want == "" {
		want = fmt.Sprint("exited with status ", code)
	}
	sym.Assert(err.ExitCode() == code, "Exit doesn't have the exit status of its last operand")
	sym.Assert(err.Error() == want, "Exit doesn't have the text of its operands")
}

// HRun runs an app that fails anywhere.
func HRun() {
	var orig error
	code := 1
	text := sym.String("text", 2, "a %d")
	kind := sym.Choose("kind", 8)
	switch kind {
	case 1:
		orig = errors.New(text)
	case 2:
		code = []int{0, 1, 3}[sym.Choose("code", 3)]
		orig = cli.Exit(text, code)
	case 3:
		code = 4
		orig = fmt.Errorf("p %s: %w", text, cli.Exit("x", 4))
	case 4:
		code = 2
		orig = &cli.ParseError{Code: cli.InvalidArgument, Err: errors.New(text)}
	case 5:
		code = 2
		orig = &cli.ParseError{Code: cli.UnknownOption}
	case 6:
		orig = cli.Exit(text)
	case 7:
		code = 5
		orig = errors.Join(errors.New(text), status(5))
	}
	stage := sym.Choose("stage", 10)
	ran := 0
	mk := func() *cli.App {
		at := func(i int) cli.Action {
			return cli.ActionOf(func() error {
				if stage == i {
					ran++
					return orig
				}
				return nil
			})
		}
		f := &cli.Flag{Name: "f", Uses: cli.Pipeline(at(0), cli.At(cli.ValidatorTiming, at(1))), Before: at(2), Action: at(3), After: at(4)}
		sub := &cli.Command{Name: "sub", Before: at(5), Action: at(6), After: at(7)}
		return &cli.App{
			Name: "app", Stdout: io.Discard, Stderr: io.Discard,
			Flags: []*cli.Flag{f}, Commands: []*cli.Command{sub}, Before: at(8), After: at(9),
		}
	}
	args := []string{"app", "-f", "1", "sub"}
	err := mk().RunContext(context.Background(), args)
	sym.Assert(ran == 1, "the part of an app that fails isn't run once")
	sym.Assert((err == nil) == (orig == nil) && errors.Is(err, orig), "the error of a run isn't the one that occurred")
	old := cli.ExitHandler
	defer func() { cli.ExitHandler = old }()
	calls, msg, st := 0, "", -1
	cli.ExitHandler = func(c *cli.Context, m string, s int) {
		calls, msg, st = calls+1, m, s
		if c == nil || c.App() == nil {
			calls = 100
		}
	}
	mk().Run(args)
	sym.Observe("exit", fmt.Sprint(calls, " ", msg, " ", st))
	if orig == nil {
		sym.Assert(calls == 0, "a run that succeeds is reported as an error")
		return
	}
	sym.Assert(calls == 1, "an error isn't reported exactly once")
	sym.Assert(st == code, "an error isn't reported with its exit status")
	sym.Assert(msg == err.Error() && (stage == 0 || msg == orig.Error()), "an error isn't reported with its text")
}

// HKinds checks what is told about each kind of usage error.
func HKinds() {
	ran := false
	act := cli.ActionOf(func() { ran = true })
	names := [][]string{{"n"}, {"num"}, {"n", "num"}, {"num", "n"}}[sym.Choose("names", 4)]
	mk := func() *cli.App {
		return &cli.App{
			Name: "app", Stdout: io.Discard, Stderr: io.Discard,
			Flags:  []*cli.Flag{{Name: names[0], Aliases: names[1:], Value: new(int), Action: act}, {Name: "v", Aliases: []string{"verb"}, Value: new(bool), Action: act}},
			Action: act,
		}
	}
	used := names[sym.Choose("used", len(names))]
	dashed := func(s string) string {
		if len(s) == 1 {
			return "-" + s
		}
		return "--" + s
	}
	opt := dashed(used)
	app := mk()
	var args []string
	code, name, value := cli.ErrorCode(0), "", ""
	kind := sym.Choose("kind", 8)
	switch kind {
	case 0: // a value that isn't a number
		value = sym.String("value", 2, "a1%-")
		sym.Assume(!isNumber(value))
		code, name = cli.InvalidArgument, opt
		sep := sym.Bool("separate") && value != "" && value[0] != '-'
		if sep {
			args = []string{opt, value}
		} else {
			sym.Assume(len(used) > 1 || value != "")
			args = []string{opt + "=" + value}
			if len(used) == 1 && sym.Bool("short") {
				args = []string{opt + value}
				sym.Assume(value[0] != '=')
			} else if len(used) == 1 {
				args = []string{"--" + used + "=" + value}
				name = "--" + used
			}
		}
	case 1: // no value, which can be about the flag by another name
		code, name = cli.ExpectedArgument, opt
		if len(used) == 1 {
			name = dashed(names[0])
		}
		args = []string{opt}
	case 2: // unknown flag
		x := sym.StringN("unknown", 1+sym.Choose("len", 2), "xyz%")
		code, name = cli.UnknownOption, dashed(x)
		args = []string{dashed(x)}
		if sym.Bool("cluster") {
			args, name = []string{"-v" + x}, "-"+x[:1]
		} else if len(x) > 1 && sym.Bool("with") {
			args[0] += "=" + sym.String("value", 1, "a")
		}
	case 3: // excess operand
		value = sym.StringN("operand", 1+sym.Choose("len", 2), "xy%")
		code = cli.UnexpectedArgument
		args = []string{value}
	case 4: // required flag
		app.Flags[0].Options = cli.Required
		code, name = cli.ExpectedRequiredOption, ""
		if sym.Bool("v") {
			args = []string{"-v"}
		}
	case 5: // unknown command
		value = sym.StringN("operand", 1+sym.Choose("len", 2), "xy%")
		app.Commands = []*cli.Command{{Name: "sub", Action: act}}
		code, name, value = cli.CommandNotFound, value, ""
		args = []string{name}
	case 6: // a flag after the args
		app.Args = []*cli.Arg{{Name: "a", NArg: -2}}
		app.Options = cli.DisallowFlagsAfterArgs
		code, name = cli.FlagUsedAfterArgs, opt
		args = []string{"a", "b", opt + "1"}
		if len(used) > 1 {
			args[2] = opt + "=1"
		}
	case 7: // an arg that isn't a number
		value = sym.String("value", 2, "a1%")
		sym.Assume(!isNumber(value) && value != "")
		app.Args = []*cli.Arg{{Name: "a", Value: new(int)}}
		code, name = cli.InvalidArgument, "<a>"
		args = []string{value}
	}
	if kind != 4 && kind != 1 && sym.Bool("also") {
		args = append([]string{"-v"}, args...)
	}
	err := app.RunContext(context.Background(), append([]string{"app"}, args...))
	sym.Observe("err", fmt.Sprint(err))
	var pe *cli.ParseError
	sym.Assert(err != nil && (!ran || kind == 5), "a run with a usage error runs actions")
	sym.Assert(errors.As(err, &pe) && pe.ExitCode() == 2 && pe.Code == code, "a usage error isn't a parse error of its kind")
	sym.Assert(name == "" || pe.Name == name, "a usage error doesn't have the name that it is about")
	sym.Assert(value == "" || pe.Value == value || kind == 3 && pe.Value == value, "a usage error doesn't have the value that it is about")
	if name != "" && kind != 0 && kind != 7 {
		sym.Assert(strings.Contains(err.Error(), name), "the text of a usage error doesn't have the name that it is about")
	} else if kind == 4 {
		sym.Assert(strings.Contains(err.Error(), dashed(names[0])) || len(names) > 1 && strings.Contains(err.Error(), dashed(names[1])), "the text of a usage error doesn't have the name that it is about")
	}
	sym.Assert(value == "" || strings.Contains(err.Error(), value), "the text of a usage error doesn't have the value that it is about")
}

func isNumber(s string) bool {
	if len(s) > 1 && (s[0] == '-' || s[0] == '+') {
		s = s[1:]
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return s != ""
}
