package errs

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

// HEnum validates that values are among those listed.
func HEnum() {
	n := 1 + sym.Choose("n", 4)
	var opts []string
	for i := 0; i < n; i++ {
		opts = append(opts, []string{"a", "b%d", "cc", "a,b"}[i])
	}
	list := sym.Bool("list")
	isArg := sym.Bool("arg")
	ran := false
	var v any
	if list {
		v = cli.List()
	}
	enum := cli.Enum(opts...)
	var usage string
	app := &cli.App{
		Name: "app", Stdout: io.Discard, Stderr: io.Discard,
		Action: func() { ran = true },
	}
	name := "--flag"
	if isArg {
		name = "<arg>"
		app.Args = []*cli.Arg{{Name: "arg", Value: v, Uses: enum, NArg: -2}}
	} else {
		app.Flags = []*cli.Flag{{Name: "flag", Value: v, Uses: enum}}
	}
	args := []string{"app"}
	bad := ""
	ok := true
	most := sym.Bound(3, 4)
	for i := sym.Choose("values", 3); i > 0; i-- {
		t := sym.String("value", most, "abc%d,")
		most = sym.Bound(1, 3)
		found := false
		for _, o := range opts {
			found = found || t == o
		}
		if !found && ok {
			ok, bad = false, t
		}
		if isArg {
			args = append(args, t)
		} else {
			args = append(args, "--flag="+t)
		}
	}
	_ = usage
	err := app.RunContext(context.Background(), args)
	sym.Observe("err", fmt.Sprint(err))
	sym.Assert(ran == ok && ok == (err == nil), "a run doesn't execute exactly if all values are among those listed")
	if !ok {
		var pe *cli.ParseError
		sym.Assert(errors.As(err, &pe) && pe.Code == cli.InvalidArgument, "a value that isn't listed isn't refused as invalid")
		s := err.Error()
		sym.Assert(strings.Contains(s, fmt.Sprintf("%q", bad)) && strings.Contains(s, name), "the error for a value that isn't listed doesn't have the value and the name")
		for _, o := range opts {
			sym.Assert(strings.Contains(s, o), "the error for a value that isn't listed doesn't have those listed")
		}
	}
}

// HMutex validates that flags and args are not used together.
func HMutex() {
	ran := false
	// the names that exclude each other can be names or aliases
	by := [][2]string{{"a", "along"}, {"b", "blong"}, {"clong", "c"}}
	alias := sym.Choose("name", 2)
	var flags []*cli.Flag
	var group [3][]int // what the flag excludes
	for i, names := range by {
		f := &cli.Flag{Name: names[0], Aliases: []string{names[1]}, Value: new(bool)}
		var ex []string
		for j := range by {
			if i != j && sym.Bool("excludes") {
				group[i] = append(group[i], j)
				ex = append(ex, by[j][(alias+i*sym.Tier())%2])
			}
		}
		if ex != nil {
			f.Uses = cli.Mutex(ex...)
		}
		flags = append(flags, f)
	}
	app := &cli.App{
		Name: "app", Stdout: io.Discard, Stderr: io.Discard, Flags: flags,
		Action: func() { ran = true },
	}
	args := []string{"app"}
	var used [3]bool
	for i, names := range by {
		switch sym.Choose("use", 3) {
		case 1:
			args, used[i] = append(args, dashes(names[0])), true
		case 2:
			args, used[i] = append(args, dashes(names[1])), true
		}
	}
	bad := -1
	for i := range by {
		for _, j := range group[i] {
			if used[i] && used[j] && bad < 0 {
				bad = i
			}
		}
	}
	err := app.RunContext(context.Background(), args)
	sym.Observe("err", fmt.Sprint(err))
	sym.Assert(ran == (bad < 0) && ran == (err == nil), "a run doesn't execute exactly if no flags are used that exclude each other")
	if bad >= 0 {
		has := func(i int) bool {
			for _, f := range strings.FieldsFunc(err.Error(), func(r rune) bool { return r == ' ' || r == ',' }) {
				if f == dashes(by[i][0]) || f == dashes(by[i][1]) {
					return true
				}
			}
			return false
		}
		sym.Assert(has(bad), "the error for flags that exclude each other doesn't have their names")
		for j := range by {
			in := false
			for _, k := range group[bad] {
				in = in || k == j
			}
			sym.Assert(j == bad || has(j) == (in && used[j]), "the error for flags that exclude each other doesn't have their names")
		}
	}
}

func dashes(s string) string {
	if len(s) == 1 {
		return "-" + s
	}
	return "--" + s
}

// HRequired checks flags and args that are required.
func HRequired() {
	ran, global := false, 0
	type req struct {
		name  string
		given []string
		used  bool
	}
	var reqs []*req
	app := &cli.App{
		Name: "app", Stdout: io.Discard, Stderr: io.Discard,
	}
	mk := func(name string, aliases ...string) *cli.Flag {
		f := &cli.Flag{Name: name, Aliases: aliases, Action: func() { global++ }}
		if sym.Bool("required") {
			f.Options = cli.Required
		}
		return f
	}
	uses := func(names ...string) []string {
		switch sym.Choose("use", 1+2*len(names)) {
		case 1:
			return []string{dashes(names[0]), "v"}
		case 2:
			return []string{dashes(names[0]) + "="}
		case 3:
			return []string{dashes(names[1]), "v"}
		case 4:
			return []string{dashes(names[1]) + "=v"}
		}
		return nil
	}
	_ = reqs
	f := mk("flag", "f")
	app.Flags = []*cli.Flag{f}
	arg := &cli.Arg{Name: "arg", NArg: 0}
	argRequired := sym.Bool("argRequired")
	if argRequired {
		arg.Options = cli.Required
	}
	act := cli.ActionOf(func() { ran = true })
	sub := sym.Bool("sub")
	var g *cli.Flag
	if sub {
		g = mk("gg")
		app.Commands = []*cli.Command{{Name: "sub", Flags: []*cli.Flag{g}, Args: []*cli.Arg{arg}, Action: act}}
	} else {
		app.Args, app.Action = []*cli.Arg{arg}, act
	}
	args := []string{"app"}
	fUsed, gUsed, inSub := false, false, false
	if fw := uses("flag", "f"); fw != nil {
		sym.Assume(fw[0] != "-f=")
		args, fUsed = append(args, fw...), true
	}
	if sub {
		args = append(args, "sub")
		if !fUsed && sym.Bool("after") {
			args, fUsed, inSub = append(args, "--flag=v"), true, true
		}
		if gw := uses("gg"); gw != nil {
			args, gUsed = append(args, gw...), true
		}
	}
	argUsed := sym.Bool("arg")
	if argUsed {
		args = append(args, sym.StringN("text", 1, "xy"))
	}
	missing := ""
	switch {
	case f.Options&cli.Required != 0 && !fUsed:
		missing = "-f"
	case sub && g.Options&cli.Required != 0 && !gUsed:
		missing = "--gg"
	case argRequired && !argUsed:
		missing = "<arg>"
	}
	if inSub && f.Options&cli.Required != 0 {
		sym.Known("inherited")
	}
	err := app.RunContext(context.Background(), args)
	sym.Observe("err", fmt.Sprint(err))
	sym.Assert(ran == (missing == "") && ran == (err == nil), "a run doesn't execute exactly if all that is required is given")
	if missing != "" {
		var pe *cli.ParseError
		sym.Assert(errors.As(err, &pe) && pe.Code == cli.ExpectedRequiredOption, "what is required is not reported as such")
		sym.Assert(strings.Contains(err.Error(), missing), "the error for what is required does not have its name")
		sym.Assert(missing != "-f" || global == 0, "actions run though something is missing")
	}
}

// HExits uses flags like --help without what is required.
func HExits() {
	trace := ""
	f := &cli.Flag{Name: "f", Options: cli.Required}
	arg := &cli.Arg{Name: "arg", NArg: 1}
	act := cli.ActionOf(func() { trace += "ran " })
	exits := &cli.Flag{Name: "exits", Aliases: []string{"x"}, Value: new(bool), Options: cli.Exits, Action: func() { trace += "exits " }}
	app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard, Flags: []*cli.Flag{exits}}
	sub := sym.Bool("sub")
	args := []string{"app"}
	if sub {
		app.Commands = []*cli.Command{{Name: "sub", Flags: []*cli.Flag{f}, Args: []*cli.Arg{arg}, Action: act}}
		args = append(args, "sub")
	} else {
		app.Flags = append(app.Flags, f)
		app.Args, app.Action = []*cli.Arg{arg}, act
	}
	var rest []string
	fUsed, aUsed, xUsed := sym.Bool("f"), sym.Bool("arg"), sym.Choose("exits", 3)
	if fUsed {
		rest = append(rest, "-fv")
	}
	at := 0
	if aUsed {
		rest = append(rest, "a")
		at = len(rest)
	}
	if xUsed > 0 {
		x := []string{"-x", "--exits"}[xUsed-1]
		at = sym.Choose("at", len(rest)+1)
		rest = append(append(append([]string{}, rest[:at]...), x), rest[at:]...)
	}
	err := app.RunContext(context.Background(), append(args, rest...))
	sym.Observe("trace", trace+fmt.Sprint(err))
	switch {
	case xUsed > 0:
		var ec cli.ExitCoder
		sym.Assert(errors.As(err, &ec) && ec.ExitCode() == 0 && trace == "exits ", "a flag that exits doesn't run and exit with success, whatever else is missing")
	case fUsed && aUsed:
		sym.Assert(err == nil && trace == "ran ", "a run doesn't execute exactly if all that is required is given")
	default:
		sym.Assert(err != nil && trace == "", "a run doesn't execute exactly if all that is required is given")
	}
}

// HValidators runs validators of several flags and args.
func HValidators() {
	var trace, want []string
	failAt := sym.Choose("fail", 5)
	errs := errors.New("not valid")
	val := func(i int) cli.Action {
		return cli.ValidatorFunc(func(s []string) error {
			trace = append(trace, fmt.Sprint("validate", i, " ", strings.Join(s, "/")))
			if failAt == i {
				return errs
			}
			return nil
		})
	}
	step := func(s string) cli.Action { return cli.ActionOf(func() { trace = append(trace, s) }) }
	names := []string{"--ff", "--gg", "<a>", "<b>"}
	app := &cli.App{
		Name: "app", Stdout: io.Discard, Stderr: io.Discard,
		Flags: []*cli.Flag{
			{Name: "ff", Uses: val(0), Before: step("before0"), Action: step("action0")},
			{Name: "gg", Value: new([]string), Before: step("before1"), Uses: val(1), Action: step("action1")},
		},
		Args: []*cli.Arg{
			{Name: "a", NArg: 1, Uses: val(2), Before: step("before2"), Action: step("action2")},
			{Name: "b", NArg: -2, Before: step("before3"), Uses: val(3), Action: step("action3")},
		},
		Action: step("run"),
	}
	args := []string{"app"}
	var occ [4][]string
	for i := 0; i < 2; i++ {
		for j := sym.Choose("occurs", 3); j > 0; j-- {
			t := sym.StringN("value", 1, "ab,")
			args, occ[i] = append(args, names[i]+"="+t), append(occ[i], t)
		}
	}
	t := sym.StringN("value", 1, "ab,")
	args, occ[2] = append(args, t), []string{t}
	for j := sym.Choose("occurs", 3); j > 0; j-- {
		t := sym.StringN("value", 1, "ab,")
		args, occ[3] = append(args, t), append(occ[3], t)
	}
	failed := false
	for i := 0; i < 4 && !failed; i++ {
		want = append(want, fmt.Sprint("validate", i, " ", strings.Join(occ[i], "/")))
		if failed = failAt == i; !failed {
			want = append(want, fmt.Sprint("before", i))
		}
	}
	if !failed {
		for i := 0; i < 4; i++ {
			if len(occ[i]) > 0 {
				want = append(want, fmt.Sprint("action", i))
			}
		}
		want = append(want, "run")
	}
	err := app.RunContext(context.Background(), args)
	sym.Observe("trace", strings.Join(trace, ";"))
	sym.Assert(strings.Join(trace, ";") == strings.Join(want, ";"), "validators don't run once each with the values as given before anything else of their flag or arg")
	sym.Assert(failed == (err != nil) && failed == errors.Is(err, errs), "the error of a validator isn't the error of the run")
	if failed {
		var pe *cli.ParseError
		sym.Assert(errors.As(err, &pe) && pe.Name == names[failAt], "the error of a validator doesn't have the name of its flag or arg")
	}
}
