// Package ctx states what actions do with the context they run in: what they print and read,
// what they assert about it, and which values and elements it gives.
package ctx

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

var errBroken = errors.New("broken")

// sink is a writer which may fail.
type sink struct {
	strings.Builder
	broken bool
}

func (s *sink) Write(p []byte) (int, error) {
	if s.broken {
		return 0, errBroken
	}
	return s.Builder.Write(p)
}

func (s *sink) Fd() uintptr { return 5 }

type named struct{ s string }

func (n named) String() string { return "<" + n.s + ">" }

func operand(s string) any {
	switch sym.Choose("operand", sym.Bound(4, 6)) {
	case 0:
		return s
	case 1:
		return 42
	case 2:
		return named{s}
	case 3:
		return errBroken
	case 4:
		return nil
	}
	return true
}

// HPrint prints in any way to any writer.
func HPrint() {
	var stdout, stderr, other sink
	var ops []any
	for i := sym.Choose("operands", 3); i > 0; i-- {
		ops = append(ops, operand(sym.StringN("text", 1, "")))
	}
	to := sym.Choose("writer", 3)
	how := sym.Choose("how", 3)
	format := ""
	if how == 2 {
		format = []string{"100%%", "a%vb", "%v-%v"}[sym.Choose("format", 3)]
	}
	broken := sym.Bool("broken")

	var w io.Writer
	dst := &stdout
	switch to {
	case 1:
		w, dst = &other, &other
	case 2:
		dst = &stderr
	}
	dst.broken = broken

	var want string
	switch how {
	case 0:
		want = fmt.Sprint(ops...)
	case 1:
		want = fmt.Sprintln(ops...)
	case 2:
		want = fmt.Sprintf(format, ops...)
	}

	var act cli.Action
	asAction := sym.Bool("action")
	var n int
	call := func(f func(c *cli.Context) (int, error)) cli.Action {
		return cli.ActionFunc(func(c *cli.Context) (err error) {
			n, err = f(c)
			return err
		})
	}
	switch {
	case to == 0 && asAction:
		act = []func() cli.Action{
			func() cli.Action { return cli.Print(ops...) },
			func() cli.Action { return cli.Println(ops...) },
			func() cli.Action { return cli.Printf(format, ops...) },
		}[how]()
	case to == 0:
		act = call(func(c *cli.Context) (int, error) {
			switch how {
			case 0:
				return c.Print(ops...)
			case 1:
				return c.Println(ops...)
			}
			return c.Printf(format, ops...)
		})
	case asAction:
		act = []func() cli.Action{
			func() cli.Action { return cli.Fprint(w, ops...) },
			func() cli.Action { return cli.Fprintln(w, ops...) },
			func() cli.Action { return cli.Fprintf(w, format, ops...) },
		}[how]()
	default:
		act = call(func(c *cli.Context) (int, error) {
			switch how {
			case 0:
				return c.Fprint(w, ops...)
			case 1:
				return c.Fprintln(w, ops...)
			}
			return c.Fprintf(w, format, ops...)
		})
	}

	app := &cli.App{Name: "app", Stdout: &stdout, Stderr: &stderr}
	line := []string{"app"}
	times := 1
	switch sym.Choose("place", sym.Bound(2, 4)) {
	case 2:
		app.Action = act
	case 1:
		app.Flags = []*cli.Flag{{Name: "f", Value: cli.Bool(), Action: act}}
		line = append(line, "-f")
	case 3:
		app.Before = act
	case 0:
		app.Commands = []*cli.Command{{Name: "s", Action: act, After: act}}
		line = append(line, "s")
		times = 2
	}
	err := app.RunContext(context.Background(), line)
	if broken {
		// Even an empty text is written
		sym.Assert(errors.Is(err, errBroken), "a failing writer isn't reported")
		sym.Assert(stdout.String() == "" && stderr.String() == "" && other.String() == "", "text goes to another writer")
		sym.Reach("fails")
		return
	}
	sym.Assert(err == nil, "printing fails")
	sym.Assert(asAction || n == len(want), "the number of bytes differs")
	sym.Assert(dst.String() == strings.Repeat(want, times), "the text differs")
	for _, s := range []*sink{&stdout, &stderr, &other} {
		sym.Assert(s == dst || s.String() == "", "text goes to another writer, too")
	}
	sym.Reach("printed")
}

// input is a reader which may be the standard input
type input struct {
	io.Reader
	fd uintptr
}

func (i *input) Fd() uintptr { return i.fd }

// HPrompt asks for lines
func HPrompt() {
	var stdout, stderr sink
	lines := sym.Choose("lines", 3)
	text := ""
	var want string
	for i := range lines {
		s := sym.String("line", 2, "ab \r")
		if i == 0 {
			want = s
		}
		text += s + "\n"
	}
	rest := ""
	if sym.Bool("unterminated") {
		rest = sym.StringN("rest", 1, "ab")
	}
	text += rest
	prompt := sym.String("prompt", 2, "a%\n ")
	var in io.Reader = strings.NewReader(text)
	kind := sym.Choose("kind", 3)
	switch kind {
	case 1:
		in = &input{in, 3}
	case 2:
		in = &input{in, 0}
	}
	password := kind < 2 && sym.Bool("password")
	direct := sym.Bool("direct")

	var got string
	var fail error
	app := &cli.App{Name: "app", Stdin: in, Stdout: &stdout, Stderr: &stderr,
		Action: func(c *cli.Context) {
			switch {
			case direct && password:
				got, fail = cli.ReadPasswordString(c.Stdin)
			case direct:
				got, fail = cli.ReadString(c.Stdin)
			case password:
				got, fail = c.ReadPasswordString(prompt)
			default:
				got, fail = c.ReadString(prompt)
			}
		},
	}
	err := app.RunContext(context.Background(), []string{"app"})
	sym.Assert(err == nil, "the run fails")
	sym.Assert(stdout.String() == "", "stdout is written")
	if direct {
		prompt = ""
	}
	sym.Assert(stderr.String() == prompt, "the prompt differs")
	switch {
	case kind < 2:
		sym.Assert(fail != nil && fail.Error() == "stdin not tty", "another reader is read")
		sym.Assert(got == "", "there is text without stdin")
		b, _ := io.ReadAll(in)
		sym.Assert(string(b) == text, "text is taken from another reader")
		sym.Reach("refused")
	case lines == 0:
		sym.Assert(fail == io.EOF, "the end of the input isn't reported")
		sym.Reach("end")
	default:
		sym.Assert(fail == nil && got == want, "the line differs")
		sym.Reach("read")
	}
}

// described are filters with texts.
type described struct {
	cli.ContextFilter
	text string
}

func (d described) Describe() string { return d.text }

type stringed struct {
	cli.ContextFilter
	text string
}

func (d stringed) String() string { return d.text }

// HAssert asserts about the context of an action
func HAssert() {
	place := sym.Choose("place", 4) // app, command, flag, arg
	timing := sym.Choose("timing", 4)
	given := sym.Bool("given")

	var filter cli.ContextFilter
	var match bool
	desc := ""
	which := sym.Choose("filter", 5)
	text := sym.String("text", 2, "")
	truth := sym.Bool("truth")
	calls := 0
	fn := cli.ContextFilterFunc(func(*cli.Context) bool { calls++; return truth })
	switch which {
	case 0:
		modes := []cli.FilterModes{cli.AnyFlag, cli.AnyArg, cli.AnyCommand, cli.Seen, cli.RootCommand, cli.HasValue, cli.Anything}
		descs := []string{"any flag", "any arg", "any command", "option that has been seen", "root command", "target with value", "anything"}
		k := sym.Choose("mode", len(modes))
		filter, desc = modes[k], descs[k]
		match = []bool{place == 2, place == 3, place < 2, place > 1 && given && timing > 0, place == 0, place > 1, true}[k]
	case 1:
		timings := []cli.Timing{cli.InitialTiming, cli.BeforeTiming, cli.ActionTiming, cli.AfterTiming}
		descs := []string{"initial timing", "before timing", "action timing", "after timing"}
		k := sym.Choose("when", len(timings))
		filter, desc = timings[k], descs[k]
		match = k == timing
	case 2:
		filter, match = fn, truth
	case 3:
		filter, match, desc = described{fn, text}, truth, text
	case 4:
		filter, match, desc = stringed{fn, text}, truth, text
	}

	ran := 0
	var inner error
	if sym.Bool("fails") {
		inner = errBroken
	}
	var act cli.Action = cli.ActionFunc(func(*cli.Context) error { ran++; return inner })
	silent := sym.Bool("if match")
	if silent {
		act = cli.IfMatch(filter, act)
	} else {
		act = cli.Assert(filter, act)
	}
	reached := 0
	act = cli.Pipeline(cli.ActionFunc(func(*cli.Context) error { reached++; return nil }), act)

	sub := &cli.Command{Name: "s", Action: func() {}}
	flag := &cli.Flag{Name: "f", Value: cli.Bool()}
	arg := &cli.Arg{Name: "x", Value: cli.String(), NArg: 0}
	app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard, Action: func() {}}
	line := []string{"app"}
	path := "app"
	switch place {
	case 0:
		[]func(){
			func() { app.Uses = act }, func() { app.Before = act }, func() { app.Action = act }, func() { app.After = act },
		}[timing]()
	case 1:
		app.Commands = []*cli.Command{sub}
		line, path = append(line, "s"), "app s"
		[]func(){
			func() { sub.Uses = act }, func() { sub.Before = act }, func() { sub.Action = act }, func() { sub.After = act },
		}[timing]()
	case 2:
		app.Flags = []*cli.Flag{flag}
		path = "app -f"
		if given {
			line = append(line, "-f")
		}
		[]func(){
			func() { flag.Uses = act }, func() { flag.Before = act }, func() { flag.Action = act }, func() { flag.After = act },
		}[timing]()
	case 3:
		app.Args = []*cli.Arg{arg}
		path = "app <x>"
		if given {
			line = append(line, "v")
		}
		[]func(){
			func() { arg.Uses = act }, func() { arg.Before = act }, func() { arg.Action = act }, func() { arg.After = act },
		}[timing]()
	}
	err := app.RunContext(context.Background(), line)
	if reached == 0 {
		sym.Assert(place > 1 && !given && timing == 2, "the action isn't reached")
		sym.Assert(err == nil && ran == 0, "what isn't reached has an effect")
		sym.Reach("unused")
		return
	}
	sym.Assert(reached == 1, "the action is reached again")
	sym.Assert(calls <= 1, "the filter is asked again")
	switch {
	case match:
		sym.Assert(ran == 1, "what matches doesn't run once")
		sym.Assert(errors.Is(err, inner) && (err == nil) == (inner == nil), "the error of the action differs")
		sym.Reach("matches")
	case silent:
		sym.Assert(ran == 0 && err == nil, "what doesn't match has an effect")
		sym.Reach("skipped")
	default:
		sym.Assert(ran == 0, "an action runs though what it asserts is wrong")
		sym.Assert(err != nil, "a wrong assertion isn't an error")
		if desc == "" {
			sym.Reach("no text")
			return
		}
		var internal *cli.InternalError
		sym.Assert(errors.As(err, &internal), "a wrong assertion isn't an internal error")
		sym.Assert(internal.Path.String() == path, "the path of a wrong assertion differs")
		sym.Assert(internal.Timing == []cli.Timing{cli.InitialTiming, cli.BeforeTiming, cli.ActionTiming, cli.AfterTiming}[timing], "the timing of a wrong assertion differs")
		sym.Assert(internal.Err.Error() == "context must be "+desc, "the text of a wrong assertion differs")
		sym.Reach("wrong")
	}
}
