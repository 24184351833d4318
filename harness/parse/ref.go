package parse

import (
	"context"
	"fmt"
	"io"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

// The reference parser: the command line syntax as documented, written independently.

type ref struct {
	kinds   []int // NArg of each positional arg
	strict  bool  // the flag value counter refuses values that look like flags
	noAfter bool  // flags may not follow args

	out  map[string][][]string
	toks []string
	i    int
	only bool // after --
	p    int  // current positional
	cnt  int  // values it has
	any  bool // a second positional has been considered
	err  string
	name string
	rem  []string
}

func flagish(t string) bool { return len(t) > 1 && t[0] == '-' }

func (r *ref) add(n string, o ...string) { r.out[n] = append(r.out[n], o) }

func (r *ref) fail(err string, name string, rem []string) bool {
	r.err, r.name, r.rem = err, name, rem
	return false
}

// satisfied reports whether the current positional arg has enough values.
func (r *ref) satisfied() bool {
	return r.p >= len(r.kinds) || r.kinds[r.p] <= 0 || r.cnt == r.kinds[r.p]
}

// offer gives a token to the positional args: taken, refused, or it could be a flag instead.
func (r *ref) offer(t string) (taken bool) {
	maybeFlag := !r.only && flagish(t)
	for r.p < len(r.kinds) {
		k := r.kinds[r.p]
		full := k > 0 && r.cnt == k || k == 0 && r.cnt == 1 || k == -2 && maybeFlag
		if !full {
			if maybeFlag && k != -1 {
				return false
			}
			r.cnt++
			return true
		}
		r.p++
		r.cnt = 0
	}
	return false
}

func (r *ref) run() bool {
	for r.i < len(r.toks) {
		t := r.toks[r.i]
		if r.only || !flagish(t) {
			if !r.positionals() {
				return false
			}
			continue
		}
		if !r.flag() {
			return false
		}
	}
	first := true
	for ; r.p < len(r.kinds) || first; r.p++ {
		if !r.satisfied() {
			n := ""
			if !first {
				n = "<" + pname[r.p] + ">"
			}
			return r.fail("expected", n, nil)
		}
		r.cnt = 0
		first = false
	}
	return true
}

// positionals consumes tokens for args until one must be treated as a flag.
func (r *ref) positionals() bool {
	for start := true; r.i < len(r.toks); start = false {
		t := r.toks[r.i]
		if !start {
			r.any = true
		}
		// the last arg takes all there is if it takes the rest
		last := r.p == len(r.kinds)-1 && r.kinds[r.p] == -1
		if t == "--" && !last {
			r.only = true
			r.i++
			if !r.satisfied() {
				return r.fail("expected", "", nil)
			}
			r.p++
			r.cnt = 0
			return true
		}
		if !r.offer(t) {
			if !r.only && flagish(t) {
				return true
			}
			return r.fail("unexpected", "", r.toks[r.i:])
		}
		r.add(pname[r.p], "<"+pname[r.p]+">", t)
		r.i++
	}
	if !r.satisfied() {
		return r.fail("expected", "<"+pname[r.p]+">", nil)
	}
	return true
}

func spell(n string) string {
	if len(n) == 1 {
		return "-" + n
	}
	return "--" + n
}

// values takes the separate tokens that follow a flag.
func (r *ref) values(n string) ([]string, bool) {
	lo := r.i
	switch n {
	case "ss":
		if r.i == len(r.toks) || r.strict && flagish(r.toks[r.i]) {
			return nil, false
		}
		r.i++
	case "l":
		for r.i < len(r.toks) && !flagish(r.toks[r.i]) {
			r.i++
		}
	case "oo":
		if r.i < len(r.toks) && !flagish(r.toks[r.i]) {
			r.i++
		}
	}
	if lo == r.i {
		return []string{""}, true
	}
	return r.toks[lo:r.i], true
}

func (r *ref) flag() bool {
	t := r.toks[r.i]
	r.i++
	if t == "--" {
		r.only = true
		return true
	}
	if t[:2] == "--" {
		name, value, eq := t[2:], "", false
		for i := 2; i < len(t); i++ {
			if t[i] == '=' {
				name, value, eq = t[2:i], t[i+1:], true
				break
			}
		}
		n := canon(name)
		if n == "" {
			return r.fail("unknown", spell(name), r.toks[r.i-1:])
		}
		if r.noAfter && r.any {
			return r.fail("after", spell(name), nil)
		}
		if eq {
			r.add(n, "--"+name, value)
			return true
		}
		at := r.i
		vs, ok := r.values(n)
		if !ok {
			return r.fail("expected", spell(name), r.toks[at-1:])
		}
		r.add(n, append([]string{spell(name)}, vs...)...)
		return true
	}
	if r.noAfter && r.any {
		return r.fail("after", spell(t[1:2]), nil)
	}
	for c := t[1:]; c != ""; c = c[1:] {
		s := "-" + c[:1]
		n := canon(c[:1])
		rem := append([]string{"-" + c}, r.toks[r.i:]...)
		if n == "" {
			if s == "--" {
				s = "-" // as the message puts it
			}
			return r.fail("unknown", s, rem)
		}
		if len(c) > 1 && !isBool(n) {
			r.add(n, s, c[1:])
			return true
		}
		if len(c) > 1 {
			if c[1] == '=' {
				return r.fail("invalid", s, rem)
			}
			r.add(n, s, "")
			continue
		}
		if n == "oo" {
			r.add(n, s, "")
			continue
		}
		vs, ok := r.values(n)
		if !ok {
			return r.fail("expected", spell(n), rem)
		}
		r.add(n, append([]string{s}, vs...)...)
	}
	return true
}

var codes = map[string]cli.ErrorCode{
	"unknown":    cli.UnknownOption,
	"unexpected": cli.UnexpectedArgument,
	"expected":   cli.ExpectedArgument,
	"invalid":    cli.InvalidArgument,
	"after":      cli.FlagUsedAfterArgs,
}

func sameList(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameOccurs(a, b [][]string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameList(a[i], b[i]) {
			return false
		}
	}
	return true
}

var allNames = []string{"aa", "b", "ss", "l", "oo", "p0", "p1", "p2"}

func kindsOf(lay int) []int {
	var ks []int
	for _, n := range layouts[lay] {
		if n == nil {
			n = 0
		}
		ks = append(ks, n.(int))
	}
	return ks
}

func compare(r *ref, m cli.BindingMap, err error) {
	ok := r.run()
	observe(m, err)
	if ok {
		sym.Reach("ok")
		sym.Assert(err == nil, "a valid command line is refused")
	} else {
		sym.Reach("err " + r.err)
		pe, isPE := err.(*cli.ParseError)
		sym.Assert(isPE, "an invalid command line is accepted")
		if isPE {
			sym.Assert(pe.Code == codes[r.err], "the error has the wrong code")
			sym.Assert(pe.Name == r.name, "the error names the wrong flag or arg")
			sym.Assert(sameList(pe.Remaining, r.rem), "the error reports the wrong remaining arguments")
		}
	}
	for _, n := range allNames {
		sym.Assert(sameOccurs(m[n], r.out[n]), "wrong occurrences of a flag or arg")
	}
	for n := range m {
		sym.Assert(n == "" || r.out[n] != nil, "occurrences of an unknown flag or arg")
	}
}

// HSyntax compares every layout with the reference, without program name.
func HSyntax() {
	lay := sym.Choose("layout", len(layouts))
	noAfter := sym.Choose("mode", 2) == 1
	argv := argvOf(sym.Bound(2, 3), sym.Bound(4, 3))
	mode := cli.RawParseFlag(0)
	if noAfter {
		mode = cli.RawDisallowFlagsAfterArgs
	}
	if len(argv) == 0 {
		return
	}
	m, err := cli.RawParse(argv, newBinding(lay), mode)
	compare(&ref{kinds: kindsOf(lay), strict: true, noAfter: noAfter, out: map[string][][]string{}, toks: argv}, m, err)
}

// HSyntax3 takes longer command lines over a smaller alphabet.
func HSyntax3() {
	lay := []int{0, 7, 9, 12}[sym.Choose("layout", 4)]
	var argv []string
	for i := 0; i < 4; i++ {
		argv = append(argv, sym.String(fmt.Sprint("t", i), 2, "-asx"))
	}
	m, err := cli.RawParse(argv, newBinding(lay), 0)
	compare(&ref{kinds: kindsOf(lay), strict: true, out: map[string][][]string{}, toks: argv}, m, err)
}

// HReal uses the binding that the library makes from flags and args, with a program name.
func HReal() {
	lay := []int{0, 3, 9}[sym.Choose("layout", 3)]
	argv := argvOf(2, sym.Bound(3, 4))
	var args []*cli.Arg
	for j, n := range layouts[lay] {
		args = append(args, &cli.Arg{Name: pname[j], NArg: n})
	}
	app := &cli.App{
		Name: "app", Stderr: io.Discard, Stdout: io.Discard,
		Flags: []*cli.Flag{
			{Name: "aa", Aliases: []string{"a"}, Value: new(bool)},
			{Name: "b", Aliases: []string{"bb"}, Value: new(bool)},
			{Name: "ss", Aliases: []string{"s"}, Value: new(string)},
			{Name: "l", Aliases: []string{"ll"}, Value: new([]string)},
			{Name: "oo", Aliases: []string{"o"}, Value: new(int), Options: cli.Optional},
		},
		Args: args,
	}
	ctx, err := app.Initialize(context.Background())
	if err != nil {
		panic(err)
	}
	cmd := cli.FromContext(ctx).Command()
	b := cli.NewBinding(cmd.Flags, cmd.Args, nil)
	m, err := cli.RawParse(append([]string{"-b"}, argv...), b, cli.RawSkipProgramName)
	compare(&ref{kinds: kindsOf(lay), out: map[string][][]string{}, toks: argv}, m, err)
}

// HSyntaxLong: long clusters and long values.
func HSyntaxLong() {
	argv := longArgv()
	m, err := cli.RawParse(argv, newBinding(0), 0)
	compare(&ref{kinds: kindsOf(0), strict: true, out: map[string][][]string{}, toks: argv}, m, err)
}
