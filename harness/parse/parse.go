// Package parse states the properties of command line parsing.
package parse

import (
	"fmt"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

// layouts are the positional argument layouts explored: the NArg of each argument.
var layouts = [][]any{
	{-2},
	{},
	{0},
	{1},
	{2},
	{-1},
	{-3},
	{0, 0},
	{1, -2},
	{1, -3},
	{2, 1},
	{0, 1},
	{-2, 1},
	{1, -1},
	{nil, 1, nil},
	{1, 0, -2},
}

// binding is a minimal Binding: a/aa and b/bb are bool, s/ss takes a value, l/ll takes many,
// o/oo has an optional value.
type binding struct {
	args []string
	narg []any
}

func newBinding(lay int) *binding {
	b := &binding{}
	for j, n := range layouts[lay] {
		b.args = append(b.args, pname[j])
		b.narg = append(b.narg, n)
	}
	return b
}

var pname = []string{"p0", "p1", "p2"}

func (b *binding) LookupOption(name string) (cli.TransformFunc, cli.ArgCounter, cli.BindingState, bool) {
	switch name {
	case "aa", "b":
		return nil, cli.NoArgs(), nil, true
	case "ss":
		return nil, cli.ArgCount(1), nil, true
	case "l":
		return nil, cli.ArgCount(cli.TakeUntilNextFlag), nil, true
	case "oo":
		return nil, cli.ArgCount(0), nil, true
	}
	for i, n := range b.args {
		if n == name {
			return nil, cli.ArgCount(b.narg[i]), nil, true
		}
	}
	return nil, nil, nil, false
}

func (b *binding) ResolveAlias(name string) (string, bool) {
	n := canon(name)
	return n, n != ""
}

func (b *binding) PositionalArgNames() []string   { return b.args }
func (b *binding) BehaviorFlags(name string) bool { return name == "oo" }
func (b *binding) Reset()                         {}

var rawModes = []cli.RawParseFlag{
	0,
	cli.RawDisallowFlagsAfterArgs,
	cli.RawRTL,
	cli.RawRTL | cli.RawDisallowFlagsAfterArgs,
}

func canon(n string) string {
	switch n {
	case "a", "aa":
		return "aa"
	case "b", "bb":
		return "b"
	case "s", "ss":
		return "ss"
	case "l", "ll":
		return "l"
	case "o", "oo":
		return "oo"
	}
	return ""
}

func isBool(n string) bool { return n == "aa" || n == "b" }

// explain decides whether the occurrences in m account for exactly the tokens toks: each token used
// once, in order, each occurrence used once.
type explainer struct {
	m    cli.BindingMap
	args []string
	next map[string]int
}

func (e *explainer) left() bool {
	for n, v := range e.m {
		if n != "" && e.next[n] < len(v) {
			return true
		}
	}
	return false
}

// take tries occurrence values starting with the spelled name.
func (e *explainer) front(n string) []string {
	if e.next[n] < len(e.m[n]) {
		return e.m[n][e.next[n]]
	}
	return nil
}

func (e *explainer) try(n string, k func() bool) bool {
	e.next[n]++
	if k() {
		return true
	}
	e.next[n]--
	return false
}

// values matches the values of an occurrence against the leading tokens.
func (e *explainer) values(n string, vals []string, toks []string, k func([]string) bool) bool {
	if len(vals) <= len(toks) {
		ok := true
		for i, v := range vals {
			if v != toks[i] {
				ok = false
				break
			}
		}
		if ok && e.try(n, func() bool { return k(toks[len(vals):]) }) {
			return true
		}
	}
	if len(vals) == 1 && vals[0] == "" {
		return e.try(n, func() bool { return k(toks) })
	}
	return false
}

func (e *explainer) tokens(toks []string, end func([]string) bool) bool {
	if end(toks) {
		return true
	}
	if len(toks) == 0 {
		return false
	}
	t, rest := toks[0], toks[1:]
	again := func(r []string) bool { return e.tokens(r, end) }
	for _, p := range e.args {
		o := e.front(p)
		if len(o) == 2 && o[0] == "<"+p+">" && o[1] == t && e.try(p, func() bool { return again(rest) }) {
			return true
		}
	}
	if t == "--" {
		return again(rest)
	}
	if len(t) < 2 || t[0] != '-' {
		return false
	}
	if t[1] == '-' {
		name := t[2:]
		for i := 0; i < len(name); i++ {
			if name[i] == '=' {
				n := canon(name[:i])
				o := e.front(n)
				return len(o) == 2 && o[1] == name[i+1:] && canonSpelled(o[0]) == n && e.try(n, func() bool { return again(rest) })
			}
		}
		n := canon(name)
		o := e.front(n)
		return len(o) >= 2 && canonSpelled(o[0]) == n && e.values(n, o[1:], rest, again)
	}
	return e.cluster(t[1:], rest, again)
}

func (e *explainer) cluster(c string, rest []string, again func([]string) bool) bool {
	if c == "" {
		return again(rest)
	}
	n := canon(c[:1])
	o := e.front(n)
	if len(o) < 2 || o[0] != "-"+c[:1] {
		return false
	}
	if len(c) > 1 && len(o) == 2 && o[1] == c[1:] {
		return e.try(n, func() bool { return again(rest) })
	}
	if len(c) > 1 {
		return len(o) == 2 && o[1] == "" && e.try(n, func() bool { return e.cluster(c[1:], rest, again) })
	}
	return e.values(n, o[1:], rest, again)
}

func canonSpelled(s string) string {
	for len(s) > 0 && s[0] == '-' {
		s = s[1:]
	}
	return canon(s)
}

func argvOf(n, max int) []string {
	alphabet := "-=abslox"
	var argv []string
	for i := 0; i < n; i++ {
		argv = append(argv, sym.String(fmt.Sprint("t", i), max, alphabet))
	}
	return argv
}

func observe(m cli.BindingMap, err error) {
	for _, n := range []string{"aa", "b", "ss", "l", "oo", "p0", "p1", "p2"} {
		if v, ok := m[n]; ok {
			sym.Observe(n, fmt.Sprintf("%q", v))
		}
	}
	if err != nil {
		sym.Observe("err", err.Error())
	}
}

func conserve(lay int, mode cli.RawParseFlag, argv []string) {
	b := newBinding(lay)
	m, err := cli.RawParse(argv, b, mode)
	observe(m, err)
	names := b.PositionalArgNames()
	if err == nil {
		sym.Reach("ok")
		e := &explainer{m, names, map[string]int{}}
		sym.Assert(e.tokens(argv, func(r []string) bool { return len(r) == 0 && !e.left() }),
			"the bound occurrences do not account for the command line")
		return
	}
	sym.Reach("err")
	pe, ok := err.(*cli.ParseError)
	sym.Assert(ok, "an error of parsing is not a ParseError")
	if ok && pe.Remaining != nil {
		sym.Reach("remaining")
	}
}

// HConserve1 covers every layout and mode with two arbitrary tokens.
func HConserve1() {
	lay := sym.Choose("layout", len(layouts))
	mode := rawModes[sym.Choose("mode", len(rawModes))]
	conserve(lay, mode, argvOf(2, sym.Bound(3, 5)))
}

// HConserve2 covers the flag syntax in depth with one layout.
func HConserve2() {
	conserve(sym.Choose("layout", 1), 0, argvOf(3, sym.Bound(3, 4)))
}

// longArgv is one long token, with a fixed start, and a short one.
func longArgv() []string {
	pre := []string{"-", "--", "--s=", "--oo=", "-s", "-ab", "-l", "--b="}
	i := sym.Choose("start", len(pre))
	n := sym.Bound(4, 5)
	if i == 0 {
		n++
	}
	return []string{pre[i] + sym.String("long", n, "-=abso"), sym.String("next", 1, "-x")}
}

// HConserveLong: long clusters and long values.
func HConserveLong() {
	conserve(sym.Choose("layout", 1), 0, longArgv())
}
