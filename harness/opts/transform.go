package opts

import (
	"bytes"
	"context"
	"errors"
	"io"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

var errTransform = errors.New("transform")

type failing struct{}

func (failing) Read([]byte) (int, error) { return 0, errTransform }

// reading is a value which is read from data.
type reading struct{ got []string }

func (r *reading) Set(s string) error { r.got = append(r.got, "set "+s); return nil }
func (r *reading) String() string     { return "" }
func (r *reading) SetData(in io.Reader) error {
	bb, err := io.ReadAll(in)
	r.got = append(r.got, string(bb))
	return err
}

// setting is a value which isn't.
type setting struct{ got []string }

func (s *setting) Set(v string) error { s.got = append(s.got, v); return nil }
func (s *setting) String() string     { return "" }

// HTransform sets flags and args from what a transform makes of their occurrences.
func HTransform() {
	isFlag := sym.Bool("flag")
	kind := sym.Choose("kind", 5)
	n := sym.Choose("occurrences", 3)
	if kind == 2 {
		n = min(n, 1) // whether bytes are appended is not stated
	}
	output := sym.Choose("output", 5)
	pair := kind == 4 // only the value is transformed
	way := sym.Choose("way", 4)
	sym.Assume(!pair || way != 0)
	sym.Assume(kind != 2 || output != 0) // a text of bytes is their hexadecimal digits

	argv := []string{"app"}
	alphabet := "x, @\n"
	if pair {
		alphabet = "x@" // blanks around a pair are left out
	}
	var raws, outs []string
	name := "<a>"
	if !isFlag {
		n = min(n, 1)
	}
	for i := range n {
		s := sym.StringN("value", sym.Bound(1, 2), alphabet)
		if isFlag {
			form := sym.Choose("form", 3)
			name = []string{"-f", "--flag", "--flag"}[form]
			t := s
			if pair {
				t = []string{"k", "l"}[i] + "=" + s
			}
			argv = append(argv, []string{"-f" + t, "--flag=" + t, "--flag"}[form])
			if form == 2 {
				argv = append(argv, t)
			}
		} else if pair {
			argv = append(argv, "k="+s)
		} else {
			argv = append(argv, s)
		}
		if pair {
			name = []string{"k", "l"}[i]
		}
		raws = append(raws, name+" "+s)
		outs = append(outs, s+"."+s)
	}

	var seen []string
	fn := cli.TransformFunc(func(raw []string) (any, error) {
		seen = append(seen, strings.Join(raw, " "))
		s := raw[len(raw)-1]
		s += "." + s
		switch output {
		case 1:
			return []byte(s), nil
		case 2:
			return bytes.NewBufferString(s), nil
		case 3:
			return failing{}, nil
		case 4:
			return s, errTransform
		}
		return s, nil
	})

	var str string
	var list []string
	var bb []byte
	r, s := &reading{}, &setting{}
	m := map[string]string{}
	value := []any{&str, &list, &bb, r, &m}[kind]
	if kind == 0 && sym.Bool("custom") {
		value = s
	}
	var uses cli.Action
	var field cli.TransformFunc
	switch way {
	case 0:
		field = fn
	case 1:
		uses = cli.Transform(fn)
	case 2:
		uses = fn
	case 3:
		uses = cli.ActionFunc(func(c *cli.Context) error { return c.SetTransform(fn) })
	}
	if pair {
		uses = cli.ValueTransform(fn)
	}
	acted := false
	var raw []string
	act := func(c *cli.Context) {
		raw = c.RawOccurrences("")
	}
	app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard, Action: func() { acted = true }}
	if isFlag {
		app.Flags = []*cli.Flag{{Name: "flag", Aliases: []string{"f"}, Value: value, Transform: field, Uses: uses, Action: act}, {Name: "g"}}
	} else {
		app.Args = []*cli.Arg{{Name: "a", Value: value, Transform: field, Uses: uses, Action: act}, {Name: "b", NArg: 0}}
	}
	err := app.RunContext(context.Background(), argv)
	for _, s := range seen {
		sym.Observe("seen", s)
	}
	if n > 0 && output > 2 {
		sym.Assert(errors.Is(err, errTransform) && !acted, "a transform fails but the run doesn't")
		sym.Assert(len(seen) == 1 && seen[0] == raws[0], "a transform is called otherwise than with the occurrence")
		return
	}
	sym.Assert(err == nil && acted, "a run fails whose transforms don't")
	if isFlag || n > 0 {
		sym.Assert(strings.Join(seen, "|") == strings.Join(raws, "|"), "a transform isn't called with each occurrence")
	}
	if len(seen) == 0 {
		sym.Assert(str == "" && list == nil && bb == nil && r.got == nil && s.got == nil && len(m) == 0, "a value is set which wasn't given")
		return
	}
	last := outs[len(outs)-1]
	all := strings.Join(outs, "|")
	switch value {
	case any(&str):
		sym.Assert(str == last, "the value is not what the transform gave")
	case any(&list):
		sym.Assert(strings.Join(list, "|") == all && len(list) == n, "the values are not what the transform gave")
	case any(&bb):
		sym.Assert(string(bb) == last, "the bytes are not what the transform gave")
	case any(r):
		sym.Assert(strings.Join(r.got, "|") == all, "the value doesn't read what the transform gave")
	case any(s):
		sym.Assert(strings.Join(s.got, "|") == all, "the value isn't set to what the transform gave")
	case any(&m):
		sym.Assert(len(m) == n, "the map has other names than were given")
		for i, o := range outs {
			k := []string{"k", "l"}[i]
			sym.Assert(m[k] == o, "the map has another value than the transform gave")
		}
	}
	sym.Assert(len(raw) > 0, "the raw values are lost")
	sym.Reach("transformed")
}
