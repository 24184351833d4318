package app

import (
	"context"
	"fmt"
	"io"
	"io/fs"
	"os"
	"time"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

// memFS has at most one file
type memFS struct {
	name, text string
	present    bool
}

type memFile struct {
	text string
	off  int
}

type memInfo struct{ n int }

func (i memInfo) Name() string       { return "f" }
func (i memInfo) Size() int64        { return int64(i.n) }
func (i memInfo) Mode() fs.FileMode  { return 0o444 }
func (i memInfo) ModTime() time.Time { return time.Time{} }
func (i memInfo) IsDir() bool        { return false }
func (i memInfo) Sys() any           { return nil }

func (m memFS) Open(name string) (fs.File, error) {
	if !m.present || name != m.name {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	return &memFile{text: m.text}, nil
}

func (f *memFile) Stat() (fs.FileInfo, error) { return memInfo{len(f.text)}, nil }
func (f *memFile) Close() error               { return nil }
func (f *memFile) Read(b []byte) (int, error) {
	if f.off >= len(f.text) {
		return 0, io.EOF
	}
	n := copy(b, f.text[f.off:])
	f.off += n
	return n, nil
}

// HPrecedence gives a flag or an arg a value from each possible source.
func HPrecedence() {
	kind := sym.Choose("kind", 4) // string, list, int, map
	isArg := sym.Bool("arg")
	def := sym.Bool("default")
	merge := kind != 2 && sym.Bool("merge")
	implyAction := sym.Choose("implied action", 3) // none, on the option, on the app

	text := func(name string) string {
		if kind == 2 {
			return sym.StringN(name, 1, "01x")
		}
		if kind == 3 {
			return "k=" + sym.StringN(name, 1, "ab")
		}
		return sym.StringN(name, 1, "ab")
	}
	var (
		e1, e2     string
		given      string
		file, impl string
	)
	fsys := memFS{name: "conf"}
	switch sym.Choose("e1", 3) {
	case 1:
		os.Setenv("VQ_ONE", "")
	case 2:
		e1 = text("env1")
		os.Setenv("VQ_ONE", e1)
	}
	if sym.Bool("e2") {
		e2 = text("env2")
		os.Setenv("VQ_F_X", e2)
	}
	defer os.Unsetenv("VQ_ONE")
	defer os.Unsetenv("VQ_F_X")
	if sym.Bool("file") {
		file = text("content")
		fsys.present, fsys.text = true, file
	}
	argv := []string{"app"}
	imply := !isArg && sym.Bool("imply")
	if imply {
		impl = text("implied")
		argv = append(argv, "--other=1")
	}
	cmdline := sym.Bool("cmdline")
	if cmdline {
		given = text("given")
		if kind == 2 {
			sym.Assume(given != "x")
		}
		if isArg {
			argv = append(argv, given)
		} else {
			argv = append(argv, "--f-x="+given)
		}
	}

	var (
		str  string
		list []string
		num  int
		mp   map[string]string
		val  any
	)
	switch kind {
	case 0:
		val = &str
		if def {
			str = "d"
		}
	case 1:
		val = &list
		if def {
			list = []string{"d"}
		}
	case 2:
		val = &num
		if def {
			num = 7
		}
	case 3:
		val = &mp
		if def {
			mp = map[string]string{"d": "0"}
		}
	}
	var opts cli.Option
	if merge {
		opts = cli.Merge
	}
	if implyAction == 1 {
		opts |= cli.ImpliedAction
	}
	acted, implicit := 0, false
	ran := false
	act := func(c *cli.Context) { acted++ }
	app := &cli.App{
		Name: "app", Stderr: io.Discard, Stdout: io.Discard, FS: fsys,
		Flags: []*cli.Flag{{Name: "other", Uses: func() cli.Action {
			if imply {
				return cli.Implies("f-x", impl)
			}
			return nil
		}()}},
		Action: func(c *cli.Context) {
			ran = true
			implicit = c.ContextOf("f-x").ImplicitlySet()
		},
	}
	if implyAction == 2 {
		app.Options = cli.ImpliedAction
	}
	vars := []string{"VQ_ONE", "VQ{}"}
	if isArg {
		app.Args = []*cli.Arg{{Name: "f-x", NArg: 0, Value: val, Options: opts, EnvVars: vars, FilePath: "conf", Action: act}}
	} else {
		app.Flags = append(app.Flags, &cli.Flag{Name: "f-x", Value: val, Options: opts, EnvVars: vars, FilePath: "conf", Action: act})
	}
	err := app.RunContext(context.Background(), argv)
	sym.Assert(err == nil && ran, "a run with valid values fails")

	// the source that wins
	win, explicit, implied := "", false, false
	switch {
	case cmdline:
		win, explicit = given, true
	case e1 != "":
		win, implied = e1, true
	case e2 != "":
		win, implied = e2, true
	case fsys.present:
		win, implied = file, true
	case imply:
		win, implied = impl, true
	}
	if win == "x" && kind == 2 {
		// not a number: the error is ignored
		win = ""
	}
	switch kind {
	case 0:
		want := ""
		if def {
			want = "d"
		}
		if win != "" {
			if merge && def {
				want += " " + win
			} else {
				want = win
			}
		}
		sym.Observe("str", str)
		sym.Assert(str == want, "a string does not have the value of the source with the highest precedence")
	case 1:
		var want []string
		if def {
			want = []string{"d"}
		}
		if win != "" {
			if !merge {
				want = nil
			}
			want = append(want, win)
		}
		ok := len(list) == len(want)
		for i := 0; ok && i < len(want); i++ {
			ok = list[i] == want[i]
		}
		sym.Observe("list", fmt.Sprintf("%q", list))
		sym.Assert(ok, "a list does not have the value of the source with the highest precedence")
	case 2:
		want := 0
		if def {
			want = 7
		}
		if win != "" {
			want = int(win[0] - '0')
		}
		sym.Assert(num == want, "a number does not have the value of the source with the highest precedence")
	case 3:
		n := 0
		if def && (merge || win == "") {
			n++
			sym.Assert(mp["d"] == "0", "a map lost its default")
		}
		if win != "" {
			n++
			sym.Assert(mp["k"] == win[2:], "a map does not have the value of the source with the highest precedence")
		}
		sym.Assert(len(mp) == n, "a map has other keys than those of the source with the highest precedence")
	}
	sym.Assert(implicit == implied, "an option is not known as implicitly set exactly when it is")
	want := 0
	if explicit || (implied && implyAction > 0) {
		want = 1
	}
	sym.ObserveInt("acted", acted)
	sym.Assert(acted == want, "the action of an option does not run exactly when it was given, or implied as asked")
}
