// Package gen states the properties of generating files from templates.
package gen

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"strings"
	"text/template"
	"time"

	cli "github.com/Carbonfrost/joe-cli"
	etemplate "github.com/Carbonfrost/joe-cli/extensions/template"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

// memFS is a file system in memory which, like a real one, has directories and needs those of files.
type memFS struct {
	files   map[string][]byte
	modes   map[string]fs.FileMode
	dirs    map[string]bool
	open    int
	changes int
	fails   error // of creating z
}

// failing is a reader and a template which fails.
type failing struct{ err error }

func (f failing) Read([]byte) (int, error)     { return 0, f.err }
func (f failing) Execute(io.Writer, any) error { return f.err }

type memFile struct {
	f    *memFS
	name string
	pos  int
}

type memInfo struct {
	name string
	mode fs.FileMode
	size int
}

func (i memInfo) Name() string       { return path.Base(i.name) }
func (i memInfo) Size() int64        { return int64(i.size) }
func (i memInfo) Mode() fs.FileMode  { return i.mode }
func (i memInfo) ModTime() time.Time { return time.Time{} }
func (i memInfo) IsDir() bool        { return i.mode.IsDir() }
func (i memInfo) Sys() any           { return nil }

func newMemFS() *memFS {
	return &memFS{map[string][]byte{}, map[string]fs.FileMode{}, map[string]bool{".": true}, 0, 0, nil}
}

func missing(op, name string) error {
	return &fs.PathError{Op: op, Path: name, Err: fs.ErrNotExist}
}

func (m *memFS) Stat(name string) (fs.FileInfo, error) {
	name = path.Clean(name)
	if m.dirs[name] {
		return memInfo{name, fs.ModeDir | 0755, 0}, nil
	}
	if d, ok := m.files[name]; ok {
		return memInfo{name, m.modes[name], len(d)}, nil
	}
	return nil, missing("stat", name)
}

func (m *memFS) Open(name string) (fs.File, error) {
	name = path.Clean(name)
	if _, ok := m.files[name]; ok {
		m.open++
		return &memFile{m, name, 0}, nil
	}
	return nil, missing("open", name)
}

func (m *memFS) OpenContext(_ context.Context, name string) (fs.File, error) { return m.Open(name) }

func (m *memFS) Create(name string) (fs.File, error) {
	name = path.Clean(name)
	m.changes++
	if name == "z" && m.fails != nil {
		return nil, m.fails
	}
	if !m.dirs[path.Dir(name)] || m.dirs[name] {
		return nil, missing("create", name)
	}
	m.files[name] = nil
	if _, ok := m.modes[name]; !ok {
		m.modes[name] = 0644
	}
	m.open++
	return &memFile{m, name, 0}, nil
}

func (m *memFS) Chmod(name string, mode fs.FileMode) error {
	name = path.Clean(name)
	m.changes++
	if _, ok := m.files[name]; !ok {
		return missing("chmod", name)
	}
	m.modes[name] = mode
	return nil
}

func (m *memFS) MkdirAll(name string, _ fs.FileMode) error {
	name = path.Clean(name)
	m.changes++
	for name != "." {
		m.dirs[name] = true
		name = path.Dir(name)
	}
	return nil
}

func (m *memFS) Chtimes(name string, _ time.Time, _ time.Time) error {
	name = path.Clean(name)
	m.changes++
	if _, ok := m.files[name]; !ok {
		return missing("chtimes", name)
	}
	return nil
}

var errNo = errors.New("unexpected operation")

func (m *memFS) Chown(string, int, int) error    { m.changes++; return errNo }
func (m *memFS) Mkdir(string, fs.FileMode) error { m.changes++; return errNo }
func (m *memFS) Remove(string) error             { m.changes++; return errNo }
func (m *memFS) RemoveAll(string) error          { m.changes++; return errNo }
func (m *memFS) Rename(string, string) error     { m.changes++; return errNo }
func (m *memFS) OpenFile(string, int, fs.FileMode) (fs.File, error) {
	m.changes++
	return nil, errNo
}

func (f *memFile) Stat() (fs.FileInfo, error) { return f.f.Stat(f.name) }
func (f *memFile) Close() error               { f.f.open--; return nil }
func (f *memFile) Read(p []byte) (int, error) {
	d := f.f.files[f.name]
	if f.pos >= len(d) {
		return 0, io.EOF
	}
	n := copy(p, d[f.pos:])
	f.pos += n
	return n, nil
}

func (f *memFile) Write(p []byte) (int, error) {
	f.f.files[f.name] = append(f.f.files[f.name], p...)
	return len(p), nil
}

// expect is what is expected of the file system and the output.
type expect struct {
	files map[string]string
	modes map[string]fs.FileMode
	lines []string
	dry   bool
}

var pairs = template.Must(template.New("").Parse("{{ .a }}{{ .b }}"))

// file gives a generator of a file in the directory and states what is expected of it.
func (e *expect) file(dir string) etemplate.Generator {
	name := []string{"x", "y", "s/x"}[sym.Choose("file", sym.Bound(2, 3))]
	full := path.Join(dir, name)
	old, exists := e.files[full]
	status := "create"
	if exists {
		status = "identical"
	}
	given := name
	if sym.Bool("expand") {
		given = strings.ReplaceAll(name, "x", "{{ .v }}")
	}
	var ops []etemplate.FileGenerator
	text := sym.StringN("text", 1, "ab")
	data := old
	mode, ok := e.modes[full]
	if !ok {
		mode = 0644
	}
	switch sym.Choose("how", 8) {
	case 0:
		data = text
		ops = append(ops, etemplate.Contents(text))
	case 1:
		data = text
		ops = append(ops, etemplate.Contents([]byte(text)))
	case 2:
		data = text
		ops = append(ops, etemplate.Contents(strings.NewReader(text)))
	case 3:
		data = "n" + text
		ops = append(ops, etemplate.Template(pairs, "a", "n", "b", text))
	case 4:
		data = "p" + text
		ops = append(ops, etemplate.Contents("p"+text), nil, etemplate.FileMode(0700))
		ops[1] = etemplate.FileGeneratorFunc(nil)
		mode = 0700
	case 5:
		data = text
		ops = append(ops, etemplate.Contents("long text"), etemplate.Contents(text), etemplate.Mode(0600))
		mode = 0600
	case 6:
		ops = append(ops, etemplate.Touch())
	case 7:
		// nothing to do
		e.lines = append(e.lines, "identical")
		return etemplate.File(given)
	}
	if exists && data != old && !e.dry {
		status = "overwrite"
	}
	e.lines = append(e.lines, status+" "+full)
	if !e.dry {
		e.files[full] = data
		e.modes[full] = mode
	}
	return etemplate.File(given, ops...)
}

// plain gives a generator of a file which may be the same as another.
func (e *expect) plain(dir string) etemplate.Generator {
	name := []string{"x", "d/x"}[sym.Choose("second file", 2)]
	full := path.Join(dir, name)
	text := sym.StringN("second text", 1, "ab")
	status := "create"
	if old, ok := e.files[full]; ok {
		status = "identical"
		if old != text && !e.dry {
			status = "overwrite"
		}
	}
	e.lines = append(e.lines, status+" "+full)
	if !e.dry {
		e.files[full] = text
		if _, ok := e.modes[full]; !ok {
			e.modes[full] = 0644
		}
	}
	return etemplate.File(name, etemplate.Contents(text))
}

func (e *expect) items(dir string, depth, n int) []etemplate.Generator {
	var res []etemplate.Generator
	for i := 0; i < n; i++ {
		switch sym.Choose("item", 3) {
		case 0:
			res = append(res, e.file(dir))
		case 1:
			if depth > 1 {
				sym.Assume(false)
			}
			name := []string{"d", "d/e"}[sym.Choose("dir", 2)]
			res = append(res, etemplate.Dir(name, e.items(path.Join(dir, name), depth+1, 1)...))
		case 2:
			res = append(res, nil)
		}
	}
	return res
}

func run(f cli.FS, root *etemplate.Root, dryFlag bool) (string, error) {
	var out bytes.Buffer
	app := &cli.App{Name: "app", FS: f, Stdout: &out, Stderr: io.Discard, Action: root}
	argv := []string{"app"}
	if dryFlag {
		app.Action, app.Uses = nil, root
		argv = append(argv, "--dry-run", "--overwrite")
	}
	err := app.RunContext(context.Background(), argv)
	return out.String(), err
}

// check compares the file system and the output with what is expected.
func (e *expect) check(f *memFS, out string, err error) {
	sym.Observe("out", out)
	sym.Assert(err == nil, "generating files which can be written fails")
	for n, d := range e.files {
		got, ok := f.files[n]
		sym.Assert(ok, "a file is not generated")
		sym.Assert(string(got) == d, "a file is generated with other contents")
		sym.Assert(f.modes[n] == e.modes[n], "a file is generated with another mode")
	}
	sym.Assert(len(f.files) == len(e.files), "a file is generated which is not in the template")
	sym.Assert(f.open == 0, "a file is left open")
	lines := strings.Split(strings.TrimSpace(out), "\n")
	if len(e.lines) == 0 {
		lines = nil
		sym.Assert(out == "", "something is reported though nothing is generated")
	}
	sym.Assert(len(lines) == len(e.lines), "not each file is reported once")
	for i, l := range lines {
		l = strings.Join(strings.Fields(l), " ")
		want := e.lines[i]
		if !strings.Contains(want, " ") {
			sym.Assert(strings.HasPrefix(l, want+" "), "a file without generators is reported as changed")
			continue
		}
		if e.dry {
			want += " (dry-run)"
		}
		sym.Assert(l == want, "a file is reported as another or with another status")
	}
}

// HGenerate generates the files of any template.
func HGenerate() {
	f := newMemFS()
	e := &expect{files: map[string]string{}, modes: map[string]fs.FileMode{}, dry: sym.Bool("dry run")}
	if sym.Bool("exists") {
		n := []string{"x", "d/x"}[sym.Choose("existing", 2)]
		d := sym.StringN("existing text", 1, "ab")
		f.files[n], f.modes[n], f.dirs[path.Dir(n)] = []byte(d), 0644, true
		e.files[n], e.modes[n] = d, 0644
	}
	work := ""
	dir := "."
	if sym.Bool("working directory") {
		work, dir = "w", "w"
	}
	items := e.items(dir, 0, 1)
	if sym.Bool("second") {
		items = append(items, e.plain(dir))
	}
	root := etemplate.New(append([]etemplate.Generator{etemplate.Data("v", "x")}, items...)...)
	root.DryRun = e.dry
	root.WorkingDirectory = work
	flag := e.dry && sym.Bool("flag")
	if flag {
		root.DryRun = false
	}
	out, err := run(f, root, flag)
	e.check(f, out, err)
	if e.dry {
		sym.Assert(f.changes == 0, "a dry run changes the file system")
	}
	sym.Reach("generated")
}

// HGenerateTwice generates the same file twice, or fails in between.
func HGenerateTwice() {
	f := newMemFS()
	a, b := sym.StringN("first", 1, "ab"), sym.StringN("second", 1, "ab")
	failure := errors.New("failure")
	var fails error
	var between etemplate.Generator
	more := ""
	if sym.Bool("fails") {
		fails = failure
		z := func(op etemplate.FileGenerator) etemplate.Generator {
			return etemplate.File("z", op, etemplate.Contents("z"))
		}
		op := etemplate.FileGenerator(etemplate.FileGeneratorFunc(func(context.Context, *etemplate.OutputContext, string) error { return failure }))
		if sym.Bool("late") {
			op, more = etemplate.FileGeneratorFunc(func(ctx context.Context, c *etemplate.OutputContext, name string) error {
				return errors.Join(etemplate.Contents("y").GenerateFile(ctx, c, name), failure)
			}), "y"
		}
		switch sym.Choose("failing", 6) {
		case 0:
			between = etemplate.Dir("q", z(op))
			if more != "" {
				more = "q/z"
			}
		case 1:
			between = etemplate.Sequence{etemplate.Sequence{nil, z(op)}, etemplate.Data("a", 1)}
		case 2:
			between, more = z(etemplate.Contents(failing{failure})), ""
		case 3:
			between, more = z(etemplate.Template(failing{failure})), ""
		case 4:
			f.fails = failure
			between, more = z(etemplate.Contents("")), ""
		case 5:
			f.fails = failure
			between, more = z(etemplate.Touch()), ""
		}
		if more == "y" {
			more = "z"
		}
	}
	out, err := run(f, etemplate.New(etemplate.Vars{"n": "x"},
		etemplate.File("{{ .n }}", etemplate.Contents(a)),
		between,
		etemplate.Sequence{etemplate.File("x", etemplate.Contents(b))},
	), false)
	if more != "" {
		sym.Assert(string(f.files[more]) == "y", "the files are not those generated before the error")
		delete(f.files, more)
	}
	sym.Assert(errors.Is(err, fails) && (err == nil) == (fails == nil), "generating does not end with the error of a generator")
	want := []string{"create x"}
	text := a
	if fails == nil {
		text = b
		if a == b {
			want = append(want, "identical x")
		} else {
			want = append(want, "overwrite x")
		}
	}
	sym.Assert(string(f.files["x"]) == text && len(f.files) == 1, "the files are not those generated before the error")
	got := strings.Join(strings.Fields(out), " ")
	sym.Assert(got == strings.Join(want, " "), "a file is reported as another or with another status")
}

// recorder records what a file system is asked for.
type recorder struct {
	calls  []string
	exists bool // whether directories do
	err    error
	parent bool // whether making the directory of a file fails, too
}

func (r *recorder) did(err error, format string, args ...any) error {
	r.calls = append(r.calls, fmt.Sprintf(format, args...))
	return err
}

func (r *recorder) Open(n string) (fs.File, error) { return nil, r.did(r.err, "open %s", n) }
func (r *recorder) OpenContext(c context.Context, n string) (fs.File, error) {
	return nil, r.did(r.err, "opencontext %s", n)
}
func (r *recorder) Stat(n string) (fs.FileInfo, error) {
	if r.exists {
		return memInfo{name: n}, nil
	}
	return nil, missing("stat", n)
}
func (r *recorder) Create(n string) (fs.File, error) { return nil, r.did(r.err, "create %s", n) }
func (r *recorder) OpenFile(n string, flag int, mode fs.FileMode) (fs.File, error) {
	return nil, r.did(r.err, "openfile %s %d %d", n, flag, mode)
}
func (r *recorder) Chmod(n string, m fs.FileMode) error { return r.did(r.err, "chmod %s %d", n, m) }
func (r *recorder) Chown(n string, u, g int) error      { return r.did(r.err, "chown %s %d %d", n, u, g) }
func (r *recorder) Chtimes(n string, a, m time.Time) error {
	return r.did(r.err, "chtimes %s %d %d", n, a.Unix(), m.Unix())
}
func (r *recorder) Mkdir(n string, m fs.FileMode) error { return r.did(r.err, "mkdir %s %d", n, m) }
func (r *recorder) MkdirAll(n string, m fs.FileMode) error {
	err := r.err
	if m == 0755 && !r.parent {
		err = nil // the directory of a file
	}
	return r.did(err, "mkdirall %s %d", n, m)
}
func (r *recorder) Remove(n string) error    { return r.did(r.err, "remove %s", n) }
func (r *recorder) RemoveAll(n string) error { return r.did(r.err, "removeall %s", n) }
func (r *recorder) Rename(o, n string) error { return r.did(r.err, "rename %s %s", o, n) }

type generator func(context.Context, *etemplate.OutputContext) error

func (g generator) Generate(ctx context.Context, c *etemplate.OutputContext) error { return g(ctx, c) }

// HOutput uses the file system of a template, in its directories.
func HOutput() {
	r := &recorder{exists: sym.Bool("exists")}
	if sym.Bool("fails") {
		r.err = errors.New("failure")
		r.parent = sym.Bool("parent")
	}
	dir := "."
	var dirs []string
	for range sym.Choose("directories", 3) {
		d := []string{"d", "e/f"}[sym.Choose("directory", 2)]
		dirs = append(dirs, d)
		dir = path.Join(dir, d)
	}
	name := func() (string, string) {
		s := "n" + []string{"", "/a", "/../b", "//c/"}[sym.Choose("name", 4)]
		switch sym.Choose("kind", 3) {
		case 0:
			return "/" + s, "/" + s
		case 1:
			return "{{ .v }}" + s, path.Join(dir, "v"+s)
		}
		return s, path.Join(dir, s)
	}
	n, full := name()
	want := ""
	ensure := false // that there is the directory
	op := sym.Choose("op", 13)
	other, otherFull := "", ""
	switch op {
	case 0:
		want = "open " + full
	case 1:
		want = "opencontext " + full
	case 2:
		want, ensure = "create "+full, true
	case 3:
		want = "openfile " + full + " 1 2"
	case 4:
		want, ensure = "chmod "+full+" 3", true
	case 5:
		want, ensure = "chown "+full+" 4 5", true
	case 6:
		want, ensure = "chtimes "+full+" 6 7", true
	case 7:
		want, ensure = "mkdir "+full+" 8", true
	case 8:
		want = "mkdirall " + full + " 9"
	case 9:
		want = "remove " + full
	case 10:
		want = "removeall " + full
	case 11:
		other, otherFull = name()
		want, ensure = "rename "+full+" "+otherFull, true
	case 12:
		// exists, stat
	}
	var wantCalls []string
	if ensure && !r.exists {
		if !path.IsAbs(n) {
			wantCalls = append(wantCalls, "mkdirall "+path.Dir(full)+" 493")
		}
		if other != "" && !path.IsAbs(other) {
			wantCalls = append(wantCalls, "mkdirall "+path.Dir(otherFull)+" 493")
		}
	}
	if r.parent && len(wantCalls) > 0 {
		wantCalls = wantCalls[:1] // nothing else is tried
	} else if want != "" {
		wantCalls = append(wantCalls, want)
	}
	ran := false
	root := etemplate.New(etemplate.Data("v", "v"), generator(func(ctx context.Context, c *etemplate.OutputContext) error {
		ran = true
		for _, d := range dirs {
			sym.Assert(c.PushDir(d) == nil, "a directory can't be entered")
		}
		sym.Assert(c.WorkDir() == dir, "the working directory is not the one entered")
		sym.Assert(c.File(n) == full, "the path of a file is not that in the working directory")
		var err error
		switch op {
		case 0:
			_, err = c.Open(n)
		case 1:
			_, err = c.OpenContext(ctx, n)
		case 2:
			_, err = c.Create(n)
		case 3:
			_, err = c.OpenFile(n, 1, 2)
		case 4:
			err = c.Chmod(n, 3)
		case 5:
			err = c.Chown(n, 4, 5)
		case 6:
			err = c.Chtimes(n, time.Unix(6, 0), time.Unix(7, 0))
		case 7:
			err = c.Mkdir(n, 8)
		case 8:
			err = c.MkdirAll(n, 9)
		case 9:
			err = c.Remove(n)
		case 10:
			err = c.RemoveAll(n)
		case 11:
			err = c.Rename(n, other)
		case 12:
			info, e := c.Stat(n)
			sym.Assert(c.Exists(n) == r.exists && (e == nil) == r.exists, "a file does not exist exactly if it does")
			sym.Assert(!r.exists || info.Name() == path.Base(full), "another file is described")
			err = r.err
		}
		sym.Assert(err == r.err, "the error of an operation is not that of the file system")
		for range dirs {
			sym.Assert(c.PopDir() == nil, "a directory can't be left")
		}
		sym.Assert(c.WorkDir() == ".", "the working directory is not the one before")
		return err
	}))
	_, err := run(r, root, false)
	sym.Assert(ran && err == r.err, "generating does not end with the error of a generator")
	sym.Observe("calls", strings.Join(r.calls, ";"))
	sym.Assert(strings.Join(r.calls, ";") == strings.Join(wantCalls, ";"), "other operations or other files are asked for")
	sym.Reach("output")
}
