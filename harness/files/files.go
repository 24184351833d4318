// Package files checks files, file sets, and values loaded from files.
package files

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"sort"
	"strings"
	"time"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

// tree is a file system in memory. The names that end with a slash are directories.
type tree map[string]string

type entry struct {
	name string
	dir  bool
	size int
}

func (e entry) Name() string { return e.name }
func (e entry) Size() int64  { return int64(e.size) }
func (e entry) Mode() fs.FileMode {
	if e.dir {
		return fs.ModeDir | 0755
	}
	return 0644
}
func (e entry) Type() fs.FileMode          { return e.Mode().Type() }
func (e entry) Info() (fs.FileInfo, error) { return e, nil }
func (e entry) ModTime() time.Time         { return time.Time{} }
func (e entry) IsDir() bool                { return e.dir }
func (e entry) Sys() any                   { return nil }

type node struct {
	entry
	io.Reader
	list []fs.DirEntry
}

func (n *node) Stat() (fs.FileInfo, error) { return n.entry, nil }
func (n *node) Close() error               { return nil }
func (n *node) Read(b []byte) (int, error) {
	if n.dir {
		return 0, errors.New("is a directory")
	}
	return n.Reader.Read(b)
}
func (n *node) ReadDir(c int) ([]fs.DirEntry, error) {
	if !n.dir {
		return nil, errors.New("not a directory")
	}
	return n.list, nil
}

func base(name string) string {
	return name[strings.LastIndex(name, "/")+1:]
}

func (t tree) has(name string) (dir, ok bool) {
	if _, ok := t[name]; ok {
		return false, true
	}
	_, ok = t[name+"/"]
	return true, ok
}

func (t tree) children(dir string) (res []string) {
	for k := range t {
		k = strings.TrimSuffix(k, "/")
		if strings.HasPrefix(k, dir+"/") && !strings.Contains(k[len(dir)+1:], "/") {
			res = append(res, k)
		}
	}
	sort.Strings(res)
	return
}

func (t tree) Open(name string) (fs.File, error) {
	dir, ok := t.has(name)
	if !ok {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	n := &node{entry: entry{base(name), dir, len(t[name])}, Reader: strings.NewReader(t[name])}
	if dir {
		for _, c := range t.children(name) {
			d, _ := t.has(c)
			n.list = append(n.list, entry{base(c), d, len(t[c])})
		}
	}
	return n, nil
}

// walk lists a name and what it has, unless a directory is to be skipped
func (t tree) walk(name, skip string) []string {
	res := []string{name}
	if dir, ok := t.has(name); ok && dir && name != skip {
		for _, c := range t.children(name) {
			res = append(res, t.walk(c, skip)...)
		}
	}
	return res
}

func arbitrary() tree {
	t := tree{}
	if sym.Bool("a") {
		t["a"] = "A"
	}
	if sym.Bool("d") {
		t["d/"] = ""
		if sym.Bool("d/a") {
			t["d/a"] = "B"
		}
		if sym.Bool("d/e") {
			t["d/e/"] = ""
			if sym.Bool("d/e/x") {
				t["d/e/x"] = "C"
			}
		}
		if sym.Bool("d/f") {
			t["d/f"] = ""
		}
	}
	return t
}

// HSet enumerates a file set, possibly recursively, up to some point.
func HSet() {
	t := arbitrary()
	var names []string
	pool := []string{"a", "d", "d/e", "zz"}
	for i, n := 0, sym.Choose("n", 3); i < n; i++ {
		names = append(names, pool[sym.Choose("file", len(pool))])
	}
	rec := sym.Bool("recursive")
	set := &cli.FileSet{Files: names, Recursive: rec, FS: t}
	var want []string
	all := true
	mode := sym.Choose("mode", 3) // error, break, skip
	stop := sym.Choose("stop", 8)
	skip := ""
	if mode == 2 && rec {
		skip = []string{"d", "d/e"}[stop%2]
	}
	for _, n := range names {
		_, ok := t.has(n)
		all = all && ok
		if rec {
			want = append(want, t.walk(n, skip)...)
		} else {
			want = append(want, n)
		}
	}
	sym.Assert(set.Exists() == all, "a file set exists if all of its files do")

	failure := errors.New("stop")
	var got []string
	visit := func(f *cli.File, err error) {
		_, ok := t.has(f.Name)
		sym.Assert((err != nil) == (rec && !ok), "an error is given just for a file missing from a recursive file set")
		sym.Assert(f.Exists() == ok, "the file exists in another file system")
		if dir, _ := t.has(f.Name); ok && !dir {
			r, err := f.Open()
			sym.Assert(err == nil, "a file that exists can't be opened")
			bb, err := io.ReadAll(r)
			sym.Assert(err == nil && string(bb) == t[f.Name], "a file has other contents")
		}
		got = append(got, f.Name)
	}
	var err error
	if mode == 1 {
		for f, err := range set.All() {
			visit(f, err)
			if len(got) == stop+1 {
				break
			}
		}
	} else {
		err = set.Do(func(f *cli.File, err error) error {
			visit(f, err)
			if mode == 0 && len(got) == stop+1 {
				return failure
			}
			if mode == 2 && f.Name == skip {
				return fs.SkipDir
			}
			return nil
		})
	}
	sym.Reach("enumerated")
	stopped := mode < 2 && len(want) > stop
	if stopped {
		want = want[:stop+1]
	}
	sym.Observe("got", strings.Join(got, " "))
	if mode == 0 && stopped {
		sym.Assert(err == failure, "the error of the function is lost")
	} else {
		sym.Assert(err == nil, "enumerating failed by itself")
	}
	sym.Assert(strings.Join(got, " ") == strings.Join(want, " "), "other files are enumerated")
}

// HLines reads the names of files.
func HLines() {
	text := sym.String("text", sym.Bound(6, 8), "a#; \n")
	set := &cli.FileSet{Files: []string{"first"}}
	err := set.SetData(strings.NewReader(text))
	sym.Assert(err == nil, "names can't be read")
	sym.Reach("read")
	want := []string{"first"}
	line := ""
	for i := 0; i <= len(text); i++ {
		if i < len(text) && text[i] != '\n' {
			line += string(text[i])
			continue
		}
		for line != "" && line[0] == ' ' {
			line = line[1:]
		}
		for line != "" && line[len(line)-1] == ' ' {
			line = line[:len(line)-1]
		}
		if line != "" && line[0] != '#' && line[0] != ';' {
			want = append(want, line)
		}
		line = ""
	}
	sym.Assert(strings.Join(set.Files, "\n") == strings.Join(want, "\n"), "other names are read")
}

// log is a file system which records what it is asked to do
type log struct {
	calls []string
	err   error
}

func (l *log) add(format string, args ...any) error {
	l.calls = append(l.calls, fmt.Sprintf(format, args...))
	return l.err
}

func (l *log) file(err error) (fs.File, error) {
	return &node{Reader: strings.NewReader("file")}, err
}

type opens struct{ *log }

func (o opens) Open(name string) (fs.File, error) { return o.file(o.add("open %q", name)) }

type changes struct{ opens }

func (c changes) Chmod(n string, m fs.FileMode) error { return c.add("chmod %q %o", n, m) }
func (c changes) Chown(n string, u, g int) error      { return c.add("chown %q %d %d", n, u, g) }
func (c changes) Chtimes(n string, a, m time.Time) error {
	return c.add("chtimes %q %d %d", n, a.Unix(), m.Unix())
}
func (c changes) Rename(a, b string) error { return c.add("rename %q %q", a, b) }
func (c changes) Remove(n string) error    { return c.add("remove %q", n) }
func (c changes) RemoveAll(n string) error { return c.add("removeall %q", n) }
func (c changes) Mkdir(n string, m fs.FileMode) error {
	return c.add("mkdir %q %o", n, m)
}
func (c changes) MkdirAll(n string, m fs.FileMode) error {
	return c.add("mkdirall %q %o", n, m)
}
func (c changes) OpenFile(n string, f int, m fs.FileMode) (fs.File, error) {
	return c.file(c.add("openfile %q %d %o", n, f, m))
}
func (c changes) Stat(n string) (fs.FileInfo, error) {
	return entry{name: "info"}, c.add("stat %q", n)
}

type whole struct{ changes }

func (w whole) Create(n string) (fs.File, error) { return w.file(w.add("create %q", n)) }
func (w whole) OpenContext(c context.Context, n string) (fs.File, error) {
	return w.file(w.add("opencontext %q %v", n, c.Value("k")))
}

// do performs an operation on a file
func do(f *cli.File, op int) error {
	at := func(n int64) time.Time { return time.Unix(n, 0) }
	switch op {
	case 0:
		_, err := f.Open()
		return err
	case 1:
		return f.Chmod(0712)
	case 2:
		return f.Chown(3, 4)
	case 3:
		return f.Chtimes(at(5), at(6))
	case 4:
		return f.Rename("other")
	case 5:
		return f.Remove()
	case 6:
		return f.RemoveAll()
	case 7:
		return f.Mkdir(0713)
	case 8:
		return f.MkdirAll(0714)
	case 9:
		_, err := f.OpenFile(os.O_APPEND, 0715)
		return err
	case 10:
		_, err := f.Stat()
		return err
	case 11:
		_, err := f.Create()
		return err
	default:
		_, err := f.OpenContext(context.WithValue(context.Background(), "k", "v"))
		return err
	}
}

var calls = []string{
	"open %q", "chmod %q 712", "chown %q 3 4", "chtimes %q 5 6", `rename %q "other"`, "remove %q", "removeall %q",
	"mkdir %q 713", "mkdirall %q 714", fmt.Sprintf("openfile %%q %d 715", os.O_APPEND), "stat %q", "create %q", "opencontext %q v",
}

// HDelegate performs an operation on a file of a file system that supports some.
func HDelegate() {
	name := sym.String("name", 2, "a/.-")
	op := sym.Choose("op", len(calls))
	l := &log{}
	if sym.Bool("fails") {
		l.err = errors.New("failed")
	}
	kind := sym.Choose("fs", 3)
	var f fs.FS = []fs.FS{opens{l}, changes{opens{l}}, whole{changes{opens{l}}}}[kind]
	if sym.Bool("wrapped") {
		f = cli.NewFS(f)
	}
	err := do(&cli.File{Name: name, FS: f}, op)
	sym.Reach("done")
	want := fmt.Sprintf(calls[op], name)
	supported := kind == 2 || kind == 1 && op < 11 || op == 0
	switch {
	case op == 12 && kind < 2 || op == 10 && kind == 0:
		want, supported = fmt.Sprintf("open %q", name), true
	case op == 11 && kind == 1:
		want, supported = fmt.Sprintf("openfile %q %d 666", name, os.O_RDWR|os.O_CREATE|os.O_TRUNC), true
	}
	if supported {
		sym.Assert(strings.Join(l.calls, ";") == want, "the file system is asked for something else")
		sym.Assert(err == l.err, "the error is another than the file system's")
		return
	}
	sym.Assert(len(l.calls) == 0, "the file system is asked for something that it doesn't support")
	var p *fs.PathError
	sym.Assert(errors.As(err, &p) && p.Path == name, "an operation that isn't supported must be an error with the path")
}

// HDash operates on a file named - or otherwise.
func HDash() {
	name := sym.String("name", 2, "-a/")
	sym.Assume(name != "--")
	l := &log{}
	var out bytes.Buffer
	f := &cli.File{Name: name}
	app := &cli.App{
		Name: "app", Stderr: io.Discard, Stdin: strings.NewReader("input"), Stdout: &out,
		Args: []*cli.Arg{{Name: "f", Value: new(cli.File)}},
		FS:   cli.NewSysFS(whole{changes{opens{l}}}, strings.NewReader("input"), &out),
	}
	if sym.Bool("custom") {
		f.FS = app.FS
	} else if name == "-" {
		// the file system of an app which doesn't set one
		app.FS = nil
	}
	ran := false
	op := sym.Choose("op", 9)
	app.Action = func(c *cli.Context) {
		ran = true
		if f.FS == nil {
			f = c.File("f")
		}
		sym.Assert(f.Name == name, "the file has another name")
		var x fs.File
		var err error
		read, write := false, false
		want := ""
		switch op {
		case 0:
			x, err = f.Open()
			read, write = true, true
			want = "opencontext %q <nil>"
		case 1:
			x, err = f.OpenContext(context.Background())
			read, write = true, true
			want = "opencontext %q <nil>"
		case 2:
			x, err = f.Create()
			write = true
			want = fmt.Sprintf("openfile %%q %d 666", os.O_RDWR|os.O_CREATE|os.O_TRUNC)
		case 3:
			x, err = f.OpenFile(os.O_RDONLY, 0600)
			read = true
			want = fmt.Sprintf("openfile %%q %d 600", os.O_RDONLY)
		case 4:
			x, err = f.OpenFile(os.O_WRONLY|os.O_CREATE, 0600)
			write = true
			want = fmt.Sprintf("openfile %%q %d 600", os.O_WRONLY|os.O_CREATE)
		case 5:
			x, err = f.OpenFile(os.O_RDWR|os.O_APPEND, 0600)
			write = true
			want = fmt.Sprintf("openfile %%q %d 600", os.O_RDWR|os.O_APPEND)
		case 6:
			info, err := f.Stat()
			sym.Assert(err == nil && info != nil, "a file must have information or an error")
			if name == "-" {
				sym.Assert(!info.IsDir(), "- is a directory")
			}
			want = "stat %q"
		case 7:
			sym.Assert(f.Exists(), "the file doesn't exist")
			want = "stat %q"
		case 8:
			set := &cli.FileSet{Files: []string{name}, Recursive: true, FS: f.FS}
			n := 0
			err := set.Do(func(*cli.File, error) error { n++; return nil })
			sym.Assert(err == nil && n == 1, "a file set of a file has other than the file")
			want = "stat %q"
		}
		sym.Assert(err == nil, "a file can't be opened")
		if name != "-" {
			sym.Assert(strings.Join(l.calls, ";") == fmt.Sprintf(want, name), "the file system is asked for something else")
			return
		}
		sym.Assert(len(l.calls) == 0, "the file system is asked for -")
		if x == nil {
			return
		}
		if read {
			bb, err := io.ReadAll(x)
			sym.Assert(err == nil && string(bb) == "input", "something else than stdin is read")
		}
		if write {
			_, err := fmt.Fprint(x.(io.Writer), "output")
			sym.Assert(err == nil && out.String() == "output", "something else than stdout is written")
		}
		_, err = x.Stat()
		sym.Assert(err == nil, "stdin can't be described")
	}
	err := app.RunContext(context.Background(), []string{"app", "--", name})
	sym.Reach("ran")
	sym.Assert(err == nil && ran, "the app failed")
}

// HReference loads values from files.
func HReference() {
	content := sym.String("content", sym.Bound(2, 3), "x,=\\@\n")
	files := tree{"f": content, "@f": "nested", "b": "bee"}
	optional := sym.Bool("optional")
	var args []string
	max := 1
	kind := sym.Choose("kind", 4)
	if kind == 1 || kind == 3 {
		max = 2
	}
	for i, n := 0, 1+sym.Choose("n", max); i < n; i++ {
		args = append(args, sym.String("value", sym.Bound(2, 3), "@f,b"))
	}
	var want []string
	missing := false
	for _, a := range args {
		name, ref := a, true
		if optional {
			name, ref = strings.CutPrefix(a, "@")
		}
		if !ref {
			want = append(want, a)
			continue
		}
		c, ok := files[name]
		missing = missing || !ok
		want = append(want, c)
	}
	var v any
	switch kind {
	case 0:
		v = new(string)
	case 1:
		v = new([]string)
	case 2:
		v = new([]byte)
	case 3:
		v = new(cli.FileSet)
	}
	o := cli.FileReference
	if optional {
		o = cli.AllowFileReference
	}
	ran := false
	app := &cli.App{
		Name: "app", Stdout: io.Discard, Stderr: io.Discard, FS: files,
		Action: func() { ran = true },
	}
	argv := []string{"app"}
	if sym.Bool("flag") {
		app.Flags = []*cli.Flag{{Name: "v", Value: v, Options: o}}
		argv = append(argv, "-v")
	} else {
		app.Args = []*cli.Arg{{Name: "v", Value: v, Options: o, NArg: len(args)}}
	}
	err := app.RunContext(context.Background(), append(argv, args...))
	sym.Reach("ran")
	sym.Assert((err != nil) == missing, "a run fails if and only if a file is missing")
	sym.Assert(ran == (err == nil), "the action runs if and only if the values are valid")
	if err != nil {
		return
	}
	switch v := v.(type) {
	case *string:
		sym.Assert(*v == want[0], "the value isn't what the file has")
	case *[]string:
		sym.Assert(strings.Join(*v, "|") == strings.Join(want, "|") && len(*v) == len(want), "the values aren't what the files have")
	case *[]byte:
		sym.Assert(string(*v) == want[0], "the bytes aren't what the file has")
	case *cli.FileSet:
		set := new(cli.FileSet)
		for _, w := range want {
			_ = set.SetData(strings.NewReader(w))
		}
		sym.Assert(strings.Join(v.Files, "|") == strings.Join(set.Files, "|"), "the names aren't what the file has")
	}
}

// HPair loads the value of a name-value pair from a file.
func HPair() {
	content := sym.String("content", sym.Bound(2, 3), "x,=\\ ")
	files := tree{"f": content}
	text := sym.String("text", sym.Bound(3, 4), "n@f=\\,")
	args := []string{"app", "-v", text}
	separate := sym.Bool("separate")
	if separate {
		sym.Assume(strings.TrimSpace(text) != "")
		args = append(args, sym.String("second", 2, "@fn="))
	}
	run := func(ref bool) (*cli.NameValue, error) {
		v := &cli.NameValue{AllowFileReference: ref}
		app := &cli.App{
			Name: "app", Stdout: io.Discard, Stderr: io.Discard, FS: files, Action: func() {},
			Flags: []*cli.Flag{{Name: "v", Value: v}},
		}
		return v, app.RunContext(context.Background(), args)
	}
	want, werr := run(false)
	got, err := run(true)
	sym.Reach("ran")
	if werr != nil {
		sym.Assert(err != nil, "an invalid pair is accepted")
		return
	}
	name, ref := strings.CutPrefix(want.Value, "@")
	if ref && name != "f" {
		sym.Assert(err != nil, "a missing file is accepted")
		return
	}
	sym.Assert(err == nil, "a pair can't be loaded")
	sym.Assert(got.Name == want.Name, "loading a value changes the name")
	if ref {
		sym.Assert(strings.TrimSpace(got.Value) == strings.TrimSpace(content), "the value isn't what the file has")
	} else {
		sym.Assert(got.Value == want.Value, "a value that isn't a reference changes")
	}
}

// HMustExist requires a file to exist
func HMustExist() {
	t := arbitrary()
	names := []string{"a", "d", "d/e/x", ""}
	var args []string
	for i, n := 0, sym.Choose("n", 3); i < n; i++ {
		args = append(args, names[sym.Choose("file", len(names))])
	}
	var v any
	switch sym.Choose("kind", 3) {
	case 0:
		v = new(string)
		sym.Assume(len(args) < 2)
	case 1:
		v = new(cli.File)
		sym.Assume(len(args) < 2)
	case 2:
		v = new(cli.FileSet)
	}
	ran := false
	app := &cli.App{
		Name: "app", Stdout: io.Discard, Stderr: io.Discard, FS: t, Action: func() { ran = true },
		Args: []*cli.Arg{{Name: "f", Value: v, Options: cli.MustExist, NArg: len(args)}},
	}
	want := true
	for _, a := range args {
		_, ok := t.has(a)
		want = want && ok
		if a == "" {
			return
		}
	}
	err := app.RunContext(context.Background(), append([]string{"app"}, args...))
	sym.Reach("ran")
	sym.Assert(ran == (err == nil), "the action runs if and only if there isn't an error")
	if len(args) > 0 {
		sym.Assert(ran == want, "a run succeeds if and only if all files exist")
	} else {
		sym.Assert(ran, "nothing has to exist if nothing is given")
	}
}

// HGiven gives a file set or a name-value pair several values.
func HGiven() {
	merge := sym.Bool("merge")
	flag := sym.Bool("flag")
	pair := sym.Bool("pair")
	dflt := sym.Bool("default")
	set := new(cli.FileSet)
	nv := new(cli.NameValue)
	var v any = set
	if pair {
		v = nv
		sym.Assume(!merge && !dflt)
	} else if dflt {
		set.Files = []string{"default"}
	}
	var o cli.Option
	if merge {
		o = cli.Merge
	}
	argv := []string{"app"}
	var values []string
	for i, n := 0, sym.Choose("n", 4); i < n; i++ {
		s := "v" + sym.String("value", 1, "x,@")
		if flag && (i == 0 || pair && len(values) == 2 || !pair && sym.Bool("again")) {
			argv = append(argv, "-v")
			if pair {
				values = nil
			}
		}
		values = append(values, s)
		argv = append(argv, s)
		sym.Assume(!pair || flag || len(values) < 3)
	}
	app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard, Action: func() {}}
	if flag {
		app.Flags = []*cli.Flag{{Name: "v", Value: v, Options: o}}
	} else {
		app.Args = []*cli.Arg{{Name: "v", Value: v, Options: o}}
	}
	err := app.RunContext(context.Background(), argv)
	sym.Reach("ran")
	if pair && len(values) == 0 && !flag {
		return
	}
	sym.Assert(err == nil, "the values are refused")
	if pair {
		switch len(values) {
		case 1:
			sym.Assert(nv.Name == values[0] && nv.Value == "true", "a name without a value isn't true")
		case 2:
			sym.Assert(nv.Name == values[0] && nv.Value == values[1], "the pair is another than given")
		}
		return
	}
	if dflt && (merge || len(values) == 0) {
		values = append([]string{"default"}, values...)
	}
	sym.Assert(strings.Join(set.Files, "|") == strings.Join(values, "|"), "the file set has other files than given")
}
