// Package fsys checks the file systems: directories, files opened with a context and standard streams.
package fsys

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"strings"
	"time"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

// root is a directory which does not exist, so that operations have no effect but tell their path in the error
const root = "/zz-none/a/b"

// HDir operates on files which do not exist in a directory.
func HDir() {
	name := "zz-none" + sym.String("name", sym.Bound(3, 4), "a./")
	abs := sym.Bool("absolute")
	if abs {
		name = "/zz-none/" + name
	}
	dir := root
	f := cli.DirFS(dir)
	if sym.Bool("sub") {
		sub := []string{".", "s", "s/t.u"}[sym.Choose("of", 3)]
		s, err := fs.Sub(f, sub)
		sym.Assert(err == nil, "there is no file system for a directory inside")
		f = cli.NewFS(s)
		dir = path.Join(root, sub)
	}
	want := path.Join(dir, name)
	if abs {
		want = name
	}
	x := &cli.File{Name: name, FS: f}
	op := ""
	var err error
	switch sym.Choose("op", 10) {
	case 0:
		op = "stat"
		_, err = x.Stat()
	case 1:
		op = "open"
		_, err = x.Open()
	case 2:
		op = "open"
		_, err = x.OpenContext(context.Background())
	case 3:
		op = "open"
		_, err = x.Create()
	case 4:
		op = "open"
		_, err = x.OpenFile(os.O_RDONLY, 0)
	case 5:
		op = "chmod"
		err = x.Chmod(0600)
	case 6:
		op = "chown"
		err = x.Chown(1, 2)
	case 7:
		op = "chtimes"
		err = x.Chtimes(time.Unix(1, 0), time.Unix(2, 0))
	case 8:
		op = "remove"
		err = x.Remove()
	case 9:
		op = "mkdir"
		err = x.Mkdir(0755)
	}
	var pe *fs.PathError
	sym.Assert(errors.As(err, &pe), "an operation on a file which does not exist has another error")
	sym.Observe("err", pe.Op+" "+pe.Path)
	sym.Assert(pe.Op == op, "another operation is performed")
	sym.Assert(pe.Path == want, "the operation is performed on another file")
	sym.Assert(errors.Is(err, fs.ErrNotExist), "an operation on a file which does not exist has another error")
	sym.Assert(!x.Exists(), "a file exists which does not")
	sym.Reach("dir")
}

// HRename renames files which do not exist in a directory.
func HRename() {
	var names, want [2]string
	for i := range names {
		names[i] = "zz-none" + sym.String("name", sym.Bound(2, 3), "a./")
		want[i] = path.Join(root, names[i])
		if sym.Bool("absolute") {
			names[i] = "/zz-none/" + names[i]
			want[i] = names[i]
		}
	}
	x := &cli.File{Name: names[0], FS: cli.DirFS(root)}
	err := x.Rename(names[1])
	var le *os.LinkError
	sym.Assert(errors.As(err, &le), "renaming a file which does not exist has another error")
	sym.Observe("err", le.Op+" "+le.Old+" "+le.New)
	sym.Assert(le.Op == "rename" && le.Old == want[0] && le.New == want[1], "other files are renamed")
	sym.Reach("rename")
}

// custom is a context which ends when it is told to.
type custom struct {
	context.Context
	err      error
	deadline bool
}

func (c *custom) Err() error { return c.err }
func (c *custom) Deadline() (time.Time, bool) {
	return time.Time{}, c.deadline
}

var errEnd = errors.New("context has ended")

// HOpened reads and writes files which are opened with a context.
func HOpened() {
	c := &custom{Context: context.Background()}
	null := sym.Bool("null")
	name := "zero"
	if null {
		name = "null"
	}
	c.deadline = sym.Bool("deadline")
	if sym.Bool("before") {
		c.err = errEnd
	}
	x := &cli.File{Name: name, FS: cli.DirFS("/dev")}
	with := sym.Bool("context")
	var f fs.File
	var err error
	if with {
		f, err = x.OpenContext(c)
	} else {
		f, err = x.OpenContext(nil)
	}
	sym.Assert(err == nil || c.err != nil && errors.Is(err, errEnd), "a file which exists can't be opened")
	if err != nil {
		return
	}
	size := sym.Choose("size", 3)
	for range 1 + sym.Choose("times", sym.Bound(3, 4)) {
		b := []byte{1, 2, 3}[:size]
		var n int
		var err error
		if sym.Bool("write") {
			n, err = f.(io.Writer).Write(b)
			if c.err == nil || !with {
				var pe *fs.PathError
				sym.Assert(n == 0 && (size == 0 || errors.As(err, &pe) && pe.Path == "/dev/"+name), "a file opened for reading can be written")
			}
		} else {
			n, err = f.Read(b)
			if c.err == nil || !with {
				if null {
					sym.Assert(n == 0 && (err == io.EOF || err == nil && size == 0), "an empty file has contents")
				} else {
					sym.Assert(n == size && err == nil, "a file can't be read while its context goes on")
					for _, v := range b {
						sym.Assert(v == 0, "other contents are read")
					}
				}
			}
		}
		if c.err != nil && with {
			sym.Assert(err == c.err && n == 0, "a file can be used although its context has ended")
		}
		if sym.Bool("end") {
			c.err = errEnd
		}
	}
	sym.Assert(f.Close() == nil, "a file can't be closed")
	sym.Reach("opened")
}

// reader and writer record what is asked for
type stream struct {
	trace []string
	err   error
	dir   string
}

func (s *stream) Read(p []byte) (int, error) {
	s.trace = append(s.trace, fmt.Sprintf("read %d", len(p)))
	return 1, s.err
}

func (s *stream) Write(p []byte) (int, error) {
	s.trace = append(s.trace, "write "+string(p))
	return len(p), s.err
}

type closer struct{ *stream }

func (s closer) Close() error {
	s.trace = append(s.trace, "close")
	return s.err
}

type full struct{ *stream }

func (s full) Close() error {
	s.trace = append(s.trace, "close")
	return s.err
}

func (s full) ReadAt(p []byte, off int64) (int, error) {
	s.trace = append(s.trace, fmt.Sprintf("readat %d %d", len(p), off))
	return 2, s.err
}

func (s full) Seek(off int64, whence int) (int64, error) {
	s.trace = append(s.trace, fmt.Sprintf("seek %d %d", off, whence))
	return 3, s.err
}

func (s full) WriteString(t string) (int, error) {
	s.trace = append(s.trace, "writestring "+t)
	return len(t), s.err
}

// HStd uses the standard streams as a file.
func HStd() {
	in, out := &stream{}, &stream{}
	errIn, errOut := errors.New("in"), errors.New("out")
	if sym.Bool("in fails") {
		in.err = errIn
	}
	if sym.Bool("out fails") {
		out.err = errOut
	}
	kin, kout := sym.Choose("in", 3), sym.Choose("out", 3)
	r := []io.Reader{in, closer{in}, full{in}}[kin]
	w := []io.Writer{out, closer{out}, full{out}}[kout]
	x := &cli.File{Name: "-", FS: cli.NewSysFS(cli.DirFS(root), r, w)}
	f, err := x.Open()
	sym.Assert(err == nil, "the standard streams can't be opened")
	switch sym.Choose("op", 6) {
	case 0:
		n, err := f.Read(make([]byte, 5))
		sym.Assert(n == 1 && err == in.err, "reading has another result than that of stdin")
		sym.Assert(strings.Join(in.trace, ";") == "read 5" && len(out.trace) == 0, "something else than stdin is read")
	case 1:
		n, err := f.(io.Writer).Write([]byte("text"))
		sym.Assert(n == 4 && err == out.err, "writing has another result than that of stdout")
		sym.Assert(strings.Join(out.trace, ";") == "write text" && len(in.trace) == 0, "something else than stdout is written")
	case 2:
		n, err := f.(io.StringWriter).WriteString("text")
		want := "write text"
		if kout == 2 {
			want = "writestring text"
		}
		sym.Assert(n == 4 && err == out.err, "writing has another result than that of stdout")
		sym.Assert(strings.Join(out.trace, ";") == want && len(in.trace) == 0, "something else than stdout is written")
	case 3:
		n, err := f.(io.ReaderAt).ReadAt(make([]byte, 5), 3)
		if kin == 2 {
			sym.Assert(n == 2 && err == in.err && strings.Join(in.trace, ";") == "readat 5 3", "reading has another result than that of stdin")
		} else {
			sym.Assert(n == 0 && errors.Is(err, errors.ErrUnsupported), "reading at an offset is supported although stdin does not")
		}
	case 4:
		whence := sym.Choose("whence", 3)
		n, err := f.(io.Seeker).Seek(7, whence)
		if kin == 2 {
			sym.Assert(n == 3 && err == in.err && strings.Join(in.trace, ";") == fmt.Sprintf("seek 7 %d", whence), "seeking has another result than that of stdin")
		} else {
			sym.Assert(n == 0 && errors.Is(err, errors.ErrUnsupported), "seeking is supported although stdin does not")
		}
		sym.Assert(len(out.trace) == 0, "stdout is used")
	case 5:
		err := f.Close()
		var want []string
		var wantErr error
		if kin > 0 {
			want = []string{"close"}
			wantErr = in.err
		}
		sym.Assert(strings.Join(in.trace, ";") == strings.Join(want, ";"), "stdin is not closed")
		want = nil
		if kout > 0 {
			want = []string{"close"}
			if out.err != nil {
				wantErr = out.err
			}
		}
		sym.Assert(strings.Join(out.trace, ";") == strings.Join(want, ";"), "stdout is not closed")
		sym.Assert((err != nil) == (wantErr != nil), "an error of closing is lost")
		sym.Assert(err == nil || err == errIn || err == errOut || errors.Is(err, errIn) || errors.Is(err, errOut), "closing has another error")
	}
	sym.Reach("std")
}

// HAll makes and removes directories below a device, which fails and tells where.
func HAll() {
	const root = "/dev/null/x"
	name := "zz-none" + sym.String("name", sym.Bound(3, 4), "ab/")
	x := &cli.File{Name: name, FS: cli.DirFS(root)}
	var pe *fs.PathError
	if sym.Bool("remove") {
		sym.Assert(errors.As(x.RemoveAll(), &pe), "removing below a device has no error")
		sym.Observe("err", pe.Op+" "+pe.Path)
		sym.Assert(pe.Op == "open" && pe.Path == path.Dir(path.Join(root, name)), "another directory is removed")
	} else {
		sym.Assert(errors.As(x.MkdirAll(0755), &pe), "making a directory below a device has no error")
		sym.Observe("err", pe.Op+" "+pe.Path)
		sym.Assert(pe.Op == "mkdir" && pe.Path == "/dev/null", "another directory is made")
	}
	sym.Reach("all")
}
