package files

import (
	"errors"
	"io/fs"
	"path"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

// HWalk walks a file, which visits it and everything in it, until the function ends it.
func HWalk() {
	t := arbitrary()
	name := []string{"a", "d", "d/e", "zz"}[sym.Choose("name", 4)]
	stop := sym.Choose("stop", 5)
	how := sym.Choose("how", 4)
	want := t.walk(name, "")
	failure := errors.New("stop")
	f := &cli.File{Name: name, FS: t}
	var got []string
	dir, ok := t.has(name)
	err := f.Walk(func(p string, d fs.DirEntry, err error) error {
		got = append(got, p)
		_, ok := t.has(p)
		sym.Assert((err != nil) == !ok, "an error is given just for what is missing")
		if ok {
			isDir, _ := t.has(p)
			sym.Assert(d != nil && d.IsDir() == isDir && d.Name() == base(p), "the entry is another one")
		}
		if len(got) == stop+1 {
			switch how {
			case 0:
				return failure
			case 1:
				return fs.SkipAll
			}
		}
		if how == 2 {
			return err
		}
		return nil
	})
	sym.Observe("got", strings.Join(got, " "))
	switch {
	case how < 2 && len(want) > stop:
		sym.Reach("stopped")
		want = want[:stop+1]
		sym.Assert((err == failure) == (how == 0) && (how == 0 || err == nil), "the error is not the one of the function")
	case how == 2 && !ok:
		sym.Assert(err != nil, "the error for a missing file is lost")
	default:
		sym.Assert(err == nil, "walking failed by itself")
	}
	sym.Assert(strings.Join(got, " ") == strings.Join(want, " "), "other files are walked")
	sym.Assert(f.Exists() == ok, "the file exists although it doesn't, or doesn't although it does")
	_ = dir
}

// HParts obtains the parts of the name of a file.
func HParts() {
	name := sym.String("name", sym.Bound(5, 7), "a./")
	f := &cli.File{}
	sym.Assert(f.Set(name) == nil && f.Name == name && f.String() == name, "a file has not the name it is set to")
	e, d := f.Ext(), f.Dir()
	sym.Observe("ext", e)
	sym.Observe("dir", d)
	last := name[strings.LastIndex(name, "/")+1:]
	if i := strings.LastIndex(last, "."); i < 0 {
		sym.Assert(e == "", "a name without extension has one")
	} else {
		sym.Assert(e == last[i:], "the extension isn't what follows the last dot")
	}
	sym.Assert(d == path.Clean(name[:len(name)-len(last)]), "the directory isn't what precedes the last slash")
}
