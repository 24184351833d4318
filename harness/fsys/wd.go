package fsys

import (
	"context"
	"os"
	"path"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

// HWorkingDirectory: an option for the working directory changes it before the action, if it is given.
func HWorkingDirectory() {
	names := []string{"/", "usr/lib", "/usr", "..", "", "zz-none", "."}
	exists := map[string]bool{"/": true, "/tmp": true, "/usr": true, "/usr/lib": true}
	start := []string{"/tmp", "/"}[sym.Choose("start", 2)]
	kind := sym.Choose("kind", 4)
	in := sym.Choose("in", 3)
	def := sym.Bool("default")
	n := sym.Choose("times", 3)
	var given []string
	for i := 0; i < n; i++ {
		given = append(given, names[sym.Choose("name", sym.Bound(5, len(names)))])
	}

	// where the run ends up: the last one counts
	want, fails := start, false
	if n > 0 && given[n-1] != "" {
		d := given[n-1]
		if !path.IsAbs(d) {
			d = path.Join(start, d)
		}
		want = path.Clean(d)
		fails = !exists[want]
	}

	var s string
	file := &cli.File{}
	var value any = &s
	if kind == 1 {
		value = file
	}
	if def {
		s = "/usr/lib"
		file.Name = "/usr/lib"
	}
	back, err := os.Getwd()
	sym.Assert(err == nil && os.Chdir(start) == nil, "cannot start")
	ran, seen := false, ""
	see := func() {
		ran = true
		seen, _ = os.Getwd()
	}
	app := &cli.App{Name: "app"}
	argv := []string{"app"}
	fl := &cli.Flag{Name: "C", Value: value}
	if kind == 2 {
		fl.Uses = cli.WorkingDirectory
	} else {
		fl.Options = cli.WorkingDirectory
	}
	switch {
	case kind == 3:
		// an arg takes one value
		sym.Assume(n < 2)
		sym.Assume(n == 0 || given[0] != "")
		app.Args = []*cli.Arg{{Name: "C", Value: value, Options: cli.WorkingDirectory}}
		app.Action = see
		sym.Assume(in == 0)
		argv = append(argv, given...)
	default:
		app.Flags = []*cli.Flag{fl}
		for _, g := range given {
			argv = append(argv, "-C", g)
		}
		switch in {
		case 0:
			app.Action = see
		case 1:
			app.Commands = []*cli.Command{{Name: "sub", Action: see}}
			argv = append(argv, "sub")
		case 2:
			app.Flags = nil
			app.Commands = []*cli.Command{{Name: "sub", Flags: []*cli.Flag{fl}, Action: see}}
			argv = append([]string{"app", "sub"}, argv[1:]...)
		}
	}
	err = app.RunContext(context.Background(), argv)
	after, _ := os.Getwd()
	os.Chdir(back)
	sym.Observe("seen", seen)
	if fails {
		sym.Reach("no such directory")
		sym.Assert(err != nil && !ran, "the action runs though the directory doesn't exist")
		sym.Assert(after == start, "the working directory is another one though the run failed")
		return
	}
	sym.Assert(err == nil && ran, "a run in a directory which exists fails")
	sym.Assert(seen == want, "the action runs in another directory")
	sym.Assert(after == want, "the working directory isn't kept")
}
