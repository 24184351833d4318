package ctx

import (
	"context"
	"errors"
	"fmt"
	"io"
	"maps"
	"slices"
	"time"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

type key int

// ending is a context with a deadline which ends when told to.
type ending struct {
	context.Context
	deadline time.Time
	done     chan struct{}
	err      error
}

func (e *ending) Deadline() (time.Time, bool) { return e.deadline, true }
func (e *ending) Done() <-chan struct{}       { return e.done }
func (e *ending) Err() error                  { return e.err }
func (e *ending) Value(k any) any {
	if k == key(0) {
		return e
	}
	return e.Context.Value(k)
}

var errEnded = errors.New("ended")

// HScope sets values of contexts anywhere and sees where they are
func HScope() {
	type setting struct {
		spot, key, way int
		value          string
	}
	sub := sym.Bool("sub")
	spots := []string{"app uses", "app before", "flag before", "flag action", "app action", "app after", "flag after"}
	if sub {
		spots = []string{"app uses", "app before", "flag before", "flag action", "sub before", "own before", "own action", "sub action", "sub after", "own after", "app after", "flag after"}
	}
	var settings []setting
	for i := 1 + sym.Choose("settings", 2); i > 0; i-- {
		settings = append(settings, setting{
			sym.Choose("spot", len(spots)), 1 + sym.Choose("key", 2), sym.Choose("way", sym.Bound(2, 3)), sym.StringN("value", 1, ""),
		})
	}
	// The context which is given ends at some point
	base := &ending{Context: context.WithValue(context.Background(), key(1), "base"), deadline: time.Unix(1000, 0), done: make(chan struct{})}
	ends := len(spots)
	if len(settings) == 1 || sym.Tier() > 0 {
		ends = sym.Choose("ends", len(spots)+1)
	}

	levels := []map[int]string{{1: "base"}, nil}
	var ran []string
	check := func(c *cli.Context, vals map[int]string) {
		for k := 1; k < 3; k++ {
			want, ok := vals[k]
			got, is := c.Value(key(k)).(string)
			sym.Assert(is == ok && got == want, "another value is seen in the context")
		}
		sym.Assert(c.Value(key(0)) == base, "the context which is given isn't seen")
		d, ok := c.Deadline()
		sym.Assert(ok && d.Equal(base.deadline), "the deadline differs")
		sym.Assert(c.Err() == base.err, "the end of the context differs")
		select {
		case <-c.Done():
			sym.Assert(base.err != nil, "the context is done too early")
		default:
			sym.Assert(base.err == nil, "the context isn't done")
		}
	}
	spot := func(name string, level int, option bool) cli.Action {
		var acts []any
		acts = append(acts, cli.ActionFunc(func(c *cli.Context) error {
			ran = append(ran, name)
			if level == 1 && levels[1] == nil {
				levels[1] = maps.Clone(levels[0])
			}
			check(c, levels[level])
			return nil
		}))
		for _, s := range settings {
			if spots[s.spot] != name {
				continue
			}
			switch s.way {
			case 0:
				acts = append(acts, cli.ContextValue(key(s.key), s.value))
			case 1:
				acts = append(acts, cli.ActionFunc(func(c *cli.Context) error { return c.SetContextValue(key(s.key), s.value) }))
			case 2:
				acts = append(acts, cli.ActionFunc(func(c *cli.Context) error {
					return c.Do(cli.SetContext(context.WithValue(c.Context(), key(s.key), s.value)))
				}))
			}
			if !option {
				acts = append(acts, cli.ActionFunc(func(c *cli.Context) error {
					levels[level][s.key] = s.value
					check(c, levels[level])
					return nil
				}))
			}
		}
		if option {
			acts = append(acts, cli.ActionFunc(func(c *cli.Context) error {
				vals := maps.Clone(levels[level])
				for _, s := range settings {
					if spots[s.spot] == name {
						vals[s.key] = s.value
					}
				}
				check(c, vals)
				return nil
			}))
		}
		if ends < len(spots) && spots[ends] == name {
			acts = append(acts, cli.ActionFunc(func(c *cli.Context) error {
				base.err = errEnded
				close(base.done)
				return nil
			}))
		}
		return cli.Pipeline(acts...)
	}
	app := &cli.App{
		Name: "app", Stdout: io.Discard, Stderr: io.Discard,
		Uses: spot("app uses", 0, false), Before: spot("app before", 0, false), Action: spot("app action", 0, false), After: spot("app after", 0, false),
		Flags: []*cli.Flag{{Name: "f", Value: cli.Bool(),
			Before: spot("flag before", 0, true), Action: spot("flag action", 0, true), After: spot("flag after", 0, true)}},
	}
	line := []string{"app", "-f"}
	if sub {
		app.Commands = []*cli.Command{{
			Name: "s", Before: spot("sub before", 1, false), Action: spot("sub action", 1, false), After: spot("sub after", 1, false),
			Flags: []*cli.Flag{{Name: "g", Value: cli.Bool(),
				Before: spot("own before", 1, true), Action: spot("own action", 1, true), After: spot("own after", 1, true)}},
		}}
		line = append(line, "s", "-g")
	}
	err := app.RunContext(base, line)
	sym.Assert(err == nil, "the run fails")
	sym.Assert(slices.Equal(ran, spots), "the steps differ")
	sym.Reach("scope")
}

// flat are the values of occurrences
func flat(b [][]string, from int) []string {
	res := []string{}
	for _, o := range b {
		res = append(res, o[from:]...)
	}
	return res
}

// HBindings asks for what was given, in every context
func HBindings() {
	each := sym.Bool("each")
	f := &cli.Flag{Name: "f", Aliases: []string{"g", "long"}, Value: cli.String()}
	b := &cli.Flag{Name: "bool", Aliases: []string{"b"}, Value: cli.Bool()}
	x := &cli.Arg{Name: "x", NArg: cli.TakeExceptForFlags}
	given := map[string][][]string{}
	line := []string{"app"}
	for i := sym.Choose("tokens", sym.Bound(3, 4)); i > 0; i-- {
		v := sym.StringN("value", 1, "ab=,")
		switch sym.Choose("token", 5) {
		case 0:
			line = append(line, "-f", v)
			given["f"] = append(given["f"], []string{"-f", v})
		case 1:
			line = append(line, "--long="+v)
			given["f"] = append(given["f"], []string{"--long", v})
		case 2:
			line = append(line, "-g", v)
			given["f"] = append(given["f"], []string{"-g", v})
		case 3:
			line = append(line, "-b")
			given["bool"] = append(given["bool"], []string{"-b", ""})
		case 4:
			line = append(line, v)
			given["x"] = append(given["x"], []string{"<x>", v})
		}
	}
	asked := []string{"f", "-f", "g", "--long", "long", "bool", "b", "x", "<x>"}
	names := []string{"f", "f", "f", "f", "f", "bool", "bool", "x", "x"}
	var available []string
	for n := range given {
		available = append(available, n)
	}
	slices.Sort(available)

	seen := map[string]int{}
	check := func(own string, single bool) cli.Action {
		return cli.ActionFunc(func(c *cli.Context) error {
			i := seen[own]
			seen[own]++
			b := c.BindingLookup()
			got := slices.Clone(b.BindingNames())
			slices.Sort(got)
			sym.Assert(slices.Equal(got, available), "the names of what is available differ")
			for i, a := range asked {
				sym.Assert(same(b.Bindings(a), given[names[i]]), "the occurrences differ")
				sym.Assert(slices.Equal(b.RawOccurrences(a), flat(given[names[i]], 1)), "the raw occurrences differ")
				if own != "x" || names[i] != "x" {
					sym.Assert(slices.Equal(b.Raw(a), flat(given[names[i]], 0)), "the raw values differ")
				}
			}
			sym.Assert(len(b.Bindings("zz")) == 0 && len(b.Raw("zz")) == 0 && len(b.RawOccurrences("zz")) == 0, "what isn't there has values")
			if own == "" {
				sym.Assert(same(b.Bindings(""), [][]string{line}), "the command line differs")
				return nil
			}
			mine := given[own]
			if single {
				mine = mine[i : i+1]
			}
			sym.Assert(same(b.Bindings(""), mine), "the own occurrences differ")
			sym.Assert(slices.Equal(b.RawOccurrences(""), flat(mine, 1)), "the own raw occurrences differ")
			if own != "x" {
				sym.Assert(slices.Equal(b.Raw(""), flat(mine, 0)), "the own raw values differ")
			}
			return nil
		})
	}
	f.Action, b.Action, x.Action = check("f", each), check("bool", false), check("x", false)
	if each {
		f.Options = cli.EachOccurrence
	}
	app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard,
		Flags: []*cli.Flag{f, b}, Args: []*cli.Arg{x}, Action: check("", false)}
	err := app.RunContext(context.Background(), line)
	sym.Assert(err == nil, "the run fails")
	want := 0
	if len(given["f"]) > 0 {
		want = 1
		if each {
			want = len(given["f"])
		}
	}
	sym.Assert(seen["f"] == want && seen[""] == 1, "an action doesn't run")
	sym.Reach(fmt.Sprint("bindings ", len(given)))
}

func same(a, b [][]string) bool {
	return slices.EqualFunc(a, b, slices.Equal[[]string])
}

// HTimeout limits the time of commands
func HTimeout() {
	hour := time.Hour
	limits := []time.Duration{hour, 2 * hour, -hour, 0}
	var limit [2]int
	for i := range limit {
		limit[i] = sym.Choose("limit", len(limits)+1) - 1
	}
	nested := sym.Bool("nested")
	expired := func(level int) bool {
		for i := range level + 1 {
			if limit[i] > 1 {
				return true
			}
		}
		return false
	}
	var last [2]*cli.Context
	var ran []string
	check := func(name string, level int) cli.Action {
		limited := limit[0] >= 0 || level > 0 && limit[1] >= 0
		return cli.ActionFunc(func(c *cli.Context) error {
			ran = append(ran, name)
			last[level] = c
			_, ok := c.Deadline()
			sym.Assert(ok == limited, "there is or isn't a deadline")
			if expired(level) {
				sym.Assert(c.Err() == context.DeadlineExceeded, "the time isn't up")
			} else {
				sym.Assert(c.Err() == nil, "the time is up")
			}
			return nil
		})
	}
	timeout := func(level int) cli.Action {
		if limit[level] < 0 {
			return nil
		}
		d := limits[limit[level]]
		switch sym.Choose("way", 2) {
		case 0:
			return cli.Timeout(d)
		}
		return cli.Pipeline(func() {}, cli.Timeout(d))
	}
	sub := &cli.Command{Name: "s", Action: check("sub action", 1)}
	app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard, Commands: []*cli.Command{sub}, Action: check("app action", 0)}
	place := func(before, uses *any, level int) {
		t := timeout(level)
		if t == nil {
			return
		}
		if sym.Bool("uses") {
			*uses = t
		} else {
			*before = t
		}
	}
	place(&app.Before, &app.Uses, 0)
	place(&sub.Before, &sub.Uses, 1)
	app.Flags = []*cli.Flag{{Name: "f", Value: cli.Bool(), Action: check("flag", 0)}}
	sub.Flags = []*cli.Flag{{Name: "g", Value: cli.Bool(), Action: check("own", 1)}}
	line, want := []string{"app", "-f"}, []string{"flag", "app action"}
	if nested {
		line, want = append(line, "s", "-g"), []string{"flag", "own", "sub action"}
	}
	err := app.RunContext(context.Background(), line)
	sym.Assert(err == nil, "the run fails")
	sym.Assert(slices.Equal(ran, want), "the steps differ")
	for i, c := range last {
		if c != nil && (limit[0] >= 0 || i > 0 && limit[1] >= 0) {
			sym.Assert(c.Err() != nil, "the context isn't released")
		}
	}
	if nested && limit[0] >= 0 && limit[1] >= 0 {
		d0, _ := last[0].Deadline()
		d1, _ := last[1].Deadline()
		sym.Assert(!d1.After(d0), "an inner limit is later")
	}
	sym.Reach("timeout")
}
