// Package modes states the properties of sets of features, filters and options.
package modes

import (
	"context"
	"fmt"
	"io"
	"math/bits"
	"sort"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

type feature int

// HFeatures runs the actions of a set of features, some of which are combinations of others.
func HFeatures() {
	values := feature(sym.Int64("values"))
	sym.Assume(values >= 0 && values < 64)
	sets := [][]feature{
		{1, 2, 4},
		{1, 2, 3, 4},
		{3, 4, 5, 8},
		{1, 3, 16, 12},
		{7, 8, 24, 1},
		{7, 17, 48},
		{6, 9, 15, 32},
	}
	keys := append([]feature(nil), sets[sym.Choose("features", len(sets))]...)
	var got []feature
	m := cli.FeatureMap[feature]{}
	for _, k := range keys {
		m[k] = cli.ActionFunc(func(*cli.Context) error {
			got = append(got, k)
			return nil
		})
	}
	sort.Slice(keys, func(i, j int) bool {
		x, y := bits.OnesCount(uint(keys[i])), bits.OnesCount(uint(keys[j]))
		return x > y || x == y && keys[i] > keys[j]
	})
	var want []feature
	rest := values
	for _, k := range keys {
		if rest&k == k {
			want = append(want, k)
			rest &^= k
		}
	}
	ran := false
	app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard, Action: func(c *cli.Context) error {
		ran = true
		sym.MapOrder(true)
		p := m.Pipeline(values)
		sym.MapOrder(false)
		return c.Do(p)
	}}
	err := app.RunContext(context.Background(), []string{"app"})
	sym.Observe("features", fmt.Sprint(got))
	sym.Assert(err == nil && ran, "a pipeline of features fails")
	sym.Assert(len(got) == len(want), "the actions run are not those of the features in the set")
	weight := 64
	var left feature
	for _, k := range got {
		w := bits.OnesCount(uint(k))
		sym.Assert(w <= weight, "the action of a combination is run after that of a feature with fewer bits")
		weight = w
		sym.Assert(values&k == k, "the action of a feature is run which is not in the set")
		sym.Assert(left&k == 0, "a feature is acted upon twice")
		left |= k
	}
	for _, k := range want {
		found := false
		for _, g := range got {
			found = found || g == k
		}
		sym.Assert(found, "the action of a feature in the set is not run")
	}
	sym.Reach("features")
}

// HFilterModes runs an action only where the modes match.
func HFilterModes() {
	mask := sym.Choose("modes", 64)
	all := []cli.FilterModes{cli.AnyFlag, cli.AnyArg, cli.AnyCommand, cli.Seen, cli.RootCommand, cli.HasValue}
	var m cli.FilterModes
	for i, f := range all {
		if mask&(1<<i) != 0 {
			m |= f
		}
	}
	kinds := bits.OnesCount(uint(mask & 7))
	flagSeen, argSeen := sym.Bool("flag seen"), sym.Bool("arg seen")
	argv := []string{"app", "sub"}
	if flagSeen {
		argv = append(argv, "-f=1")
	}
	if argSeen {
		argv = append(argv, "v")
	}
	got := map[string]int{}
	in := func(n string) cli.Action {
		return cli.IfMatch(m, cli.ActionFunc(func(c *cli.Context) error {
			got[n]++
			return nil
		}))
	}
	app := &cli.App{
		Name: "app", Stdout: io.Discard, Stderr: io.Discard,
		Before: in("app"),
		Commands: []*cli.Command{{
			Name:   "sub",
			Before: in("sub"),
			Flags:  []*cli.Flag{{Name: "f", Before: in("flag")}},
			Args:   []*cli.Arg{{Name: "a", NArg: 0, Before: in("arg")}},
		}},
	}
	err := app.RunContext(context.Background(), argv)
	sym.Assert(err == nil, "a valid command line fails")
	has := func(f cli.FilterModes) bool { return m&f == f }
	match := func(isFlag, isArg, isCommand, seen, root, value bool) bool {
		if kinds != 3 && (has(cli.AnyFlag) && !isFlag || has(cli.AnyArg) && !isArg || has(cli.AnyCommand) && !isCommand) {
			return false
		}
		return (!has(cli.Seen) || seen) && (!has(cli.RootCommand) || root) && (!has(cli.HasValue) || value)
	}
	check := func(n string, want bool) {
		sym.Assert((got[n] == 1) == want && got[n] <= 1, "an action runs where the modes don't match, or not where they do")
	}
	check("app", match(false, false, true, false, true, false))
	check("sub", match(false, false, true, false, false, false))
	check("flag", match(true, false, false, flagSeen, false, true))
	check("arg", match(false, true, false, argSeen, false, true))
	sym.Reach("modes")
}

// HFilters runs an action only where a pattern, a timing or a function matches.
func HFilters() {
	timings := []cli.Timing{cli.InitialTiming, cli.BeforeTiming, cli.ActionTiming, cli.AfterTiming}
	var f cli.ContextFilter
	answer := sym.Bool("answer")
	which := sym.Choose("filter", 4)
	want := map[string]bool{}
	targets := []string{"app", "app -f", "app <a>"}
	switch which {
	case 0:
		t := sym.Choose("timing", 4)
		f = timings[t]
		for _, n := range targets {
			want[fmt.Sprint(n, t)] = true
		}
	case 1:
		f = cli.ContextFilterFunc(func(*cli.Context) bool { return answer })
		if answer {
			for _, n := range targets {
				for t := range timings {
					want[fmt.Sprint(n, t)] = true
				}
			}
		}
	case 2:
		f = cli.ContextFilterFunc(nil)
		for _, n := range targets {
			for t := range timings {
				want[fmt.Sprint(n, t)] = true
			}
		}
	case 3:
		i := sym.Choose("target", 3)
		f = cli.PatternFilter([]string{"*", "-", "<>"}[i])
		for t := range timings {
			want[fmt.Sprint(targets[i], t)] = true
		}
	}
	got := map[string]bool{}
	in := func(t int) cli.Action {
		return cli.IfMatch(f, cli.ActionFunc(func(c *cli.Context) error {
			got[fmt.Sprint(c.Path().String(), t)] = true
			return nil
		}))
	}
	app := &cli.App{
		Name: "app", Stdout: io.Discard, Stderr: io.Discard,
		Uses: in(0), Before: in(1), Action: in(2), After: in(3),
		Flags: []*cli.Flag{{Name: "f", Uses: in(0), Before: in(1), Action: in(2), After: in(3)}},
		Args:  []*cli.Arg{{Name: "a", Uses: in(0), Before: in(1), Action: in(2), After: in(3)}},
	}
	err := app.RunContext(context.Background(), []string{"app", "-fv", "w"})
	sym.Assert(err == nil, "a valid command line fails")
	for _, n := range targets {
		for t := range timings {
			k := fmt.Sprint(n, t)
			sym.Assert(got[k] == want[k], "an action runs where the filter doesn't match, or not where it does")
		}
	}
	sym.Reach("filters")
}

// HModeTexts writes sets as text and reads them again.
func HModeTexts() {
	space := []string{"", " ", "\t"}[sym.Choose("space", 3)]
	switch sym.Choose("type", 3) {
	case 0:
		// Timing
		v := []cli.Timing{cli.InitialTiming, cli.BeforeTiming, cli.ActionTiming, cli.AfterTiming, cli.ValidatorTiming, cli.ImplicitValueTiming}[sym.Choose("timing", 6)]
		text, err := v.MarshalText()
		got := cli.Timing(-1)
		sym.Assert(err == nil && len(text) > 0 && v.String() == string(text), "a timing has no text")
		err = got.UnmarshalText([]byte(space + string(text) + space))
		sym.Assert(err == nil && got == v, "the text of a timing is read as another")
	case 1:
		v := cli.FilterModes(sym.Choose("modes", 64))
		text, err := v.MarshalText()
		var got cli.FilterModes
		sym.Assert(err == nil && v.String() == string(text) && (len(text) == 0) == (v == 0), "filter modes have no text")
		err = got.UnmarshalText([]byte(strings.ReplaceAll(string(text), ", ", space+","+space)))
		sym.Assert(err == nil && got == v, "the text of filter modes is read as others")
	case 2:
		n := 24
		v := cli.Option(0)
		for i := sym.Choose("options", sym.Bound(3, 4)); i > 0; i-- {
			v |= 1 << sym.Choose("option", n)
		}
		text, err := v.MarshalText()
		var got cli.Option
		sym.Assert(err == nil && v.String() == string(text) && (len(text) == 0) == (v == 0), "options have no text")
		err = got.UnmarshalText([]byte(strings.ReplaceAll(string(text), ", ", space+","+space)))
		sym.Observe("text", string(text))
		sym.Assert(err == nil && got == v, "the text of options is read as others")
	}
	sym.Reach("texts")
}
