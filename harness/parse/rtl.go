package parse

import (
	"fmt"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

// HRTL: with right-to-left binding the rightmost args are filled first, with the values in order.
func HRTL() {
	n := 1 + sym.Choose("args", sym.Bound(4, 5))
	b := &binding{}
	required := 0
	for i := 0; i < n; i++ {
		k := sym.Choose("kind", 2)
		b.args = append(b.args, fmt.Sprint("p", i))
		b.narg = append(b.narg, k)
		required += k
	}
	rtl := sym.Choose("rtl", 2) == 1
	skip := sym.Choose("skip", 2) == 1
	k := sym.Choose("values", n+2)
	var mode cli.RawParseFlag
	if rtl {
		mode = cli.RawRTL
	}
	var vals, argv []string
	for i := 0; i < k; i++ {
		v := sym.StringN("v", 1, "")
		sym.Assume(v != "-")
		vals = append(vals, v)
	}
	argv = vals
	if skip {
		mode |= cli.RawSkipProgramName
		argv = append([]string{"app"}, vals...)
	}
	if k > 0 && sym.Choose("flag", 2) == 1 {
		argv = append([]string{"-a"}, vals...)
		if skip {
			argv = append([]string{"app"}, argv...)
		}
		if rtl {
			sym.Known("rtl-flags")
		}
	}
	m, err := cli.RawParse(argv, b, mode)
	if err != nil {
		sym.Observe("err", err.Error())
	}
	// which args are filled
	lo, hi := 0, k
	if rtl && k < n {
		lo, hi = n-k, n
	}
	bad := k > n
	for i := range b.args {
		if b.narg[i] == 1 && (i < lo || i >= hi) {
			bad = true
		}
	}
	if bad {
		sym.Reach("count error")
		sym.Assert(err != nil, "too few or too many values are accepted")
		return
	}
	sym.Assert(err == nil, "a fitting number of values is refused")
	j := 0
	for i := 0; i < n; i++ {
		got := m.RawOccurrences(b.args[i])
		sym.Observe(b.args[i], fmt.Sprint(got))
		if i < lo || i >= hi {
			sym.Assert(len(got) == 0, "an arg is filled out of turn")
			continue
		}
		sym.Assert(len(got) == 1 && j < len(vals) && got[0] == vals[j], "an arg does not get its value")
		j++
	}
}
