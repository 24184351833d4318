package values

import (
	"context"
	"fmt"
	"io"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// refSplit splits on unescaped separators; a backslash before the separator stands for the separator.
func refSplit(s string, sep byte, n int) []string {
	for len(s) > 0 && s[0] == ' ' {
		s = s[1:]
	}
	for len(s) > 0 && s[len(s)-1] == ' ' {
		s = s[:len(s)-1]
	}
	if s == "" {
		return nil
	}
	var res []string
	var cur []byte
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) && s[i+1] == sep {
			cur = append(cur, sep)
			i++
			continue
		}
		if s[i] == sep && (n < 0 || len(res) < n-1) {
			res = append(res, string(cur))
			cur = nil
			continue
		}
		cur = append(cur, s[i])
	}
	return append(res, string(cur))
}

// HSplitText: splitting arbitrary text.
func HSplitText() {
	text := sym.String("text", sym.Bound(7, 9), "a,\\ ")
	n := []int{-1, 1, 2, 3}[sym.Choose("n", 4)]
	got := cli.SplitList(text, ",", n)
	sym.Observe("got", fmt.Sprintf("%q", got))
	sym.Assert(same(got, refSplit(text, ',', n)), "the items are not the pieces between unescaped separators")
}

// HSplitRound: items joined with their separators escaped are split back into the same items.
func HSplitRound() {
	n := 1 + sym.Choose("items", 3)
	sep := []string{",", "=", "::"}[sym.Choose("sep", 3)]
	var items, esc []string
	for i := 0; i < n; i++ {
		it := sym.String("item", sym.Bound(3, 4), "x,=:")
		items = append(items, it)
		esc = append(esc, strings.ReplaceAll(it, sep, "\\"+sep))
	}
	text := strings.Join(esc, sep)
	sym.Assume(text != "")
	if len(sep) > 1 {
		// an item that ends with part of the separator would run into it
		for _, it := range items {
			sym.Assume(it == "" || it[0] != ':' && it[len(it)-1] != ':')
		}
	}
	got := cli.SplitList(text, sep, -1)
	sym.Assert(same(got, items), "escaped items do not survive splitting")
}

// HMapRound: a map written as escaped pairs is read back.
func HMapRound() {
	esc := func(s string) string {
		return strings.ReplaceAll(strings.ReplaceAll(s, ",", "\\,"), "=", "\\=")
	}
	n := 1 + sym.Choose("pairs", 2)
	want := map[string]string{}
	var pairs []string
	for i := 0; i < n; i++ {
		k := string(rune('a'+i)) + sym.String("key", 2, "k,=")
		v := sym.String("value", 2, "v,=")
		want[k] = v
		pairs = append(pairs, esc(k)+"="+esc(v))
	}
	text := strings.Join(pairs, ",")
	check := func(got map[string]string) {
		sym.Assert(len(got) == len(want), "the map has the wrong number of keys")
		for k, v := range want {
			g, ok := got[k]
			sym.Assert(ok && g == v, "an escaped pair does not survive")
		}
	}
	check(cli.SplitMap(text))
	m := map[string]string{}
	sym.Assert(cli.Set(&m, pairs...) == nil, "a map is refused")
	check(m)
}

// HPairs: arbitrary text given to name-value values never crashes, and is split at the first "=".
func HPairs() {
	text := sym.String("text", sym.Bound(4, 6), "a,\\= ")
	k, v, has := text, "true", false
	parts := refSplit(text, '=', 2)
	if len(parts) > 0 {
		for i := range parts {
			parts[i] = strings.ReplaceAll(parts[i], "\\,", ",")
		}
		k = parts[0]
		if len(parts) == 2 {
			v, has = parts[1], true
		}
	} else {
		k = ""
	}
	var nv cli.NameValue
	err := cli.Set(&nv, text)
	sym.Assert(err == nil && nv.Name == k && nv.Value == v, "a name-value pair is not split at the first unescaped =")
	var list []*cli.NameValue
	err = cli.Set(&list, text)
	if !has {
		sym.Assert(err != nil && len(list) == 0, "a pair without a value is accepted into a list")
	} else {
		sym.Assert(err == nil && len(list) == 1 && list[0].Name == k && list[0].Value == v, "a pair in a list is not split at the first unescaped =")
	}
	var nv2 cli.NameValue
	sym.Assume(text != "")
	err = cli.Set(&nv2, "n", text)
	sym.Assert(err == nil && nv2.Name == "n" && nv2.Value == text, "name and value given apart are not kept")
}

// HQuoteRound: joined and quoted arguments are split back into the same arguments.
func HQuoteRound() {
	n := 1 + sym.Choose("items", 2)
	var items []string
	for i := 0; i < n; i++ {
		items = append(items, sym.String("item", sym.Bound(3, 4)-n+1, "a'\"\\ $\n*~#-;\xc3\xff"))
	}
	text := cli.Join(items)
	sym.Observe("text", text)
	got, err := cli.Split(text)
	sym.Assert(err == nil, "a joined command line does not split")
	sym.Assert(same(got, items), "arguments do not survive quoting")
	for _, it := range items {
		got, err := cli.Split(cli.Quote(it))
		sym.Assert(err == nil && same(got, []string{it}), "a quoted argument is not one argument")
	}
}

// HQuoteBytes: every byte on its own survives quoting.
func HQuoteBytes() {
	it := sym.StringN("byte", sym.Bound(1, 2), "")
	got, err := cli.Split(cli.Quote(it))
	sym.Assert(err == nil && same(got, []string{it}), "a quoted argument is not one argument")
}

// HOccurrences: repeated occurrences of string, list, map and int flags and args.
func HOccurrences() {
	opts := []cli.Option{0, cli.Merge, cli.DisableSplitting, cli.Merge | cli.DisableSplitting}[sym.Choose("options", 4)]
	merge := opts&cli.Merge != 0
	split := opts&cli.DisableSplitting == 0
	k := sym.Choose("occurrences", sym.Bound(3, 4))
	def := sym.Choose("default", 2) == 1
	kind := sym.Choose("kind", 4)
	var str string
	var list []string
	var mp map[string]string
	var num int
	if def {
		str, list, mp, num = "d", []string{"d", "e"}, map[string]string{"d": "0", "k": "1"}, 5
	}
	var val any = &str
	switch kind {
	case 1:
		val = &list
	case 2:
		val = &mp
	case 3:
		val = &num
	}
	argv := []string{"app"}
	var vals []string
	for i := 0; i < k; i++ {
		var v string
		switch kind {
		case 0:
			v = sym.String("value", 2, "a, ")
		case 1:
			v = sym.String("value", 3, "a,")
		case 2:
			v = []string{"k", "l"}[sym.Choose("key", 2)] + "=" + sym.String("value", 2, "a,")
		case 3:
			v = sym.StringN("value", 1, "0123456789")
		}
		vals = append(vals, v)
		argv = append(argv, "--f="+v)
	}
	app := &cli.App{
		Name: "app", Stderr: io.Discard, Stdout: io.Discard,
		Flags:  []*cli.Flag{{Name: "f", Value: val, Options: opts}},
		Action: func(*cli.Context) {},
	}
	err := app.RunContext(context.Background(), argv)
	sym.Assert(err == nil, "valid occurrences are refused")
	switch kind {
	case 0:
		want := "d"
		if !def {
			want = ""
		}
		for _, v := range vals {
			if merge && want != "" {
				want += " " + v
			} else {
				want = v
			}
		}
		sym.Observe("str", str)
		sym.Assert(str == want, "a string is not its last occurrence, or its merged occurrences")
	case 1:
		var want []string
		if def && (merge || k == 0) {
			want = []string{"d", "e"}
		}
		for _, v := range vals {
			if split {
				want = append(want, refSplit(v, ',', -1)...)
			} else {
				want = append(want, v)
			}
		}
		sym.Observe("list", fmt.Sprintf("%q", list))
		sym.Assert(same(list, want), "a list does not have exactly the items of its occurrences")
	case 2:
		want := map[string]string{}
		if def && (merge || k == 0) {
			want = map[string]string{"d": "0", "k": "1"}
		}
		for _, v := range vals {
			key, text := v[:1], v[2:]
			if split {
				// trailing separators belong to the value, as no pair follows
				want[key] = text
			} else {
				want[key] = text
			}
		}
		sym.Observe("map", fmt.Sprint(mp))
		sym.Assert(len(mp) == len(want), "a map does not have exactly the keys of its occurrences")
		for k, v := range want {
			sym.Assert(mp[k] == v, "a map value is not its last occurrence")
		}
	case 3:
		want := 0
		if def {
			want = 5
		}
		for _, v := range vals {
			want = int(v[0] - '0')
		}
		sym.Assert(num == want, "a number is not its last occurrence")
	}
}
