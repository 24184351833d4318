// Package selftest exercises the engine itself: each harness is run symbolically and natively.
package selftest

import (
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

func HStrings() {
	s := sym.String("s", 3, "ab,=")
	i := strings.IndexByte(s, ',')
	sym.ObserveInt("i", i)
	sym.Observe("up", strings.ToUpper(s))
	sym.Observe("split", strings.Join(strings.Split(s, ","), "|"))
	if i >= 0 {
		sym.Assert(s[i] == ',', "index")
	}
	for _, c := range s {
		sym.Assert(c < 128, "ascii")
	}
	sym.Reach("end")
}

type T struct {
	A int
	B string
	c []byte
}

func (t T) String() string { return "T(" + t.B + ")" }

type myErr struct{ n int }

func (m *myErr) Error() string { return "myErr " + strconv.Itoa(m.n) }

func HFmt() {
	s := sym.String("s", 2, "x\"%\\\n")
	n := sym.Choose("n", 3) - 1
	sym.Observe("f", fmt.Sprintf("%s|%d|%q|%v|%5s|%-5s|%T", s, n, s, []string{s, "b"}, s, s, n))
	sym.Observe("g", fmt.Sprintf("%v %+v %#v", T{n, s, nil}, struct {
		X int
		Y string
	}{n, s}, map[string]int{"a": n, "c": 2}))
	var e error = fmt.Errorf("wrap %s: %w", s, &myErr{n})
	var me *myErr
	sym.ObserveBool("as", errors.As(e, &me))
	sym.ObserveInt("n", me.n)
	sym.Observe("e", e.Error())
	sym.Observe("sp", fmt.Sprint(s, n, true, nil, 'x', 1.5, []byte("hi")))
}

func HConv() {
	s := sym.String("s", 4, "0129-+x_f")
	v, err := strconv.ParseInt(s, 0, 16)
	if err != nil {
		sym.Observe("err", err.Error())
		return
	}
	sym.Assert(v >= -32768 && v <= 32767, "range")
	sym.Observe("v", strconv.FormatInt(v, 10))
}

func HArith() {
	a := int8(sym.Byte("a"))
	b := int8(sym.Byte("b"))
	sym.Assume(b != 0)
	sym.Assert((a/b)*b+a%b == a, "divmod")
	u := sym.Uint16("u")
	sym.Assert(uint8(u)|uint8(u>>8) != 0 || u == 0, "bytes")
	if a > b && b > 100 {
		sym.Assert(int(a)-int(b) > 0, "pos")
	}
	if int(a)*int(b) == 391 {
		sym.Reach("391")
	}
	sym.ObserveInt("a", int(a))
}

func HDefer() {
	n := sym.Choose("n", 4)
	r := func() (res int) {
		defer func() {
			if e := recover(); e != nil {
				res = 100
				if re, ok := e.(error); ok {
					sym.Observe("msg", re.Error())
				}
			}
		}()
		a := []int{1, 2, 3}
		m := map[string]*int{}
		if n == 3 {
			return *m["x"]
		}
		return a[n*2]
	}()
	sym.ObserveInt("r", r)
}

type byLen []string

func (b byLen) Len() int           { return len(b) }
func (b byLen) Less(i, j int) bool { return b[i] < b[j] }
func (b byLen) Swap(i, j int)      { b[i], b[j] = b[j], b[i] }

func HSort() {
	x := []string{sym.String("a", 1, "ab"), sym.String("b", 2, "ab"), sym.String("c", 1, "b")}
	y := append([]string(nil), x...)
	sort.Strings(x)
	sort.Sort(byLen(y))
	sym.Observe("x", strings.Join(x, ","))
	for i := range x {
		sym.Assert(x[i] == y[i], "same")
		if i > 0 {
			sym.Assert(x[i-1] <= x[i], "sorted")
		}
	}
	m := map[string]int{}
	for i, k := range y {
		m[k] += i
	}
	sym.ObserveInt("n", len(m))
	sort.Slice(y, func(i, j int) bool { return y[i] > y[j] })
	sym.Observe("y", strings.Join(y, ","))
}

func HUTF8() {
	s := sym.StringN("s", 2, "a\xc3\xa9\xff")
	n := 0
	for i, r := range s {
		sym.ObserveInt("i", i)
		sym.ObserveInt("r", int(r))
		n++
	}
	sym.Observe("rs", string([]rune(s)))
	sym.Observe("q", strconv.Quote(s))
	var sb strings.Builder
	sb.WriteString(s)
	sb.WriteByte('!')
	sb.WriteRune('é')
	sym.Observe("sb", sb.String())
}

func HWrong() {
	s := sym.String("s", 3, "")
	sym.Assert(s != "\x00zq", "deliberate")
}
