// Package values states the properties of converting text to values.
package values

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
	"github.com/Carbonfrost/joe-cli/value"
)

const start = 77

type intCase struct {
	bits   int
	signed bool
	dest   any
	get    func() (int64, uint64)
}

func intCases() []intCase {
	i, i8, i16, i32, i64 := int(start), int8(start), int16(start), int32(start), int64(start)
	u, u8, u16, u32, u64 := uint(start), uint8(start), uint16(start), uint32(start), uint64(start)
	return []intCase{
		{64, true, &i, func() (int64, uint64) { return int64(i), 0 }},
		{8, true, &i8, func() (int64, uint64) { return int64(i8), 0 }},
		{16, true, &i16, func() (int64, uint64) { return int64(i16), 0 }},
		{32, true, &i32, func() (int64, uint64) { return int64(i32), 0 }},
		{64, true, &i64, func() (int64, uint64) { return i64, 0 }},
		{64, false, &u, func() (int64, uint64) { return 0, uint64(u) }},
		{8, false, &u8, func() (int64, uint64) { return 0, uint64(u8) }},
		{16, false, &u16, func() (int64, uint64) { return 0, uint64(u16) }},
		{32, false, &u32, func() (int64, uint64) { return 0, uint64(u32) }},
		{64, false, &u64, func() (int64, uint64) { return 0, u64 }},
	}
}

// setWays are the ways text reaches a value.
func setBy(way int, dest any, text string) error {
	switch way {
	case 1:
		return cli.SetData(dest, text)
	case 2:
		return cli.SetData(dest, []byte(text))
	case 3:
		return cli.SetData(dest, strings.NewReader(text))
	case 4:
		return cli.SetData(dest, bytes.NewBufferString(text))
	}
	return cli.Set(dest, text)
}

// checkInt sets an integer from text and compares with the meaning of a Go integer literal.
func checkInt(c intCase, way int, text string) {
	err := setBy(way, c.dest, text)
	gi, gu := c.get()
	if c.signed {
		want, werr := strconv.ParseInt(text, 0, 64)
		if werr == nil && c.bits < 64 && (want > 1<<(c.bits-1)-1 || want < -(1<<(c.bits-1))) {
			werr = strconv.ErrRange
		}
		if werr != nil {
			sym.Reach("invalid")
			sym.Assert(err != nil, "invalid or out of range text is accepted")
			sym.Assert(gi == start, "a refused text changes the value")
			return
		}
		sym.Assert(err == nil, "valid text is refused")
		sym.Assert(gi == want, "the value is not the number written")
		return
	}
	want, werr := strconv.ParseUint(text, 0, 64)
	if werr == nil && c.bits < 64 && want > 1<<c.bits-1 {
		werr = strconv.ErrRange
	}
	if werr != nil {
		sym.Reach("invalid")
		sym.Assert(err != nil, "invalid or out of range text is accepted")
		sym.Assert(gu == start, "a refused text changes the value")
		return
	}
	sym.Assert(err == nil, "valid text is refused")
	sym.Assert(gu == want, "the value is not the number written")
}

// HIntText: arbitrary short text.
func HIntText() {
	cs := intCases()
	c := cs[sym.Choose("type", len(cs))]
	way := 0
	if sym.Tier() > 0 {
		way = sym.Choose("way", 5)
	}
	checkInt(c, way, sym.String("text", sym.Bound(4, 5), "0179-+xXbo_aF. "))
}

// HIntRange: numbers around the limits of each width.
func HIntRange() {
	cs := intCases()
	c := cs[sym.Choose("type", len(cs))]
	// the decimal limits without the last two digits
	pre := []string{"", "0", "1", "2", "3", "127", "128", "255", "327", "655", "21474836", "42949672",
		"92233720368547758", "184467440737095516", "1844674407370955161"}
	text := []string{"", "-", "+"}[sym.Choose("sign", 3)] +
		pre[sym.Choose("prefix", len(pre))] + sym.StringN("digits", 2, "0123456789")
	checkInt(c, 0, text)
}

// HIntBases: hex, octal and binary limits, and every way of setting.
func HIntBases() {
	cs := intCases()
	c := cs[sym.Choose("type", len(cs))]
	way := sym.Choose("way", 5)
	pre := []string{"0x7fff", "0xFF", "0x7fffffff", "0xffffffff", "0x7FFFFFFFFFFFFFFF", "0xffffffffffffffff", "0o17", "0b1111111", "-0x80", "0x8000000000000000", "0x"}
	checkInt(c, way, pre[sym.Choose("prefix", len(pre))]+sym.String("digit", 1, "017f_"))
}

func lower(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] >= 'A' && b[i] <= 'Z' {
			b[i] += 'a' - 'A'
		}
	}
	return string(b)
}

// HBool: the spellings of bool values.
func HBool() {
	was := sym.Bool("was")
	v := was
	text := sym.String("text", sym.Bound(5, 6), "01trueTRUEfalsFALSonOnyNo ")
	err := setBy(sym.Choose("way", 5), &v, text)
	switch lower(text) {
	case "", "1", "true", "on", "t":
		sym.Reach("true")
		sym.Assert(err == nil && v, "a true spelling is not true")
	case "0", "false", "off", "f":
		sym.Reach("false")
		sym.Assert(err == nil && !v, "a false spelling is not false")
	default:
		sym.Assert(err != nil, "an unknown spelling is accepted")
		sym.Assert(v == was, "a refused text changes the value")
	}
}

// HHexOctal: hex and octal values survive printing and parsing.
func HHexOctal() {
	n := int64(sym.Uint16("n"))
	n <<= []int{0, 13, 31, 47}[sym.Choose("shift", 4)]
	if sym.Choose("neg", 2) == 1 {
		n = -n
	}
	if sym.Choose("base", 2) == 0 {
		h := value.Hex(n)
		var r value.Hex
		err := cli.Set(&r, h.String())
		sym.Assert(err == nil && int64(r) == n, "a hex value does not survive printing")
		return
	}
	h := value.Octal(n)
	var r value.Octal
	err := cli.Set(&r, h.String())
	sym.Assert(err == nil && int64(r) == n, "an octal value does not survive printing")
}

// HHexText: what hex and octal accept.
func HHexText() {
	text := sym.String("text", sym.Bound(4, 5), "0x7oG-a")
	if sym.Choose("base", 2) == 0 {
		r := value.Hex(start)
		err := cli.Set(&r, text)
		want, werr := strconv.ParseInt(strings.TrimPrefix(text, "0x"), 16, 64)
		sym.Assert((err == nil) == (werr == nil), "hex text is judged wrongly")
		sym.Assert(int64(r) == want || werr != nil && r == start, "hex text has the wrong value")
		return
	}
	r := value.Octal(start)
	err := cli.Set(&r, text)
	want, werr := strconv.ParseInt(strings.TrimPrefix(text, "0o"), 8, 64)
	sym.Assert((err == nil) == (werr == nil), "octal text is judged wrongly")
	sym.Assert(int64(r) == want || werr != nil && r == start, "octal text has the wrong value")
}

// HByteLength: text is a byte length only when all of it is a number and a unit.
func HByteLength() {
	text := sym.String("text", sym.Bound(4, 5), "12.kMiB -x")
	got, err := value.ParseByteLength(text)
	// reference
	s := strings.TrimSpace(text)
	num, unit := s, ""
	if strings.HasSuffix(s, "B") {
		i := 0
		for i < len(s) && (s[i] >= '0' && s[i] <= '9' || s[i] == '.') {
			i++
		}
		num = s[:i]
		unit = strings.TrimLeft(s[i:], " ")
	}
	mul := map[string]int{"": 1, "B": 1, "kB": 1000, "MB": 1000000, "kiB": 1024, "MiB": 1024 * 1024}
	m, ok := mul[unit]
	var want int
	if ok && (unit == "" || unit == "B") {
		n, e := strconv.Atoi(num)
		ok = e == nil
		want = n
	} else if ok {
		f, e := strconv.ParseFloat(num, 64)
		ok = e == nil
		want = int(f * float64(m))
	}
	sym.ObserveInt("got", got)
	if !ok {
		sym.Assert(err != nil, "text that is not a byte length is accepted")
		return
	}
	sym.Reach("valid")
	sym.Assert(err == nil, "a byte length is refused")
	sym.Assert(got == want, "a byte length has the wrong value")
	var b value.ByteLength
	sym.Assert(cli.Set(&b, text) == nil && int(b) == want, "a byte length value differs")
}

var _ = fmt.Sprint

// HByteUnits: every unit, decimal and binary.
func HByteUnits() {
	units := "kKMGTPEZYRQ"
	u := sym.Choose("unit", len(units))
	bin := sym.Choose("binary", 2) == 1
	want := sym.Choose("number", 100)
	text := strconv.Itoa(want) + units[u:u+1]
	p := u
	if u == 0 {
		p = 1
	}
	base := 1000
	if bin {
		text += "i"
		base = 1024
	}
	over := false
	for i := 0; i < p; i++ {
		if want > (1<<63-1)/base {
			over = true
			break
		}
		want *= base
	}
	got, err := value.ParseByteLength(text + "B")
	if over {
		sym.Known("byte-overflow")
		sym.Assert(err != nil, "a byte length out of range is accepted")
		return
	}
	sym.Assert(err == nil, "a byte length is refused")
	// the value goes through a float64
	diff := got - want
	sym.Assert(diff == 0 || want > 1<<53 && diff > -4096 && diff < 4096, "a unit has the wrong magnitude")
}
