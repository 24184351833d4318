package prov

import (
	"context"
	"io"
	"strconv"
	"strings"
	"time"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/structure"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

type upper string

func (u *upper) Set(s string) error {
	if s == "bad" {
		return errMake
	}
	*u = upper("<" + s + ">")
	return nil
}
func (u *upper) String() string { return string(*u) }

type fields struct {
	Text  string
	Bool  bool
	Int   int
	I8    int8
	U16   uint16
	List  []string
	Ints  []int
	Time  time.Duration
	Ptr   *int
	Own   *upper
	Named string `mapstructure:"other"`
	Same  *upper
}

// HStructure sets the fields of a structure.
func HStructure() {
	seven := 7
	own := upper("o")
	f := fields{Text: "t", Bool: true, Int: 1, I8: 2, U16: 3, List: []string{"l"}, Ints: []int{4}, Time: 5, Ptr: &seven, Named: "n", Same: &own}
	kind := sym.Choose("field", 12)
	var text, want, name string
	fails := false
	intOf := func(s string, bits int) {
		n, err := strconv.ParseInt(s, 0, bits)
		want, fails = strconv.FormatInt(n, 10), err != nil
	}
	all := sym.Bound(2, 3)
	show := func() string {
		switch kind {
		case 0:
			return f.Text
		case 1:
			return strconv.FormatBool(f.Bool)
		case 2:
			return strconv.Itoa(f.Int)
		case 3:
			return strconv.Itoa(int(f.I8))
		case 4:
			return strconv.Itoa(int(f.U16))
		case 5:
			return strings.Join(f.List, "|")
		case 6:
			s := ""
			for _, i := range f.Ints {
				s += strconv.Itoa(i) + "|"
			}
			return s
		case 7:
			return strconv.FormatInt(int64(f.Time), 10)
		case 8:
			return strconv.Itoa(*f.Ptr)
		case 9:
			if f.Own == nil {
				return ""
			}
			return string(*f.Own)
		case 10:
			return f.Named
		}
		return string(*f.Same)
	}
	before := show()
	switch kind {
	case 0, 10:
		name = []string{"text", "other"}[kind/10]
		text = sym.String("text", all+1, "a=:, ")
		sym.Assume(!strings.HasSuffix(text, " ")) // blanks at the end of a list aren't part of it
		want = text
	case 1:
		name = "BOOL"
		text = sym.StringN("text", 1, "")
		sym.Assume(text != "," && text != "\\" && strings.TrimSpace(text) != "")
		b, err := strconv.ParseBool(text)
		want, fails = strconv.FormatBool(b), err != nil
	case 2:
		name = "Int"
		text = "-1" + sym.StringN("text", all, "0_x")
		intOf(text, 64)
	case 3:
		name = "i8"
		text = sym.StringN("text", all+1, "-127")
		intOf(text, 8)
	case 4:
		name = "u16"
		text = []string{"6553", "0x", "-"}[sym.Choose("prefix", 3)] + sym.StringN("text", 1, "123456789")
		n, err := strconv.ParseUint(text, 0, 16)
		want, fails = strconv.FormatUint(n, 10), err != nil
	case 5:
		name = "list"
		text = "x" + sym.StringN("text", all, "a,:") + "y"
		want = strings.ReplaceAll(text, ",", "|")
	case 6:
		name = "ints"
		text = "5," + sym.StringN("text", 1, "12-x")
		n, err := strconv.Atoi(text[2:])
		want, fails = "5|"+strconv.Itoa(n)+"|", err != nil
	case 7:
		name = "time"
		text = sym.StringN("text", 1, "12-") + []string{"s", "ms", "q", ""}[sym.Choose("unit", 4)]
		d, err := time.ParseDuration(text)
		want, fails = strconv.FormatInt(int64(d), 10), err != nil
	case 8:
		name = "ptr"
		text = sym.StringN("text", 2, "-12x")
		intOf(text, 64)
	case 9, 11:
		name = []string{"own", "same"}[kind/11]
		text = "b" + sym.StringN("text", 2, "ad=")
		want, fails = "<"+text+">", text == "bad"
	}
	// around it, other fields are set, each by its own use or all by one
	extra := sym.Choose("extra", 3)
	wantInt, wantText, wantBool := f.Int, f.Text, f.Bool
	mode := sym.Choose("uses", 3)
	pairs := []string{name + "=" + text}
	if (kind == 0 || kind == 10) && mode < 2 {
		pairs[0] = name + "=" + strings.ReplaceAll(text, ",", "\\,")
	}
	if extra > 0 && kind > 2 {
		pairs = append(pairs, "bool=false", "text=z")
		wantText, wantBool = "z", false
		if extra == 2 {
			pairs = append([]string{"int=1", "int=-9", "unknown=x"}, pairs...)
			wantInt = -9
		}
	}
	sym.Assume(extra == 0 || kind > 2)
	args := []string{"app"}
	v := structure.Of(&f)
	fl := &cli.Flag{Name: "f", Value: v}
	if mode == 0 && (kind != 5 && kind != 6) {
		args = append(args, "--f="+strings.Join(pairs, ","))
	} else {
		sym.Assume(mode != 0)
		for _, p := range pairs {
			args = append(args, "--f="+p)
		}
		if mode == 2 {
			fl.Options = cli.DisableSplitting
		}
	}
	ran := false
	app := &cli.App{
		Name: "app", Stdout: io.Discard, Stderr: io.Discard, Flags: []*cli.Flag{fl},
		Action: func(c *cli.Context) {
			ran = true
			sym.Assert(c.Value("f") == &f, "the value of a structure flag isn't the structure")
		},
	}
	err := app.RunContext(context.Background(), args)
	got := show()
	sym.Observe("got", got)
	sym.Observe("want", want)
	if fails {
		sym.Assert(err != nil && !ran, "a value is accepted which isn't valid for its field")
		if kind != 6 {
			sym.Assert(got == before, "a field is changed by a value which isn't valid")
		}
		return
	}
	sym.Assert(err == nil && ran, "a value which is valid for its field is refused")
	sym.Assert(got == want, "a field doesn't have exactly the value given")
	if kind > 2 {
		sym.Assert(f.Int == wantInt && f.Text == wantText && f.Bool == wantBool, "other fields don't keep or get their values")
	}
	if kind != 7 {
		sym.Assert(f.Time == 5, "other fields don't keep or get their values")
	}
	if kind != 8 {
		sym.Assert(seven == 7 && f.Ptr == &seven, "other fields don't keep or get their values")
	}
}
