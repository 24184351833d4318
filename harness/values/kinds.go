package values

import (
	"context"
	"errors"
	"io"
	"math"
	"math/big"
	"net"
	"net/url"
	"regexp"
	"time"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

// words is a value which is unmarshaled from text.
type words struct{ text string }

var errWords = errors.New("not words")

func (w *words) UnmarshalText(text []byte) error {
	if len(text) > 0 && text[0] == '!' {
		return errWords
	}
	w.text = "words " + string(text)
	return nil
}

// set sets a variable in one of the ways there are.
func set(p any, text string) error {
	switch sym.Choose("way", 3) {
	case 1:
		app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard, Flags: []*cli.Flag{{Name: "f", Value: p}}}
		return app.RunContext(context.Background(), []string{"app", "--f=" + text})
	case 2:
		app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard, Args: []*cli.Arg{{Name: "a", Value: p, NArg: 1}}}
		return app.RunContext(context.Background(), []string{"app", "--", text})
	}
	return cli.Set(p, text)
}

const (
	notSet   = "a text which isn't valid is accepted, or a valid one isn't"
	notText  = "the value is not what the text says"
	replaced = "a text which isn't valid replaces the value"
)

// HKinds sets variables of the kinds which other packages parse.
func HKinds() {
	switch sym.Choose("kind", 9) {
	case 0:
		text := sym.String("duration", sym.Bound(3, 4), "12hms-")
		v := time.Duration(42)
		want, invalid := time.ParseDuration(text)
		err := set(&v, text)
		sym.Assert((err == nil) == (invalid == nil), notSet)
		if err != nil {
			want = 42
		}
		sym.Assert(v == want, notText)
	case 1:
		texts := []string{"127.0.0.", "::", "1.2.3", "fe80::"}
		text := texts[sym.Choose("prefix", len(texts))] + sym.String("ip", sym.Bound(2, 3), "17.f:")
		v := net.IPv4(9, 9, 9, 9)
		want := net.ParseIP(text)
		err := set(&v, text)
		sym.Assert((err == nil) == (want != nil), notSet)
		if err != nil {
			want = net.IPv4(9, 9, 9, 9)
		}
		sym.Assert(v.Equal(want), notText)
	case 2:
		texts := []string{"", "http://h", "x:"}
		text := texts[sym.Choose("prefix", len(texts))] + sym.String("url", sym.Bound(2, 2), "a%/:1?")
		old := &url.URL{Host: "old"}
		v := old
		want, invalid := url.Parse(text)
		err := set(&v, text)
		sym.Assert((err == nil) == (invalid == nil), notSet)
		if err != nil {
			sym.Assert(v == old, replaced)
			return
		}
		sym.Assert(v != nil && *v == *want, notText)
	case 3:
		text := []string{"", "a", "a+b|c", "(", "[a", "a**", "\\d", "(?i)x"}[sym.Choose("regexp", 8)]
		old := regexp.MustCompile("old")
		v := old
		_, invalid := regexp.Compile(text)
		err := set(&v, text)
		sym.Assert((err == nil) == (invalid == nil), notSet)
		if err != nil {
			sym.Assert(v == old, replaced)
			return
		}
		sym.Assert(v != nil && v.String() == text, notText)
	case 4:
		n := sym.Choose("big", 9)
		text := []string{"", "0", "-12", "123456789012345678901234567890", "1.5", "0x10", "x", "12 ", "+7"}[n]
		want := []string{"", "0", "-12", "123456789012345678901234567890", "", "", "", "", "7"}[n]
		old := big.NewInt(5)
		v := old
		err := set(&v, text)
		sym.Assert((err == nil) == (want != ""), notSet)
		if err != nil {
			sym.Assert(v == old, replaced)
			return
		}
		sym.Assert(v.String() == want, notText)
	case 5:
		n := sym.Choose("float", 8)
		text := []string{"", "0", "-1.5", "2e2", "1e400", "x", "0.25", "1.5 "}[n]
		want := []float64{0, 0, -1.5, 200, 0, 0, 0.25, 0}[n]
		invalid := n == 0 || n == 4 || n == 5 || n == 7
		v := 4.5
		err := set(&v, text)
		sym.Assert((err == nil) == !invalid, notSet)
		if err != nil {
			want = 4.5
		}
		sym.Assert(v == want, notText)
	case 6:
		n := sym.Choose("float", 8)
		text := []string{"", "0", "-1.5", "2e2", "1e40", "x", "0.1", "1.5 "}[n]
		want := []float32{0, 0, -1.5, 200, 0, 0, 0.1, 0}[n]
		invalid := n == 0 || n == 4 || n == 5 || n == 7
		v := float32(4.5)
		err := set(&v, text)
		sym.Assert((err == nil) == !invalid, notSet)
		if err != nil {
			want = 4.5
		}
		sym.Assert(v == want && !math.IsNaN(float64(v)), notText)
	case 7:
		n := sym.Choose("big", 6)
		text := []string{"", "0", "-1.5", "200", "x", "0.25"}[n]
		want := []float64{0, 0, -1.5, 200, 0, 0.25}[n]
		old := big.NewFloat(4.5)
		v := old
		err := set(&v, text)
		sym.Assert((err == nil) == (n != 0 && n != 4), notSet)
		if err != nil {
			sym.Assert(v == old, replaced)
			return
		}
		f, _ := v.Float64()
		sym.Assert(f == want, notText)
	case 8:
		text := sym.String("text", sym.Bound(2, 3), "a! ")
		v := &words{"old"}
		err := set(v, text)
		invalid := text != "" && text[0] == '!'
		sym.Assert((err == nil) == !invalid, notSet)
		if invalid {
			sym.Assert(errors.Is(err, errWords) && v.text == "old", replaced)
			return
		}
		sym.Assert(v.text == "words "+text, notText)
	}
	sym.Reach("set")
}
