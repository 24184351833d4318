// Package style checks colors and styles of the output.
package style

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/color"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

// the codes of ECMA-48 for each style and color
type named[T any] struct {
	name string
	v    T
	code string
}

var styles = []named[cli.Style]{
	{"Bold", cli.Bold, "1"}, {"Faint", cli.Faint, "2"}, {"Italic", cli.Italic, "3"}, {"Underline", cli.Underline, "4"},
	{"Blink", cli.Blink, "5"}, {"Reverse", cli.Reverse, "7"}, {"Strikethrough", cli.Strikethrough, "9"}, {"Conceal", cli.Conceal, "8"},
}

var colors = []named[cli.Color]{
	{"Default", cli.Default, "39"}, {"Black", cli.Black, "30"}, {"Red", cli.Red, "31"}, {"Green", cli.Green, "32"},
	{"Yellow", cli.Yellow, "33"}, {"Blue", cli.Blue, "34"}, {"Magenta", cli.Magenta, "35"}, {"Cyan", cli.Cyan, "36"},
	{"Gray", cli.Gray, "37"}, {"DarkGray", cli.DarkGray, "90"}, {"BrightRed", cli.BrightRed, "91"}, {"BrightGreen", cli.BrightGreen, "92"},
	{"BrightYellow", cli.BrightYellow, "93"}, {"BrightBlue", cli.BrightBlue, "94"}, {"BrightMagenta", cli.BrightMagenta, "95"},
	{"BrightCyan", cli.BrightCyan, "96"}, {"White", cli.White, "97"},
}

func background(code string) string {
	if code[0] == '3' {
		return "4" + code[1:]
	}
	return "10" + code[1:]
}

func esc(on bool, codes ...string) string {
	if !on {
		return ""
	}
	var s string
	for _, c := range codes {
		s += "\x1b[" + c + "m"
	}
	return s
}

// HWriter writes with arbitrary styles.
func HWriter() {
	var out bytes.Buffer
	w := cli.NewWriter(&out)
	var read func() string
	read = out.String
	if sym.Bool("buffer") {
		b := cli.NewBuffer()
		w, read = b, b.String
	}
	on := false
	want := ""
	for i := sym.Bound(3, 4); i > 0; i-- {
		t := ""
		st := styles[0]
		op := sym.Choose("op", 10)
		if op == 6 || op == 7 || op == 5 {
			t = sym.StringN("text", sym.Choose("len", 2), "x \x1bm%")
		}
		if op == 1 || op == 7 {
			st = styles[sym.Choose("style", 2)*3]
		}
		var n int
		var err error
		switch op {
		case 0:
			on = sym.Bool("on")
			w.SetColorCapable(on)
		case 1:
			w.SetStyle(st.v)
			want += esc(on, st.code)
		case 2:
			w.SetForeground(cli.BrightRed)
			want += esc(on, "91")
		case 3:
			w.SetBackground(cli.Default)
			want += esc(on, "49")
		case 4:
			w.Reset()
			want += esc(on, "0")
		case 5:
			n, err = w.WriteString(t)
			want += t
		case 6:
			n, err = w.Write([]byte(t))
			want += t
		case 7:
			n, err = w.Styled(st.v, t)
			want += esc(on, st.code) + t + esc(on, "0")
		case 8:
			t = "a1 2b"
			n, err = w.Bold("a", 1, 2, "b")
			want += esc(on, "1") + t + esc(on, "0")
		case 9:
			t = "u"
			n, err = w.Underline(t)
			want += esc(on, "4") + t + esc(on, "0")
		}
		sym.Assert(n == len(t) && err == nil, "writing text doesn't give its length")
		sym.Assert(w.ColorCapable() == on, "a writer doesn't tell whether color is on")
	}
	got := read()
	sym.Observe("got", got)
	sym.Assert(got == want, "the output isn't exactly the text, with the styles if color is on")
}

// HFuncs executes templates with styles.
func HFuncs() {
	on := sym.Bool("on")
	st := styles[sym.Choose("style", len(styles))]
	co := colors[sym.Choose("color", 3)]
	bad := ""
	kind := sym.Choose("kind", 16)
	switch kind {
	case 0, 1, 2, 3, 4:
		sym.Assume(co.name == "Default")
	case 5, 6, 7, 8, 9:
		sym.Assume(st.name == "Bold")
		co = colors[sym.Choose("which", len(colors))]
	default:
		sym.Assume(st.name == "Bold" && co.name == "Default")
	}
	text := sym.StringN("text", sym.Choose("len", 3), "x %")
	tpl, want := "", ""
	wrap := func(code, off, s string) string {
		if s == "" {
			return ""
		}
		return esc(on, code) + s + esc(on, off)
	}
	items := []string{text, "b", "c"}[:sym.Choose("items", 4)]
	if kind != 13 {
		sym.Assume(len(items) == 0)
	}
	switch kind {
	case 0:
		tpl, want = "{{ .Text | "+st.name+" }}", wrap(st.code, "0", text)
	case 1:
		tpl, want = "{{ "+st.name+" }}{{ .Text }}{{ Reset }}", esc(on, st.code)+text+esc(on, "0")
	case 2:
		tpl, want = `{{ .Text | Style "`+st.name+`" }}`, wrap(st.code, "0", text)
	case 3:
		tpl, want = `{{ Style " Blink  `+st.name+` " .Text }}`, ""
		if text != "" {
			want = esc(on, "5", st.code) + text + esc(on, "0")
		}
	case 4:
		tpl, want = `{{ Style "`+st.name+` Blink" }}`, esc(on, st.code, "5")
	case 5:
		sym.Assume(co.name != "Default")
		tpl, want = "{{ .Text | "+co.name+" }}", wrap(co.code, "39", text)
	case 6:
		sym.Assume(co.name != "Default")
		tpl, want = "{{ "+co.name+" }}{{ .Text }}{{ ResetColor }}", esc(on, co.code)+text+esc(on, "39")
	case 7:
		tpl, want = `{{ .Text | Color "`+co.name+`" }}`, wrap(co.code, "39", text)
	case 8:
		tpl, want = `{{ Color "`+co.name+`" }}`, esc(on, co.code)
	case 9:
		tpl, want = `{{ .Text | Background "`+co.name+`" }}`, wrap(background(co.code), "49", text)
	case 10:
		tpl, bad = `{{ .Text | Style .Bad }}`, sym.String("bad", 2, "Xd ")
		if strings.TrimSpace(bad) == "" {
			bad, want = "", text
			tpl = `{{ .Text | Style " " }}`
		}
	case 11:
		tpl, bad = `{{ .Text | Color .Bad }}`, sym.StringN("bad", 2, "Xd ")
	case 12:
		tpl, bad = `{{ .Text | Style "Bold" .Bad | Emoji }}`, "x"
		tpl = `{{ Emoji .Bad }}`
		if !on {
			bad = ""
		}
	case 13:
		tpl = `{{ .Items | BoldFirst | Join "," }}`
		for i, s := range items {
			if i == 0 {
				want = wrap("1", "0", s)
			} else {
				want += "," + s
			}
		}
	case 14:
		e := [][2]string{{"Tada", "🎉"}, {"Fire", "🔥"}, {"Sparkles", "✨"}, {"Exclamation", "❗"}, {"Bulb", "💡"}, {"X", "❌"}, {"HeavyCheckMark", "✔️"}, {"Warning", "⚠️"}, {"Play", "▶"}}[sym.Choose("emoji", 9)]
		tpl = `{{ Emoji "` + e[0] + `" }}` + `{{ Emoji "" }}`
		if on {
			want = e[1]
		}
	case 15:
		tpl, want = `{{ Style "Bold" .Text 1 2 "a" }}`, esc(on, "1")+text+"1 2a"+esc(on, "0")
	}
	var out bytes.Buffer
	data := func(*cli.Context) any {
		return map[string]any{"Text": text, "Bad": bad, "Items": items}
	}
	// whether color is on can change between any two uses
	first := sym.Bool("change")
	var was string
	app := &cli.App{
		Name: "app", Stdout: &out, Stderr: io.Discard,
		Uses: cli.Pipeline(
			color.Options{Features: color.TemplateFuncs},
			cli.RegisterTemplate("T", tpl),
		),
		Action: func(c *cli.Context) error {
			if first {
				c.SetColor(!on)
				if err := c.ExecuteTemplate("T", data); err != nil && kind != 12 {
					return err
				}
				was = out.String()
				out.Reset()
			}
			c.SetColor(on)
			return c.ExecuteTemplate("T", data)
		},
	}
	err := app.RunContext(context.Background(), []string{"app"})
	got := out.String()
	sym.Observe("got", got+" "+was)
	if bad != "" {
		sym.Assert(err != nil, "a style or color which doesn't exist is accepted")
		return
	}
	sym.Assert(err == nil, "a template fails though all styles and colors in it exist")
	sym.Assert(got == want, "the output of a template isn't exactly the text, with the styles if color is on")
	if !on {
		sym.Assert(!strings.Contains(got, "\x1b"), "styles are written though color is off")
	}
}

// HFlags switches color on and off by flags.
func HFlags() {
	features := []color.Feature{
		0, color.FlagFeature | color.NoFlagFeature | color.ModeFeature, color.FlagFeature | color.ModeFeature, color.ModeFeature,
		color.FlagFeature | color.NoFlagFeature, color.NoFlagFeature, color.FlagFeature,
	}
	which := sym.Choose("features", len(features))
	hasMode := which < 4
	hasNo := which < 2
	initial := sym.Choose("initial", 3)
	var uses []cli.Action
	if initial > 0 {
		uses = append(uses, cli.SetColor(initial == 2))
	}
	uses = append(uses, color.Options{Features: features[which]})
	args := []string{"app"}
	want := initial == 2
	invalid := false
	words := []struct {
		s string
		v int
	}{{"", 1}, {"auto", 0}, {"always", 1}, {"true", 1}, {"on", 1}, {"never", 2}, {"false", 2}, {"off", 2}, {"Never", 2}, {"x", 3}}
	neg := false
	switch {
	case hasMode:
		for i := sym.Choose("uses", 3); i > 0; i-- {
			if hasNo && sym.Bool("no") {
				args, neg = append(args, "--no-color"), true
				continue
			}
			if w := words[sym.Choose("word", len(words))]; w.s == "" {
				args, want = append(args, "--color"), true
			} else {
				args, want = append(args, "--color="+w.s), w.v == 1
				invalid = invalid || w.v == 3
			}
		}
		if neg {
			want = false
		}
	case which == 4:
		if sym.Bool("used") {
			n := sym.Choose("form", 4)
			args = append(args, []string{"--color", "--no-color", "--color=true", "--color=false"}[n])
			want = n%2 == 0
		}
	case which == 5:
		if sym.Bool("used") {
			args, want = append(args, "--no-color"), false
		}
	case which == 6:
		if sym.Bool("used") {
			n := sym.Choose("form", 3)
			args = append(args, []string{"--color", "--color=false", "--color=true"}[n])
			want = n != 1
		}
	}
	sub := sym.Bool("sub")
	sym.Assume(!sub || !hasMode || args[len(args)-1] != "--color") // which would be its value
	var got []bool
	var bg bool
	act := func(c *cli.Context) {
		got = append(got, c.Stdout.ColorCapable(), c.Stderr.ColorCapable(), c.NewBuffer().ColorCapable())
		bg = cli.NewBuffer().ColorCapable()
	}
	app := &cli.App{
		Name: "app", Stdout: io.Discard, Stderr: io.Discard, Uses: cli.ActionPipeline(uses), Action: act,
	}
	if sub {
		app.Action = nil
		app.Commands = []*cli.Command{{Name: "sub", Action: act}}
		args = append(args, "sub")
	}
	err := app.RunContext(context.Background(), args)
	sym.Observe("got", fmt.Sprint(got, err))
	if invalid {
		sym.Assert(err != nil && got == nil, "a color mode that doesn't exist is accepted")
		return
	}
	sym.Assert(err == nil && len(got) == 3, "a run fails which has only valid color modes")
	sym.Assert(got[0] == want && got[1] == want && got[2] == want, "color isn't on exactly if the flags used say so")
	sym.Assert(!bg, "a buffer has color though there is no terminal")
}

// HTTY detects whether the output is a terminal.
func HTTY() {
	os.Unsetenv("NO_COLOR")
	os.Unsetenv("TERM")
	noColor, term := sym.Bool("NO_COLOR"), []string{"", "xterm", "dumb"}[sym.Choose("TERM", 3)]
	if noColor {
		os.Setenv("NO_COLOR", "1")
	}
	if term != "" {
		os.Setenv("TERM", term)
	}
	tty := sym.Terminal()
	custom := cli.NewBuffer()
	var w io.Writer
	auto := false
	kind := sym.Choose("out", 4)
	switch kind {
	case 0:
		w = tty
		auto = !noColor && term != "dumb"
	case 1:
		w = new(bytes.Buffer)
	case 2:
		w = custom
	case 3:
		w = cli.NewWriter(tty)
		auto = !noColor && term != "dumb"
	}
	on := auto
	var want, got []bool
	steps := make([]int, sym.Bound(2, 3))
	for i := range steps {
		steps[i] = sym.Choose("step", 6)
	}
	run := func(c *cli.Context) error {
		for _, s := range steps {
			switch s {
			case 0:
				c.SetColor(true)
				on = true
			case 1:
				c.SetColor(false)
				on = false
			case 2:
				c.AutodetectColor()
				on = auto
			case 3:
				if err := c.Do(color.SetMode(color.Always)); err != nil {
					return err
				}
				on = true
			case 4:
				if err := c.Do(color.SetMode(color.Never)); err != nil {
					return err
				}
				on = false
			case 5:
				if err := c.Do(color.SetMode(color.Auto)); err != nil {
					return err
				}
				on = auto
			}
			want = append(want, on, on)
			got = append(got, c.Stdout.ColorCapable(), c.NewBuffer().ColorCapable())
		}
		return nil
	}
	app := &cli.App{Name: "app", Stdout: w, Stderr: io.Discard}
	if sym.Bool("uses") {
		app.Uses = run
		app.Action = func(*cli.Context) {}
	} else {
		app.Action = run
	}
	err := app.RunContext(context.Background(), []string{"app"})
	sym.Observe("got", fmt.Sprint(got))
	sym.Assert(err == nil, "switching color fails")
	for i := range want {
		sym.Assert(got[i] == want[i], "color isn't what it was last switched to")
	}
}
