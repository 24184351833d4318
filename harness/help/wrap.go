// Package help checks the text of the help screen.
package help

import (
	"bytes"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

// printable removes control codes
func printable(s string) string {
	var b []byte
	ansi := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case ansi:
			ansi = !(c >= 'a' && c <= 'z' || c >= '@' && c <= 'Z')
		case c == 0x1b:
			ansi = true
		default:
			b = append(b, c)
		}
	}
	return string(b)
}

// cut gets the blanks at the start, the word that follows them and the rest
func cut(s string) (blank, word, rest string) {
	i := 0
	for i < len(s) && s[i] == ' ' {
		i++
	}
	j := i
	for j < len(s) && s[j] != ' ' {
		j++
	}
	return s[:i], s[i:j], s[j:]
}

// HWrap wraps an arbitrary text.
func HWrap() {
	n := sym.Bound(6, 8)
	raw := sym.String("text", n, "ab \n*")
	// a control code, which takes no room
	ind := sym.Choose("indent", 3)
	indent := []string{"", " ", "  "}[ind]
	width := sym.Choose("width", 6)
	code := []string{"\x1b[1m", "\x1b[2Z", "\x1b[@", "\x1b[z", "\x1b[A", "\x1b[a"}[(ind+width)%6]
	text := strings.ReplaceAll(raw, "*", code)

	var buf bytes.Buffer
	cli.Wrap(&buf, text, indent, width)
	out := buf.String()

	if width == 0 {
		sym.Assert(out == text+"\n", "text that is not to be wrapped changed")
		return
	}
	codes := strings.Count(text, "\x1b")
	sym.Assert(strings.Count(out, code) == codes && strings.Count(out, "\x1b") == codes, "control codes were lost or split")
	out = printable(out)
	sym.Assert(len(out) > 0 && out[len(out)-1] == '\n', "wrapped text does not end its last line")
	lines := strings.Split(out[:len(out)-1], "\n")
	at := 0
	for p, para := range strings.Split(printable(text), "\n") {
		sym.Assert(at < len(lines), "a line of the text is missing")
		line := lines[at]
		at++
		if p > 0 && strings.Trim(line, " ") != "" {
			sym.Assert(strings.HasPrefix(line, indent), "a line is not indented")
			line = line[len(indent):]
		}
		length := len(indent)
		if p == 0 {
			length = 0
		}
		first := true
		blank, word, rest := cut(para)
		for word != "" {
			b, w, r := cut(line)
			if w == "" && !first {
				// the text continues on the next line
				sym.Assert(at < len(lines), "words were lost")
				sym.Assert(b == "", "blanks are left at the end of a line")
				sym.Assert(length+len(blank) >= width, "a line was broken though the next word has room to start")
				sym.Assert(strings.HasPrefix(lines[at], indent), "a wrapped line is not indented")
				line = lines[at][len(indent):]
				at++
				length = len(indent)
				b, w, r = cut(line)
				sym.Assert(b == "", "a wrapped line starts with the blanks between words")
				blank = ""
			}
			sym.Assert(w == word, "words were lost, joined, split or reordered")
			sym.Assert(b == blank, "the blanks between words changed")
			if len(blank) > 0 && !first {
				sym.Assert(length+len(blank) < width, "a word starts past the width")
			}
			length += len(blank) + len(word)
			first = false
			line = r
			blank, word, rest = cut(rest)
		}
		sym.Assert(strings.Trim(line, " ") == "", "a line has words that are not its own")
	}
	sym.Assert(at == len(lines), "lines were added")
	sym.ObserveInt("lines", len(lines))
	sym.Reach("checked")
}
