package style

import (
	"bytes"
	"context"
	"io"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/table"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

// HTable renders a table.
func HTable() {
	kind := sym.Choose("format", 4)
	cell := func() string { return sym.String("text", 1, "a+") }
	var heads, foots []string
	cols := 1 + sym.Choose("columns", 2)
	for i := 0; i < cols; i++ {
		heads, foots = append(heads, "H-"+[]string{"a+", ""}[i]), append(foots, []string{"a", "+"}[i])
	}
	if !sym.Bool("headers") {
		heads = nil
	}
	if !sym.Bool("footers") {
		foots = nil
	}
	var tpl strings.Builder
	data := map[string]any{}
	again, before := sym.Bool("again"), ""
	if again {
		// nothing is left of a table before
		tpl.WriteString(`{{ Table "Porcelain" }}{{ Headers "p" "q" "r" }}{{ Row }}{{ Cell "x" }}{{ Footers "s" }}{{ EndTable }}`)
		before = "p\tq\tr\nx\ns\n"
	}
	tpl.WriteString([]string{`{{ Table "Porcelain" }}`, `{{ Table "Unformatted" }}`, `{{ Table }}`, `{{ Table .Format }}`}[kind])
	data["Format"] = &table.Format{
		Border: true, HeaderLine: true, RowLine: true, AutoWrapText: true,
		CenterSeparator: "+", ColumnSeparator: "!", RowSeparator: "-",
		TopLeftSeparator: "1", TopCenterSeparator: "2", TopRightSeparator: "3",
		CenterLeftSeparator: "4", CenterRightSeparator: "5",
		BottomLeftSeparator: "6", BottomCenterSeparator: "7", BottomRightSeparator: "8",
	}
	var rows [][]string
	n := sym.Choose("rows", sym.Bound(3, 4))
	for i := 0; i < n; i++ {
		var row []string
		cells := cols
		if i == sym.Bound(1, 2) {
			cells = sym.Choose("cells", cols+1) // a row with fewer cells
			sym.Assume(kind == 0 || cells > 0 && kind == 1 || cells == cols) // borders of missing cells are left open
		}
		for j := 0; j < cells; j++ {
			row = append(row, cell())
		}
		rows = append(rows, row)
	}
	data["Rows"], data["Heads"], data["Foots"] = rows, heads, foots
	pairs := [][2]string{{"{{ Headers ", `"H-a+"`}, {"{{ Footers ", `"a"`}}
	if cols == 2 {
		pairs[0][1] += ` "H-"`
		pairs[1][1] += ` "+"`
	}
	if heads != nil {
		tpl.WriteString(pairs[0][0] + pairs[0][1] + " }}")
	}
	early := foots != nil && sym.Bool("early")
	if early {
		tpl.WriteString(pairs[1][0] + pairs[1][1] + " }}")
	}
	tpl.WriteString("{{ range .Rows }}{{ Row }}{{ range . }}{{ Cell . }}{{ end }}{{ end }}")
	if foots != nil && !early {
		tpl.WriteString(pairs[1][0] + pairs[1][1] + " }}")
	}
	tpl.WriteString("{{ EndTable }}")
	var out bytes.Buffer
	app := &cli.App{
		Name: "app", Stdout: &out, Stderr: io.Discard,
		Uses:   cli.Pipeline(table.Options{Features: table.TemplateFuncs}, cli.RegisterTemplate("T", tpl.String())),
		Action: cli.ExecuteTemplate("T", func(*cli.Context) any { return data }),
	}
	err := app.RunContext(context.Background(), []string{"app"})
	got := out.String()
	sym.Observe("got", got)
	sym.Assert(err == nil, "a table fails")

	sym.Assert(strings.HasPrefix(got, before), "a table doesn't have each cell once, in its row and column")
	got = strings.TrimPrefix(got, before)

	// what is expected
	if kind > 0 {
		for i := range rows {
			for len(rows[i]) < cols {
				rows[i] = append(rows[i], "")
			}
		}
	}
	all := append(append([][]string{}, rows...))
	if heads != nil {
		all = append([][]string{heads}, all...)
	}
	if foots != nil {
		all = append(all, foots)
	}
	var want strings.Builder
	w := make([]int, cols)
	for _, r := range all {
		for j, c := range r {
			w[j] = max(w[j], len(c))
		}
	}
	line := func(left, mid, right, fill string) {
		if fill == "" {
			return
		}
		for j := range w {
			if j == 0 {
				want.WriteString(left)
			} else {
				want.WriteString(mid)
			}
			want.WriteString(strings.Repeat(fill, w[j]+2))
		}
		want.WriteString(right + "\n")
	}
	text := func(r []string, sep string, center bool) {
		for j, c := range r {
			gap := w[j] - len(c)
			before := 0
			if center {
				before = gap / 2
			}
			if j > 0 || kind > 1 {
				want.WriteString(sep)
			}
			want.WriteString(" " + strings.Repeat(" ", before) + c + strings.Repeat(" ", gap-before) + " ")
		}
		if kind > 1 {
			want.WriteString(sep)
		}
		want.WriteString("\n")
	}
	switch kind {
	case 0:
		for _, r := range all {
			want.WriteString(strings.Join(r, "\t") + "\n")
		}
	case 1:
		sym.Assume(foots == nil)
		for i, r := range all {
			want.WriteString(" ")
			text(r, "", heads != nil && i == 0)
			s := want.String()
			want.Reset()
			want.WriteString(s[:len(s)-1] + " \n")
		}
	case 2, 3:
		s := []string{"┌", "┬", "┐", "├", "┼", "┤", "└", "┴", "┘", "─", "│"}
		if kind == 3 {
			s = []string{"1", "2", "3", "4", "+", "5", "6", "7", "8", "-", "!"}
		}
		for i, r := range all {
			if i == 0 {
				line(s[0], s[1], s[2], s[9])
			} else {
				line(s[3], s[4], s[5], s[9])
			}
			text(r, s[10], (heads != nil && i == 0) || (foots != nil && i == len(all)-1))
		}
		if len(all) > 0 {
			line(s[6], s[7], s[8], s[9])
		}
	}
	sym.Observe("want", want.String())
	if kind == 1 {
		// where blanks at the end of a line depend on whether it is padded
		trim := func(s string) string {
			lines := strings.Split(s, "\n")
			for i := range lines {
				lines[i] = strings.TrimRight(lines[i], " ")
			}
			return strings.Join(lines, "\n")
		}
		sym.Assert(trim(got) == trim(want.String()), "a table doesn't have each cell once, in its row and column")
		return
	}
	sym.Assert(got == want.String(), "a table doesn't have each cell once, in its row and column")
}

// HHelp shows the help screen with tables and color.
func HHelp() {
	texts := [3]string{"", "t" + sym.StringN("help", sym.Bound(1, 2), "x+"), "two words"}
	var opts [3]cli.Option
	var cats [3]string
	for i := range opts {
		if i > 0 || sym.Tier() > 0 {
			opts[i] = []cli.Option{0, cli.Hidden}[sym.Choose("hidden", 2)]
		}
		if i != 1 || sym.Tier() > 0 {
			cats[i] = []string{"", "C"}[sym.Choose("category", 2)]
		}
	}
	perm := sym.Choose("texts", 3)
	text := func(i int) string { return texts[(i+perm)%3] }
	on := sym.Bool("on")
	var shown [2]string
	for i := range shown {
		var out bytes.Buffer
		var uses cli.Action
		if i == 1 {
			uses = table.Options{}
		}
		app := &cli.App{
			Name: "app", Stdout: io.Discard, Stderr: &out, Version: "1",
			Uses: cli.Pipeline(cli.SetColor(on), uses),
			Flags: []*cli.Flag{
				{Name: "a", HelpText: text(0), Value: new(bool), Options: opts[0], Category: cats[0]},
				{Name: "long", Aliases: []string{"l"}, HelpText: text(1), Options: opts[1], Category: cats[1]},
			},
			Commands: []*cli.Command{
				{Name: "sub", HelpText: text(2), Options: opts[2], Category: cats[2]},
				{Name: "other", Aliases: []string{"o"}, HelpText: text(1), Category: cats[0]},
			},
		}
		err := app.RunContext(context.Background(), []string{"app", "--help"})
		sym.Assert(err != nil && err.(cli.ExitCoder).ExitCode() == 0, "help fails")
		for _, l := range strings.Split(out.String(), "\n") {
			if f := strings.Fields(l); len(f) > 0 {
				shown[i] += strings.Join(f, " ") + "\n"
			}
		}
	}
	sym.Observe("plain", shown[0])
	sym.Observe("table", shown[1])
	sym.Assert(shown[0] == shown[1], "the help screen with tables doesn't have the same contents as the one without")
	sym.Assert(on == strings.Contains(shown[0], "\x1b["), "the help screen doesn't have styles exactly if color is on")
}

// HWide renders text which is wider than its column.
func HWide() {
	text := sym.String("text", sym.Bound(5, 7), "ab \n")
	width := 2 + sym.Choose("width", 2)
	wrap := sym.Bool("wrap")
	var out bytes.Buffer
	app := &cli.App{
		Name: "app", Stdout: &out, Stderr: io.Discard,
		Uses: cli.Pipeline(
			table.Options{Features: table.TemplateFuncs},
			cli.RegisterTemplate("T", "{{ Table .F }}{{ Row }}{{ Cell .A }}{{ Cell .N }}{{ EndTable }}"),
		),
		Action: cli.ExecuteTemplate("T", func(*cli.Context) any {
			return map[string]any{"A": text, "N": 1.5, "F": &table.Format{AutoWrapText: wrap, Border: true, ColumnSeparator: "!", RowSeparator: "-", CenterSeparator: "+", ColWidth: width}}
		}),
	}
	err := app.RunContext(context.Background(), []string{"app"})
	got := out.String()
	sym.Observe("got", got)
	sym.Assert(err == nil, "a table fails")
	words := strings.Fields(text)
	limit := width
	for _, w := range words {
		limit = max(limit, len(w))
	}
	if !wrap {
		for _, l := range strings.Split(text, "\n") {
			limit = max(limit, len(l))
		}
	}
	lines := strings.Split(got, "\n")
	sym.Assert(len(lines) > 3 && lines[len(lines)-1] == "", "a table isn't lines within its border")
	var found []string
	value := 0
	for _, l := range lines[1 : len(lines)-2] {
		c := strings.Split(l, "!")
		sym.Assert(len(c) == 4 && c[0] == "" && c[3] == "", "a line of a table doesn't have each column")
		sym.Assert(len(l) == len(lines[1]) && len(c[1]) <= limit+2, "the text of a table is wider than its column, though it could be wrapped")
		found = append(found, strings.Fields(c[1])...)
		if strings.TrimSpace(c[2]) == "1.5" {
			value++
		} else {
			sym.Assert(strings.TrimSpace(c[2]) == "", "a table doesn't have each cell once, in its row and column")
		}
	}
	sym.Assert(value == 1 && strings.Join(found, " ") == strings.Join(words, " "), "a table doesn't have each cell once, in its row and column")
}
