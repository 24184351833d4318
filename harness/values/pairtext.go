package values

import (
	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

// HPairText: a pair written as text is one shell word, and copies are independent.
func HPairText() {
	p := &cli.NameValue{
		Name:               sym.String("name", sym.Bound(2, 3), "a '\"=\\"),
		Value:              sym.String("value", sym.Bound(2, 3), "a '\"=\\"),
		AllowFileReference: sym.Bool("refs"),
	}
	before := *p
	text := p.String()
	sym.Observe("text", text)
	words, err := cli.Split(text)
	sym.Assert(err == nil && len(words) == 1, "the text of a pair isn't one word")
	sym.Assert(words[0] == p.Name+"="+p.Value, "the text of a pair isn't its name and its value")

	c := p.Copy()
	sym.Assert(*c == before && c != p, "a copy is another pair")
	if sym.Bool("reset") {
		c.Reset()
		sym.Assert(c.Name == "" && c.Value == "", "a pair which is reset keeps its value")
		sym.Assert(c.AllowFileReference == before.AllowFileReference, "resetting a pair changes how it is read")
	} else {
		c.Name, c.Value = "x", "y"
		c.SetAllowFileReference(!before.AllowFileReference)
		sym.Assert(c.AllowFileReference == !before.AllowFileReference, "whether references are allowed isn't set")
	}
	sym.Assert(*p == before, "changing a copy changes the pair")
}
