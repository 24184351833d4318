package main

import (
	"go/types"
	"strings"
	"sync"
	ttparse "text/template/parse"
)

// The model of text/template: the templates are parsed by the real parser
// when they are executed, and executed over the values of the engine. It
// covers the constructs used by the repository and the harnesses; others
// end the path as unsupported.

// tmplSet is what associated templates share.
type tmplSet struct {
	trees map[string]*ttparse.Tree
	funcs map[string]V // interface values
}

type hostTmpl struct {
	name string
	set  *tmplSet
}

// tval is a value and its type, none when t is nil
type tval struct {
	t types.Type
	v V
}

var tmplCache sync.Map

func parseTmpl(name, text string) (map[string]*ttparse.Tree, error) {
	type res struct {
		m   map[string]*ttparse.Tree
		err error
	}
	k := name + "\x00" + text
	if r, ok := tmplCache.Load(k); ok {
		return r.(res).m, r.(res).err
	}
	m := map[string]*ttparse.Tree{}
	t := ttparse.New(name)
	t.Mode = ttparse.SkipFuncCheck
	_, err := t.Parse(text, "", "", m)
	tmplCache.Store(k, res{m, err})
	return m, err
}

func (in *Interp) tmplOf(v V) *hostTmpl {
	c, ok := v.r.(*V)
	if !ok {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	h, ok := c.r.(*Agg).f[0].r.(*hostTmpl)
	if !ok {
		in.unsupported("a text/template.Template not made by New")
	}
	return h
}

func mkTmpl(h *hostTmpl) V { return V{r: &V{r: &Agg{[]V{{r: h}, {}, {}, {}, {}}}}} }

func init() {
	const T = "(*text/template.Template)."
	reg("text/template.New", func(in *Interp, a []V) V {
		return mkTmpl(&hostTmpl{in.needConc(a[0], "template name"), &tmplSet{map[string]*ttparse.Tree{}, map[string]V{}}})
	})
	reg(T+"New", func(in *Interp, a []V) V {
		return mkTmpl(&hostTmpl{in.needConc(a[1], "template name"), in.tmplOf(a[0]).set})
	})
	reg(T+"Name", func(in *Interp, a []V) V { return strV(in.tmplOf(a[0]).name) })
	reg(T+"Option", ident)
	reg(T+"Funcs", func(in *Interp, a []V) V {
		h := in.tmplOf(a[0])
		if m, ok := a[1].r.(*Map); ok {
			for _, e := range m.ents {
				if !e.dead {
					h.set.funcs[in.needConc(e.k, "template function")] = e.v
				}
			}
		}
		return a[0]
	})
	reg(T+"Parse", func(in *Interp, a []V) V {
		h := in.tmplOf(a[0])
		m, err := parseTmpl(h.name, in.needConc(a[1], "template text"))
		if err != nil {
			return tuple(V{}, in.errIface(err.Error()))
		}
		for n, t := range m {
			if old, ok := h.set.trees[n]; ok && old != nil && ttparse.IsEmptyTree(t.Root) {
				continue
			}
			h.set.trees[n] = t
		}
		return tuple(a[0], V{})
	})
	// the templates of a set are shared already
	reg(T+"Templates", func(in *Interp, a []V) V { return V{} })
	reg(T+"Lookup", func(in *Interp, a []V) V {
		h := in.tmplOf(a[0])
		n := in.needConc(a[1], "template name")
		if h.set.trees[n] == nil {
			return V{}
		}
		return mkTmpl(&hostTmpl{n, h.set})
	})
	reg(T+"Execute", func(in *Interp, a []V) V {
		return in.tmplExec(in.tmplOf(a[0]), in.tmplOf(a[0]).name, a[1], a[2])
	})
	reg(T+"ExecuteTemplate", func(in *Interp, a []V) V {
		return in.tmplExec(in.tmplOf(a[0]), in.needConc(a[1], "template name"), a[2], a[3])
	})
}

type tstate struct {
	in   *Interp
	set  *tmplSet
	w    V
	vars []tvar
	deep int
}

type tvar struct {
	name string
	v    tval
}

type tmplErr struct{ err V }

func (in *Interp) tmplExec(h *hostTmpl, name string, w, data V) (res V) {
	tree := h.set.trees[name]
	if tree == nil {
		return in.errIface("template: no template " + name)
	}
	s := &tstate{in: in, set: h.set, w: w}
	dot := s.open(tval{nil, data})
	s.vars = []tvar{{"$", dot}}
	depth, fr := in.depth, in.fr
	defer func() {
		if e := recover(); e != nil {
			te, ok := e.(tmplErr)
			if !ok {
				panic(e)
			}
			in.depth, in.fr = depth, fr
			res = te.err
		}
	}()
	s.walk(dot, tree.Root)
	return V{}
}

func (s *tstate) fail(msg string) { panic(tmplErr{s.in.errIface("template: " + msg)}) }

func (s *tstate) unsupported(msg string) { s.in.unsupported("text/template: " + msg) }

// open unwraps an interface value
func (s *tstate) open(v tval) tval {
	if v.t != nil && s.in.kindOf(v.t).k != kIface {
		return v
	}
	i, ok := v.v.r.(*Iface)
	if !ok {
		return tval{}
	}
	return tval{i.t, i.v}
}

func (s *tstate) iface(v tval) V {
	if v.t == nil {
		return V{}
	}
	if s.in.kindOf(v.t).k == kIface {
		return v.v
	}
	return V{r: &Iface{t: s.in.canon(v.t), v: copyVal(v.v)}}
}

func (s *tstate) walk(dot tval, n ttparse.Node) {
	switch n := n.(type) {
	case *ttparse.ListNode:
		if n == nil {
			return
		}
		for _, c := range n.Nodes {
			s.walk(dot, c)
		}
	case *ttparse.TextNode:
		s.write(strV(string(n.Text)))
	case *ttparse.ActionNode:
		v := s.pipeline(dot, n.Pipe)
		if len(n.Pipe.Decl) == 0 {
			s.print(v)
		}
	case *ttparse.CommentNode:
	case *ttparse.IfNode:
		s.ifWith(n.Type(), dot, n.Pipe, n.List, n.ElseList)
	case *ttparse.WithNode:
		s.ifWith(n.Type(), dot, n.Pipe, n.List, n.ElseList)
	case *ttparse.RangeNode:
		s.rng(dot, n)
	case *ttparse.TemplateNode:
		t := s.set.trees[n.Name]
		if t == nil {
			s.fail("template " + n.Name + " not defined")
		}
		s.deep++
		if s.deep > 50 {
			s.unsupported("recursive template")
		}
		d := s.pipeline(dot, n.Pipe)
		old := s.vars
		s.vars = []tvar{{"$", d}}
		s.walk(d, t.Root)
		s.vars = old
		s.deep--
	default:
		s.unsupported(n.String())
	}
}

func (s *tstate) ifWith(typ ttparse.NodeType, dot tval, p *ttparse.PipeNode, list, els *ttparse.ListNode) {
	mark := len(s.vars)
	v := s.pipeline(dot, p)
	if s.truth(v) {
		if typ == ttparse.NodeWith {
			dot = v
		}
		s.walk(dot, list)
	} else if els != nil {
		s.walk(dot, els)
	}
	s.vars = s.vars[:mark]
}

func (s *tstate) rng(dot tval, r *ttparse.RangeNode) {
	mark := len(s.vars)
	v := s.open(s.pipeline(dot, r.Pipe))
	v = s.deref(v)
	if v.t == nil {
		s.fail("range over nothing")
	}
	one := func(k, e tval) {
		m := len(s.vars)
		if len(r.Pipe.Decl) > 0 {
			s.set1(r.Pipe.Decl[len(r.Pipe.Decl)-1].Ident[0], e)
		}
		if len(r.Pipe.Decl) > 1 {
			s.set1(r.Pipe.Decl[0].Ident[0], k)
		}
		s.walk(e, r.List)
		s.vars = s.vars[:m]
	}
	// the variables were declared by the pipeline with its own value
	n := 0
	switch t := v.t.Underlying().(type) {
	case *types.Slice:
		for i, e := range s.in.sliceOf(v.v) {
			one(tval{types.Typ[types.Int], vint(i)}, tval{t.Elem(), e})
			n++
		}
	case *types.Array:
		for i, e := range v.v.r.(*Agg).f {
			one(tval{types.Typ[types.Int], vint(i)}, tval{t.Elem(), e})
			n++
		}
	default:
		s.unsupported("range over " + v.t.String())
	}
	if n == 0 && r.ElseList != nil {
		s.walk(dot, r.ElseList)
	}
	s.vars = s.vars[:mark]
}

func (s *tstate) set1(name string, v tval) {
	for i := len(s.vars) - 1; i >= 0; i-- {
		if s.vars[i].name == name {
			s.vars[i].v = v
			return
		}
	}
	s.vars = append(s.vars, tvar{name, v})
}

func (s *tstate) truth(v tval) bool {
	v = s.open(v)
	if v.t == nil {
		return false
	}
	switch t := v.t.Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsString != 0:
			return strLen(v.v) > 0
		case t.Info()&types.IsBoolean != 0:
			return s.in.branchV(v.v)
		case t.Info()&types.IsInteger != 0:
			if _, ok := v.v.r.(*Term); ok {
				s.unsupported("truth of a symbolic number")
			}
			return v.v.n != 0
		}
	case *types.Slice:
		return len(s.in.sliceOf(v.v)) > 0
	case *types.Map:
		m, ok := v.v.r.(*Map)
		return ok && m.live > 0
	case *types.Struct:
		return true
	case *types.Pointer, *types.Signature:
		return v.v.r != nil
	}
	s.unsupported("truth of " + v.t.String())
	return false
}

func (s *tstate) pipeline(dot tval, p *ttparse.PipeNode) tval {
	if p == nil {
		return tval{}
	}
	var v tval
	for i, c := range p.Cmds {
		v = s.command(dot, c, v, i > 0)
		if v.t != nil {
			if it, ok := v.t.Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
				v = s.open(v)
			}
		}
	}
	for _, d := range p.Decl {
		if p.IsAssign {
			s.set1(d.Ident[0], v)
		} else {
			s.vars = append(s.vars, tvar{d.Ident[0], v})
		}
	}
	return v
}

func (s *tstate) command(dot tval, c *ttparse.CommandNode, final tval, has bool) tval {
	switch n := c.Args[0].(type) {
	case *ttparse.FieldNode:
		return s.chain(dot, dot, n.Ident, c.Args[1:], final, has)
	case *ttparse.ChainNode:
		return s.chain(dot, s.arg(dot, n.Node), n.Field, c.Args[1:], final, has)
	case *ttparse.IdentifierNode:
		return s.function(dot, n.Ident, c.Args[1:], final, has)
	case *ttparse.PipeNode:
		return s.pipeline(dot, n)
	case *ttparse.VariableNode:
		return s.chain(dot, s.variable(n.Ident[0]), n.Ident[1:], c.Args[1:], final, has)
	}
	return s.arg(dot, c.Args[0])
}

func (s *tstate) variable(name string) tval {
	for i := len(s.vars) - 1; i >= 0; i-- {
		if s.vars[i].name == name {
			return s.vars[i].v
		}
	}
	s.fail("undefined variable " + name)
	return tval{}
}

// arg evaluates an operand on its own
func (s *tstate) arg(dot tval, n ttparse.Node) tval {
	switch n := n.(type) {
	case *ttparse.DotNode:
		return dot
	case *ttparse.NilNode:
		return tval{}
	case *ttparse.StringNode:
		return tval{types.Typ[types.String], strV(n.Text)}
	case *ttparse.BoolNode:
		return tval{types.Typ[types.Bool], bv(n.True)}
	case *ttparse.NumberNode:
		if n.IsInt {
			return tval{types.Typ[types.Int], vint(int(n.Int64))}
		}
	case *ttparse.FieldNode:
		return s.chain(dot, dot, n.Ident, nil, tval{}, false)
	case *ttparse.VariableNode:
		return s.chain(dot, s.variable(n.Ident[0]), n.Ident[1:], nil, tval{}, false)
	case *ttparse.PipeNode:
		return s.pipeline(dot, n)
	case *ttparse.IdentifierNode:
		return s.function(dot, n.Ident, nil, tval{}, false)
	case *ttparse.ChainNode:
		return s.chain(dot, s.arg(dot, n.Node), n.Field, nil, tval{}, false)
	}
	s.unsupported("operand " + n.String())
	return tval{}
}

func (s *tstate) chain(dot, recv tval, names []string, args []ttparse.Node, final tval, has bool) tval {
	for i, name := range names {
		if i < len(names)-1 {
			recv = s.field(dot, recv, name, nil, tval{}, false)
		} else {
			recv = s.field(dot, recv, name, args, final, has)
		}
	}
	return recv
}

func (s *tstate) deref(v tval) tval {
	for v.t != nil {
		if s.in.kindOf(v.t).k == kIface {
			v = s.open(v)
			continue
		}
		p, ok := v.t.Underlying().(*types.Pointer)
		if !ok {
			return v
		}
		c, ok := v.v.r.(*V)
		if !ok {
			return tval{}
		}
		v = tval{p.Elem(), *c}
	}
	return v
}

func (s *tstate) field(dot, recv tval, name string, args []ttparse.Node, final tval, has bool) tval {
	r := s.open(recv)
	if r.t == nil {
		s.fail("nil data; no entry for key " + name)
	}
	if f := s.in.method(s.in.canon(r.t), nil, name); f != nil {
		obj, _, _ := types.LookupFieldOrMethod(r.t, true, nil, name)
		sig := obj.Type().(*types.Signature)
		vals := s.args(dot, sig, args, final, has)
		return s.result(sig, s.in.call(f, append([]V{r.v}, vals...), nil, nil))
	}
	d := s.deref(r)
	if d.t == nil {
		s.fail("nil pointer evaluating " + name)
	}
	switch t := d.t.Underlying().(type) {
	case *types.Struct:
		obj, index, _ := types.LookupFieldOrMethod(d.t, true, nil, name)
		if m, ok := obj.(*types.Func); ok && m != nil {
			s.unsupported("method " + name + " of an addressable value")
		}
		if obj == nil {
			s.fail("can't evaluate field " + name)
		}
		v := d
		for _, i := range index {
			v = s.deref(v)
			if v.t == nil {
				s.fail("nil pointer evaluating " + name)
			}
			st := v.t.Underlying().(*types.Struct)
			v = tval{st.Field(i).Type(), v.v.r.(*Agg).f[i]}
		}
		return v
	case *types.Map:
		m, _ := d.v.r.(*Map)
		if m == nil {
			return tval{}
		}
		i := s.in.mapFind(m, t.Key(), strV(name))
		if i < 0 {
			return tval{}
		}
		return tval{t.Elem(), m.ents[i].v}
	}
	s.fail("can't evaluate field " + name + " in type " + d.t.String())
	return tval{}
}

// result gets the value of a call, which may have failed
func (s *tstate) result(sig *types.Signature, v V) tval {
	t := sig.Results().At(0).Type()
	if sig.Results().Len() == 2 {
		a := v.r.(*Agg)
		if a.f[1].r != nil {
			panic(tmplErr{a.f[1]})
		}
		v = a.f[0]
	}
	return tval{t, v}
}

func (s *tstate) args(dot tval, sig *types.Signature, args []ttparse.Node, final tval, has bool) []V {
	var vals []tval
	for _, a := range args {
		vals = append(vals, s.arg(dot, a))
	}
	if has {
		vals = append(vals, final)
	}
	n := sig.Params().Len()
	if len(vals) < n-1 || !sig.Variadic() && len(vals) != n {
		s.fail("wrong number of args")
	}
	var res []V
	var rest []V
	for i, v := range vals {
		if sig.Variadic() && i >= n-1 {
			rest = append(rest, s.conv(v, sig.Params().At(n-1).Type().(*types.Slice).Elem()))
			continue
		}
		res = append(res, s.conv(v, sig.Params().At(i).Type()))
	}
	if sig.Variadic() {
		if rest == nil {
			res = append(res, V{})
		} else {
			res = append(res, mkSlice(rest))
		}
	}
	return res
}

// conv makes a value fit a parameter
func (s *tstate) conv(v tval, t types.Type) V {
	if v.t == nil {
		return s.in.zero(t)
	}
	if it, ok := t.Underlying().(*types.Interface); ok {
		o := s.open(v)
		if o.t == nil {
			return V{}
		}
		if !s.in.implements(s.in.canon(o.t), it) {
			s.fail("wrong type for value")
		}
		return s.iface(o)
	}
	v = s.open(v)
	if v.t == nil {
		return s.in.zero(t)
	}
	if types.AssignableTo(v.t, t) {
		return copyVal(v.v)
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && types.Identical(v.t, types.Typ[types.Int]) {
		return v.v
	}
	if p, ok := v.t.Underlying().(*types.Pointer); ok && types.AssignableTo(p.Elem(), t) && v.v.r != nil {
		return copyVal(*v.v.r.(*V))
	}
	s.fail("wrong type for value; expected " + t.String() + "; got " + v.t.String())
	return V{}
}

func (s *tstate) function(dot tval, name string, args []ttparse.Node, final tval, has bool) tval {
	if f, ok := s.set.funcs[name]; ok {
		i := f.r.(*Iface)
		sig := i.t.Underlying().(*types.Signature)
		vals := s.args(dot, sig, args, final, has)
		return s.result(sig, s.in.callV(i.v, vals))
	}
	var vals []tval
	all := func() []tval {
		for _, a := range args {
			vals = append(vals, s.arg(dot, a))
		}
		if has {
			vals = append(vals, final)
		}
		return vals
	}
	boolean := func(b bool) tval { return tval{types.Typ[types.Bool], bv(b)} }
	switch name {
	case "and", "or":
		var v tval
		for _, a := range args {
			v = s.arg(dot, a)
			if s.truth(v) == (name == "or") {
				return v
			}
		}
		if has {
			return final
		}
		return v
	case "not":
		return boolean(!s.truth(all()[0]))
	case "len":
		v := s.deref(all()[0])
		if v.t != nil {
			switch t := v.t.Underlying().(type) {
			case *types.Slice:
				return tval{types.Typ[types.Int], vint(len(s.in.sliceOf(v.v)))}
			case *types.Basic:
				if t.Info()&types.IsString != 0 {
					return tval{types.Typ[types.Int], vint(strLen(v.v))}
				}
			}
		}
	case "print", "println", "printf":
		var l []V
		for _, v := range all() {
			l = append(l, s.iface(v))
		}
		if name == "printf" {
			f := vals[0]
			return tval{types.Typ[types.String], s.in.callReal("fmt", "Sprintf", f.v, mkSlice(l[1:]))}
		}
		return tval{types.Typ[types.String], s.in.callReal("fmt", "S"+name, mkSlice(l))}
	case "eq", "ne":
		all()
		if len(vals) == 2 {
			a, b := s.open(vals[0]), s.open(vals[1])
			if a.t != nil && b.t != nil && types.Identical(a.t.Underlying(), b.t.Underlying()) {
				if _, ok := a.t.Underlying().(*types.Basic); ok {
					eq := s.in.branch(s.in.equal(a.t.Underlying(), a.v, b.v))
					return boolean(eq == (name == "eq"))
				}
			}
		}
	}
	s.unsupported("function " + name)
	return tval{}
}

func (s *tstate) write(v V) {
	in := s.in
	bs := strBytes(v)
	b := make([]V, len(bs))
	copy(b, bs)
	in.callMethod(s.w, "Write", mkSlice(b))
}

func (s *tstate) print(v tval) {
	o := s.open(v)
	if o.t != nil {
		if b, ok := o.t.Underlying().(*types.Basic); ok && b.Kind() == types.String {
			if s.in.method(s.in.canon(o.t), nil, "String") == nil && s.in.method(s.in.canon(o.t), nil, "Error") == nil {
				if strLen(o.v) > 0 {
					s.write(o.v)
				} else {
					s.write(strV(""))
				}
				return
			}
		}
	}
	if v.t != nil && s.in.kindOf(v.t).k == kIface && v.v.r == nil {
		s.write(strV("<nil>"))
		return
	}
	if o.t == nil {
		s.write(strV("<no value>"))
		return
	}
	if p, ok := o.t.Underlying().(*types.Pointer); ok {
		if strings.HasPrefix(p.Elem().String(), "**") {
			s.unsupported("printing a pointer to a pointer")
		}
		if s.in.method(s.in.canon(o.t), nil, "String") == nil && s.in.method(s.in.canon(o.t), nil, "Error") == nil {
			o = s.deref(o)
			if o.t == nil {
				s.write(strV("<nil>"))
				return
			}
		}
	}
	s.in.callReal("fmt", "Fprint", s.w, mkSlice([]V{s.iface(o)}))
}
