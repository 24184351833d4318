package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type pathEnd struct {
	kind string // assume, unsupported, steps, depth, unknown, exit
	msg  string
}

type goPanic struct {
	v     V
	trace string
}

type deferred struct {
	fn      V // closure
	static  *Fn
	builtin *Inst
	args    []V
}

type Frame struct {
	fn        *Fn
	locals    []V
	defers    []deferred
	panicking *goPanic
	recovered bool
	deferOf   *Frame
	caller    *Frame
	cur       *Inst
}

// Interp is one worker's symbolic interpreter.
type Interp struct {
	eng    *Engine
	tt     *TermTable
	sol    *Solver
	fns    map[*ssa.Function]*Fn
	canonC map[types.Type]types.Type
	kinds  map[types.Type]kinfo
	globs  map[*ssa.Global]*V
	glist  []*ssa.Global
	chunk  []V
	sp     int
	depth  int
	steps  int64
	maxSt  int64
	tier   string
	fr     *Frame
	initOK map[*ssa.Package]bool
	mcache map[mkey]*Fn
	qcache map[string]qres
	impl   map[[2]types.Type]bool

	// per path
	path    *Path
	env     map[string]V
	envO    []string
	mord    bool
	inInit  bool
	memo    map[string]V
	scratch map[string]any
	pure    map[string]V
	rtp     map[types.Type]*RType
}

type mkey struct {
	t    types.Type
	name string
	pkg  string
}

type qres struct {
	res int
	m   Model
}

func (in *Interp) unsupported(msg string) {
	panic(pathEnd{"unsupported", msg + in.where()})
}

func (in *Interp) where() string {
	var sb strings.Builder
	n := 0
	for fr := in.fr; fr != nil && n < 12; fr = fr.caller {
		if fr.cur != nil && fr.cur.src != nil {
			fmt.Fprintf(&sb, " @%s(%s)", fr.fn.name, in.eng.pos(fr.cur.src))
		} else {
			fmt.Fprintf(&sb, " @%s", fr.fn.name)
		}
		n++
	}
	return sb.String()
}

func (in *Interp) rtPanic(msg string) {
	panic(&goPanic{v: in.rtError(msg), trace: in.where()})
}

func (in *Interp) rtError(msg string) V {
	t := in.eng.rtErrorType
	return V{r: &Iface{t: in.canon(t), v: strV(msg)}}
}

func (in *Interp) errIface(msg string) V {
	// *errors.errorString
	p := in.eng.errStringPtr
	cell := &V{r: &Agg{[]V{strV(msg)}}}
	return V{r: &Iface{t: in.canon(p), v: V{r: cell}}}
}

func (in *Interp) alloc(n int) []V {
	if in.sp+n > len(in.chunk) {
		sz := 1 << 16
		if n > sz {
			sz = n
		}
		in.chunk = make([]V, sz)
		in.sp = 0
	}
	s := in.chunk[in.sp : in.sp+n : in.sp+n]
	in.sp += n
	return s
}

// callV calls a function value.
func (in *Interp) callV(f V, args []V) V {
	if f.r == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	c := f.r.(*Closure)
	if c.native != nil {
		return c.native(in, args)
	}
	return in.call(c.fn, args, c.free, nil)
}

func (in *Interp) call(fn *Fn, args []V, free []V, deferOf *Frame) V {
	if !fn.compiled {
		in.compile(fn)
	}
	if fn.intr != nil {
		if deferOf != nil {
			fr := &Frame{fn: fn, deferOf: deferOf, caller: in.fr}
			in.fr = fr
			r := fn.intr(in, args)
			in.fr = fr.caller
			return r
		}
		return fn.intr(in, args)
	}
	in.depth++
	if in.depth > in.eng.maxDepth {
		panic(pathEnd{"depth", "call depth limit" + in.where()})
	}
	fn.calls++
	oc, osp := in.chunk, in.sp
	fr := Frame{fn: fn, deferOf: deferOf, caller: in.fr}
	fr.locals = in.alloc(fn.nslots)
	copy(fr.locals, args)
	if len(args) != fn.nparams {
		panic(fmt.Sprintf("arity %s: %d args for %d", fn.name, len(args), fn.nparams))
	}
	copy(fr.locals[fn.nparams:], free)
	in.fr = &fr
	var ret V
	if fn.hasDefer {
		ret = in.runDeferring(&fr)
	} else {
		ret = in.run(&fr, 0)
	}
	in.fr = fr.caller
	in.depth--
	in.chunk, in.sp = oc, osp
	return ret
}

// try runs f, capturing Go panics of the interpreted program.
func (in *Interp) try(f func()) (gp *goPanic) {
	depth, chunk, sp, fr := in.depth, in.chunk, in.sp, in.fr
	defer func() {
		if r := recover(); r != nil {
			if g, ok := r.(*goPanic); ok {
				gp = g
				in.depth, in.fr = depth, fr
				in.chunk, in.sp = chunk, sp
				return
			}
			panic(r)
		}
	}()
	f()
	return nil
}

func (in *Interp) runDeferring(fr *Frame) V {
	var ret V
	gp := in.try(func() { ret = in.run(fr, 0) })
	if gp == nil {
		return ret
	}
	fr.panicking = gp
	for len(fr.defers) > 0 {
		in.fr = fr
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		g2 := in.try(func() { in.runDeferred(fr, d) })
		if g2 != nil {
			fr.panicking = g2
			fr.recovered = false
		} else if fr.recovered {
			// recovered: remaining defers run normally
			fr.panicking = nil
			fr.recovered = false
			g3 := in.try(func() { in.runDefers(fr) })
			if g3 != nil {
				fr.panicking = g3
				continue
			}
			break
		}
	}
	if fr.panicking != nil {
		panic(fr.panicking)
	}
	in.fr = fr
	if fr.fn.recover >= 0 {
		return in.run(fr, fr.fn.recover)
	}
	sig := fr.fn.f.Signature
	switch sig.Results().Len() {
	case 0:
		return V{}
	case 1:
		return in.zero(sig.Results().At(0).Type())
	}
	return in.zero(sig.Results())
}

func (in *Interp) runDefers(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		in.runDeferred(fr, d)
	}
}

func (in *Interp) runDeferred(fr *Frame, d deferred) {
	if d.builtin != nil {
		in.builtin(fr, d.builtin, d.args)
		return
	}
	if d.static != nil {
		in.call(d.static, d.args, nil, fr)
		return
	}
	if d.fn.r == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	c := d.fn.r.(*Closure)
	if c.native != nil {
		c.native(in, d.args)
		return
	}
	in.call(c.fn, d.args, c.free, fr)
}

func (fr *Frame) get(i int) V {
	if i >= 0 {
		return fr.locals[i]
	}
	return fr.fn.consts[-1-i]
}

const nilDeref = "invalid memory address or nil pointer dereference"

// load reads through a pointer value.
func (in *Interp) load(p V, k kinfo) V {
	switch c := p.r.(type) {
	case *V:
		if _, ok := c.r.(*Agg); ok {
			return copyVal(*c)
		}
		return *c
	case nil:
		in.rtPanic(nilDeref)
	case *SymPtr:
		return in.symLoad(c.elems, c.idx, k)
	case *SliceData:
		if c.cp != nil {
			return in.load(V{r: c.cp}, k)
		}
		if c.s != nil && len(c.s.a) > 0 {
			return copyVal(c.s.a[0])
		}
		if c.s == nil && strLen(c.str) > 0 {
			return strByte(c.str, 0)
		}
		in.unsupported("deref of slice data")
	}
	in.unsupported(fmt.Sprintf("load through %T", p.r))
	return V{}
}

func (in *Interp) symLoad(elems []V, idx *Term, k kinfo) V {
	if k.k == kInt || k.k == kBool {
		// ite over runs of equal values
		var r *Term
		i := len(elems) - 1
		r = in.term(elems[i], k.w)
		for i--; i >= 0; i-- {
			e := in.term(elems[i], k.w)
			if e == r && r.isConst() {
				continue
			}
			// elements i.. onwards: if idx <= i then e else r
			r = in.tt.App(OIte, k.w, in.tt.App(OUle, 0, idx, in.tt.Const(uint64(i), idx.w), nil), e, r)
		}
		if k.k == kBool {
			return in.boolV(r)
		}
		return fromTerm(r, k)
	}
	i := in.concretize(idx)
	return copyVal(elems[i])
}

func (in *Interp) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.val
	}
	for n := 0; ; n++ {
		if n > 300 {
			in.unsupported("concretization of a wide term")
		}
		v := in.path.someValue(in, t)
		if in.branch(in.tt.Eq(t, in.tt.Const(v, t.w))) {
			return v
		}
	}
}

// concInt returns the concrete value of an int-like V, forking when symbolic.
func (in *Interp) concInt(v V, w uint8, signed bool) int64 {
	if t, ok := v.r.(*Term); ok {
		x := in.concretize(t)
		if signed {
			return sext(x, w)
		}
		return int64(x)
	}
	return int64(v.n)
}

func (in *Interp) branchV(v V) bool {
	if t, ok := v.r.(*Term); ok {
		return in.branch(t)
	}
	return v.n != 0
}

func (in *Interp) run(fr *Frame, bi int) V {
	fn := fr.fn
	blk := &fn.blocks[bi]
	var tmp [16]V
	for {
		ins := blk.ins
		next := 0
		in.steps += int64(len(ins))
		fn.steps += int64(len(ins))
		if in.steps > in.maxSt {
			panic(pathEnd{"steps", "step limit" + in.where()})
		}
	loop:
		for pc := range ins {
			x := &ins[pc]
			fr.cur = x
			switch x.op {
			case iAlloc:
				c := new(V)
				*c = in.zero(x.t)
				fr.locals[x.dst] = V{r: c}
			case iBin:
				fr.locals[x.dst] = in.binop(x, fr.get(x.a), fr.get(x.b))
			case iDeref:
				fr.locals[x.dst] = in.load(fr.get(x.a), x.k)
			case iNot:
				v := fr.get(x.a)
				if t, ok := v.r.(*Term); ok {
					fr.locals[x.dst] = in.boolV(in.tt.Not(t))
				} else {
					fr.locals[x.dst] = V{n: 1 - v.n}
				}
			case iNeg:
				v := fr.get(x.a)
				if x.k.k == kFloat {
					fr.locals[x.dst] = V{n: math.Float64bits(-math.Float64frombits(v.n))}
				} else if t, ok := v.r.(*Term); ok {
					fr.locals[x.dst] = fromTerm(in.tt.App(OSub, x.k.w, in.tt.Const(0, x.k.w), t, nil), x.k)
				} else {
					fr.locals[x.dst] = V{n: norm(-v.n, x.k)}
				}
			case iCompl:
				v := fr.get(x.a)
				if t, ok := v.r.(*Term); ok {
					fr.locals[x.dst] = fromTerm(in.tt.App(OXor, x.k.w, t, in.tt.Const(^uint64(0), x.k.w), nil), x.k)
				} else {
					fr.locals[x.dst] = V{n: norm(^v.n, x.k)}
				}
			case iCall:
				ci := x.call
				oc, osp := in.chunk, in.sp
				if ci.static != nil {
					args := in.alloc(len(x.args))
					for i, a := range x.args {
						args[i] = fr.get(a)
					}
					fr.locals[x.dst] = in.call(ci.static, args, nil, nil)
				} else if ci.builtin != "" {
					args := in.alloc(len(x.args))
					for i, a := range x.args {
						args[i] = fr.get(a)
					}
					fr.locals[x.dst] = in.builtin(fr, x, args)
				} else if ci.invoke != nil {
					f, args := in.resolveInvoke(fr, x)
					fr.locals[x.dst] = in.call(f, args, nil, nil)
				} else {
					args := in.alloc(len(x.args))
					for i, a := range x.args {
						args[i] = fr.get(a)
					}
					fr.locals[x.dst] = in.callV(fr.get(x.a), args)
				}
				in.chunk, in.sp = oc, osp
			case iMove:
				fr.locals[x.dst] = fr.get(x.a)
			case iConvert:
				fr.locals[x.dst] = in.convert(x.t, x.t2, x.k, x.k2, fr.get(x.a))
			case iDefer:
				ci := x.call
				d := deferred{}
				if ci.invoke != nil {
					f, args := in.resolveInvoke(fr, x)
					d.static = f
					d.args = append([]V(nil), args...)
				} else {
					for _, a := range x.args {
						d.args = append(d.args, fr.get(a))
					}
					if ci.builtin != "" {
						d.builtin = x
					} else if ci.static != nil {
						d.static = ci.static
					} else {
						d.fn = fr.get(x.a)
					}
				}
				fr.defers = append(fr.defers, d)
			case iExtract:
				fr.locals[x.dst] = fr.get(x.a).r.(*Agg).f[x.b]
			case iField:
				fr.locals[x.dst] = fr.get(x.a).r.(*Agg).f[x.b]
			case iFieldAddr:
				p := fr.get(x.a)
				switch c := p.r.(type) {
				case *V:
					fr.locals[x.dst] = V{r: &c.r.(*Agg).f[x.b]}
				case nil:
					in.rtPanic(nilDeref)
				case *SymPtr:
					i := in.concretize(c.idx)
					fr.locals[x.dst] = V{r: &c.elems[i].r.(*Agg).f[x.b]}
				default:
					in.unsupported(fmt.Sprintf("FieldAddr of %T", p.r))
				}
			case iIf:
				if in.branchV(fr.get(x.a)) {
					next = 0
				} else {
					next = 1
				}
				break loop
			case iJump:
				next = 0
				break loop
			case iIndex:
				fr.locals[x.dst] = in.index(x, fr.get(x.a), fr.get(x.b))
			case iIndexAddr:
				fr.locals[x.dst] = in.indexAddr(x, fr.get(x.a), fr.get(x.b))
			case iLookup:
				fr.locals[x.dst] = in.lookup(x, fr.get(x.a), fr.get(x.b))
			case iMakeClosure:
				free := make([]V, len(x.args))
				for i, a := range x.args {
					free[i] = fr.get(a)
				}
				fr.locals[x.dst] = V{r: &Closure{fn: x.call.static, free: free}}
			case iMakeIface:
				fr.locals[x.dst] = V{r: &Iface{t: x.t2, v: fr.get(x.a)}}
			case iMakeMap:
				fr.locals[x.dst] = V{r: newMap()}
			case iMakeChan:
				fr.locals[x.dst] = V{r: new(int)}
			case iRecv:
				// Only from a channel which is closed: there is one goroutine
				if ch, ok := fr.get(x.a).r.(*int); !ok || *ch == 0 {
					in.unsupported("receiving from an open channel")
				}
				v := in.zero(x.t2)
				if x.k.w == 1 {
					v = tuple(v, V{})
				}
				fr.locals[x.dst] = v
			case iSelect:
				// Non-blocking; only what is closed can be received from
				ready := -1
				for i, a := range x.args {
					if ch, ok := fr.get(a).r.(*int); ok && *ch != 0 {
						if ready >= 0 {
							in.unsupported("several channels are ready")
						}
						ready = i
					}
				}
				v := in.zero(x.t2)
				v.r.(*Agg).f[0] = vint(ready)
				fr.locals[x.dst] = v
			case iMakeSlice:
				n := in.concInt(fr.get(x.a), 64, true)
				c := in.concInt(fr.get(x.b), 64, true)
				if n < 0 || n > 1<<24 {
					in.rtPanic("makeslice: len out of range")
				}
				if c < n || c > 1<<24 {
					in.rtPanic("makeslice: cap out of range")
				}
				a := make([]V, c)
				if k := in.kindOf(x.t2).k; k == kStruct || k == kArray {
					for i := range a {
						a[i] = in.zero(x.t2)
					}
				}
				fr.locals[x.dst] = V{r: &Slice{a[:n]}}
			case iMapUpdate:
				m := fr.get(x.a)
				if m.r == nil {
					in.rtPanic("assignment to entry in nil map")
				}
				in.mapSet(m.r.(*Map), x.t2.Underlying().(*types.Map).Key(), fr.get(x.b), fr.get(x.c))
			case iRange:
				fr.locals[x.dst] = in.mkRange(x, fr.get(x.a))
			case iNext:
				fr.locals[x.dst] = in.next(x, fr.get(x.a))
			case iPanic:
				v := fr.get(x.a)
				if v.r == nil {
					v = in.rtError("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
				}
				panic(&goPanic{v: v, trace: in.where()})
			case iReturn:
				switch len(x.args) {
				case 0:
					return V{}
				case 1:
					return fr.get(x.args[0])
				}
				f := make([]V, len(x.args))
				for i, a := range x.args {
					f[i] = fr.get(a)
				}
				return V{r: &Agg{f}}
			case iRunDefers:
				in.runDefers(fr)
			case iSlice:
				fr.locals[x.dst] = in.slice(fr, x)
			case iSliceToArr:
				s := fr.get(x.a)
				n := x.b
				var a []V
				if s.r != nil {
					a = s.r.(*Slice).a
				}
				if len(a) < n {
					in.rtPanic("cannot convert slice to array pointer: length too short")
				}
				if s.r == nil {
					fr.locals[x.dst] = V{}
				} else {
					fr.locals[x.dst] = V{r: &V{r: &Agg{a[:n:n]}}}
				}
			case iStore:
				p := fr.get(x.a)
				v := fr.get(x.b)
				switch c := p.r.(type) {
				case *V:
					if _, ok := v.r.(*Agg); ok {
						storeCell(c, v)
					} else {
						*c = v
					}
				case nil:
					in.rtPanic(nilDeref)
				case *SymPtr:
					i := in.concretize(c.idx)
					storeCell(&c.elems[i], v)
				default:
					in.unsupported(fmt.Sprintf("store through %T", p.r))
				}
			case iTypeAssert:
				fr.locals[x.dst] = in.typeAssert(x, fr.get(x.a))
			case iGo:
				in.unsupported("go statement")
			default:
				in.unsupported(fmt.Sprintf("instruction %T %v", x.src, x.src))
			}
		}
		ni := blk.succ[next]
		nb := &fn.blocks[ni]
		if len(nb.phis) > 0 {
			mv := nb.phis[blk.pred[next]]
			if len(mv) == 1 {
				fr.locals[mv[0].dst] = fr.get(mv[0].src)
			} else if len(mv) > 0 {
				t := tmp[:0]
				for _, m := range mv {
					t = append(t, fr.get(m.src))
				}
				for i, m := range mv {
					fr.locals[m.dst] = t[i]
				}
			}
		}
		blk = nb
	}
}

func (in *Interp) resolveInvoke(fr *Frame, x *Inst) (*Fn, []V) {
	recv := fr.get(x.a)
	if recv.r == nil {
		in.rtPanic(nilDeref)
	}
	i, ok := recv.r.(*Iface)
	if !ok {
		in.unsupported(fmt.Sprintf("invoke on %T", recv.r))
	}
	args := in.alloc(len(x.args) + 1)
	args[0] = i.v
	for j, a := range x.args {
		args[j+1] = fr.get(a)
	}
	ci := x.call
	if ci.icT == i.t {
		return ci.icF, args
	}
	f := in.method(i.t, ci.invoke.Pkg(), ci.invoke.Name())
	if f == nil {
		in.unsupported("no method " + ci.invoke.Name() + " on " + i.t.String())
	}
	ci.icT, ci.icF = i.t, f
	return f, args
}

// method finds a method of a concrete type, nil when absent.
func (in *Interp) method(t types.Type, pkg *types.Package, name string) *Fn {
	pp := ""
	if pkg != nil && !token.IsExported(name) {
		pp = pkg.Path()
	}
	k := mkey{t, name, pp}
	if f, ok := in.mcache[k]; ok {
		return f
	}
	sf := in.eng.lookupMethod(t, pkg, name)
	var f *Fn
	if sf != nil {
		f = in.fnOf(sf)
	}
	in.mcache[k] = f
	return f
}

// callMethod calls a named method on an interface value.
func (in *Interp) callMethod(iv V, name string, args ...V) V {
	i := iv.r.(*Iface)
	f := in.method(i.t, nil, name)
	if f == nil {
		in.unsupported("callMethod " + name + " on " + i.t.String())
	}
	return in.call(f, append([]V{i.v}, args...), nil, nil)
}

func (in *Interp) implements(t types.Type, it *types.Interface) bool {
	k := [2]types.Type{t, it}
	if b, ok := in.impl[k]; ok {
		return b
	}
	b := in.eng.implements(t, it)
	in.impl[k] = b
	return b
}

func (in *Interp) typeAssert(x *Inst, v V) V {
	ok := false
	var res V
	if i, isI := v.r.(*Iface); isI {
		if x.k2.k == kIface {
			if in.implements(i.t, x.t2.Underlying().(*types.Interface)) {
				ok = true
				res = v
			}
		} else if i.t == x.t2 {
			ok = true
			res = i.v
		}
	} else if v.r != nil {
		in.unsupported(fmt.Sprintf("type assertion on %T", v.r))
	}
	if x.flag {
		if !ok {
			res = in.zero(x.t2)
		}
		return V{r: &Agg{[]V{res, bv(ok)}}}
	}
	if !ok {
		d := "nil"
		if i, isI := v.r.(*Iface); isI {
			d = i.t.String()
		}
		in.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", d, x.t2))
	}
	return res
}

// idx checks an index against n; it returns either a concrete index or a term.
func (in *Interp) idx(iv V, w uint8, signed bool, n int) (int, *Term) {
	t, ok := iv.r.(*Term)
	if !ok {
		i := int64(iv.n)
		if i < 0 || i >= int64(n) {
			in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	}
	var in64 *Term
	if signed {
		in64 = in.tt.App(OSext, 64, t, nil, nil)
	} else {
		in64 = in.tt.App(OZext, 64, t, nil, nil)
	}
	if !in.branch(in.tt.App(OUlt, 0, in64, in.tt.Const(uint64(n), 64), nil)) {
		in.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
	return 0, t
}

func (in *Interp) index(x *Inst, v, iv V) V {
	switch x.k2.k {
	case kString:
		n := strLen(v)
		i, t := in.idx(iv, uint8(x.c), x.flag, n)
		if t == nil {
			return strByte(v, i)
		}
		return in.symLoad(strBytes(v), t, kinfo{kInt, 8, false})
	case kArray:
		a := v.r.(*Agg).f
		i, t := in.idx(iv, uint8(x.c), x.flag, len(a))
		if t == nil {
			return a[i]
		}
		return in.symLoad(a, t, x.k)
	}
	in.unsupported("index")
	return V{}
}

func (in *Interp) indexAddr(x *Inst, v, iv V) V {
	var a []V
	switch c := v.r.(type) {
	case *Slice:
		a = c.a
	case *V: // pointer to array
		a = c.r.(*Agg).f
	case nil:
		if x.k2.k == kPtr {
			in.rtPanic(nilDeref)
		}
	default:
		in.unsupported(fmt.Sprintf("indexAddr of %T", v.r))
	}
	i, t := in.idx(iv, uint8(x.c), x.flag, len(a))
	if t == nil {
		return V{r: &a[i]}
	}
	if x.k.k != kInt && x.k.k != kBool {
		return V{r: &a[in.concretize(t)]}
	}
	return V{r: &SymPtr{a, t}}
}

func (in *Interp) lookup(x *Inst, m, k V) V {
	if x.k2.k == kString {
		return in.index(x, m, k)
	}
	mt := x.t2.Underlying().(*types.Map)
	var mm *Map
	if m.r != nil {
		mm = m.r.(*Map)
	}
	i := in.mapFind(mm, mt.Key(), k)
	var v V
	if i >= 0 {
		v = copyVal(mm.ents[i].v)
	} else {
		v = in.zero(mt.Elem())
	}
	if x.flag {
		return V{r: &Agg{[]V{v, bv(i >= 0)}}}
	}
	return v
}

type rangeIter struct {
	s    V
	pos  int
	m    *Map
	ord  []int
	oi   int
	kt   types.Type
	kz   V
	vz   V
	seen int
}

func (in *Interp) mkRange(x *Inst, v V) V {
	it := &rangeIter{}
	if x.k2.k == kString {
		it.s = v
		return V{r: it}
	}
	mt := x.t2.Underlying().(*types.Map)
	it.kt = mt.Key()
	it.kz, it.vz = in.zero(mt.Key()), in.zero(mt.Elem())
	if v.r != nil {
		it.m = v.r.(*Map)
		if in.mord && it.m.live >= 2 && !in.inInit {
			// unspecified iteration order: forward, or reversed
			var o []int
			for i := range it.m.ents {
				if !it.m.ents[i].dead {
					o = append(o, i)
				}
			}
			if in.path.choose(in, 2) == 1 {
				for i, j := 0, len(o)-1; i < j; i, j = i+1, j-1 {
					o[i], o[j] = o[j], o[i]
				}
			}
			it.ord = o
		}
	}
	return V{r: it}
}

func (in *Interp) next(x *Inst, v V) V {
	it := v.r.(*rangeIter)
	if x.flag {
		n := strLen(it.s)
		if it.pos >= n {
			return V{r: &Agg{[]V{bv(false), {}, {}}}}
		}
		p := it.pos
		r, w := in.decodeRune(it.s, p)
		it.pos += w
		return V{r: &Agg{[]V{bv(true), {n: uint64(p)}, r}}}
	}
	if it.m != nil {
		if it.ord != nil {
			for it.oi < len(it.ord) {
				e := &it.m.ents[it.ord[it.oi]]
				it.oi++
				if !e.dead {
					return V{r: &Agg{[]V{bv(true), copyVal(e.k), copyVal(e.v)}}}
				}
			}
		} else {
			for it.pos < len(it.m.ents) {
				e := &it.m.ents[it.pos]
				it.pos++
				if !e.dead {
					return V{r: &Agg{[]V{bv(true), copyVal(e.k), copyVal(e.v)}}}
				}
			}
		}
	}
	return V{r: &Agg{[]V{bv(false), it.kz, it.vz}}}
}

// decodeRune decodes the rune of s at p; symbolic bytes fork.
func (in *Interp) decodeRune(s V, p int) (V, int) {
	b0 := strByte(s, p)
	t, sym := b0.r.(*Term)
	if !sym && b0.n < 0x80 {
		return b0, 1
	}
	if sym && in.branch(in.tt.App(OUlt, 0, t, in.tt.Const(0x80, 8), nil)) {
		return fromTerm(in.tt.App(OZext, 32, t, nil, nil), kinfo{kInt, 32, true}), 1
	}
	end := p + 4
	if n := strLen(s); end > n {
		end = n
	}
	r := in.call(in.fnOf(in.eng.decodeRune), []V{strSlice(s, p, end)}, nil, nil).r.(*Agg)
	return r.f[0], int(in.concInt(r.f[1], 64, true))
}

func (in *Interp) slice(fr *Frame, x *Inst) V {
	v := fr.get(x.a)
	lo, hi, max := 0, -1, -1
	geti := func(o int) int {
		iv := fr.get(o)
		if t, ok := iv.r.(*Term); ok {
			return int(sext(in.concretize(t), t.w))
		}
		return int(int64(iv.n))
	}
	if x.b != noOpnd {
		lo = geti(x.b)
	}
	if x.c != noOpnd {
		hi = geti(x.c)
	}
	if x.d != noOpnd {
		max = geti(x.d)
	}
	if x.k2.k == kString {
		n := strLen(v)
		if x.c == noOpnd {
			hi = n
		}
		if hi < 0 || hi > n {
			in.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with length %d", hi, n))
		}
		if lo < 0 || lo > hi {
			in.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
		}
		return strSlice(v, lo, hi)
	}
	var a []V
	switch c := v.r.(type) {
	case *Slice:
		a = c.a
	case *V:
		a = c.r.(*Agg).f
	case nil:
		if x.k2.k == kPtr {
			in.rtPanic(nilDeref)
		}
	default:
		in.unsupported(fmt.Sprintf("slice of %T", v.r))
	}
	if x.c == noOpnd {
		hi = len(a)
	}
	if x.d == noOpnd {
		max = cap(a)
	}
	if max < 0 || max > cap(a) {
		in.rtPanic(fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", max, cap(a)))
	}
	if hi < 0 || hi > max {
		in.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", hi, max))
	}
	if lo < 0 || lo > hi {
		in.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
	}
	if v.r == nil {
		return V{}
	}
	return V{r: &Slice{a[lo:hi:max]}}
}

func (in *Interp) binop(x *Inst, a, b V) V {
	k := x.k2
	switch k.k {
	case kInt:
		ta, sa := a.r.(*Term)
		tb, sb := b.r.(*Term)
		if !sa && !sb {
			return in.intOp(x, a.n, b.n)
		}
		w := k.w
		if x.tok == token.SHL || x.tok == token.SHR {
			if !sa {
				ta = in.tt.Const(a.n, w)
			}
			var cnt *Term
			if !sb {
				if x.flag && int64(b.n) < 0 {
					in.rtPanic("negative shift amount")
				}
				c := b.n
				if c > uint64(w) {
					c = uint64(w)
				}
				cnt = in.tt.Const(c, w)
			} else {
				cw := uint8(x.c)
				if x.flag && in.branch(in.tt.App(OSlt, 0, tb, in.tt.Const(0, cw), nil)) {
					in.rtPanic("negative shift amount")
				}
				big := in.tt.Not(in.tt.App(OUlt, 0, tb, in.tt.Const(uint64(w), cw), nil))
				if mask(cw) < uint64(w) {
					big = in.tt.False
				}
				var tc *Term
				if cw < w {
					tc = in.tt.App(OZext, w, tb, nil, nil)
				} else {
					tc = in.tt.App(OTrunc, w, tb, nil, nil)
				}
				cnt = in.tt.App(OIte, w, big, in.tt.Const(uint64(w), w), tc)
			}
			op := OShl
			if x.tok == token.SHR {
				op = OLshr
				if k.signed {
					op = OAshr
				}
			}
			return fromTerm(in.tt.App(op, w, ta, cnt, nil), k)
		}
		if !sa {
			ta = in.tt.Const(a.n, w)
		}
		if !sb {
			tb = in.tt.Const(b.n, w)
		}
		bin := func(op Op) V { return fromTerm(in.tt.App(op, w, ta, tb, nil), k) }
		cmp := func(op Op, x, y *Term) V { return in.boolV(in.tt.App(op, 0, x, y, nil)) }
		lt, le := OUlt, OUle
		if k.signed {
			lt, le = OSlt, OSle
		}
		switch x.tok {
		case token.ADD:
			return bin(OAdd)
		case token.SUB:
			return bin(OSub)
		case token.MUL:
			return bin(OMul)
		case token.QUO, token.REM:
			if in.branch(in.tt.Eq(tb, in.tt.Const(0, w))) {
				in.rtPanic("integer divide by zero")
			}
			switch {
			case x.tok == token.QUO && k.signed:
				return bin(OSDiv)
			case x.tok == token.QUO:
				return bin(OUDiv)
			case k.signed:
				return bin(OSRem)
			}
			return bin(OURem)
		case token.AND:
			return bin(OAnd)
		case token.OR:
			return bin(OOr)
		case token.XOR:
			return bin(OXor)
		case token.AND_NOT:
			return fromTerm(in.tt.App(OAnd, w, ta, in.tt.App(OXor, w, tb, in.tt.Const(^uint64(0), w), nil), nil), k)
		case token.EQL:
			return in.boolV(in.tt.Eq(ta, tb))
		case token.NEQ:
			return in.boolV(in.tt.Not(in.tt.Eq(ta, tb)))
		case token.LSS:
			return cmp(lt, ta, tb)
		case token.LEQ:
			return cmp(le, ta, tb)
		case token.GTR:
			return cmp(lt, tb, ta)
		case token.GEQ:
			return cmp(le, tb, ta)
		}
	case kString:
		switch x.tok {
		case token.ADD:
			return strConcat(a, b)
		case token.EQL:
			return in.boolV(in.strEq(a, b))
		case token.NEQ:
			return in.boolV(in.tt.Not(in.strEq(a, b)))
		case token.LSS:
			return in.boolV(in.strLess(a, b, false))
		case token.LEQ:
			return in.boolV(in.strLess(a, b, true))
		case token.GTR:
			return in.boolV(in.strLess(b, a, false))
		case token.GEQ:
			return in.boolV(in.strLess(b, a, true))
		}
	case kFloat:
		if a.r != nil || b.r != nil {
			in.unsupported("symbolic float")
		}
		p, q := math.Float64frombits(a.n), math.Float64frombits(b.n)
		rnd := func(f float64) V {
			if k.w == 32 {
				f = float64(float32(f))
			}
			return V{n: math.Float64bits(f)}
		}
		switch x.tok {
		case token.ADD:
			return rnd(p + q)
		case token.SUB:
			return rnd(p - q)
		case token.MUL:
			return rnd(p * q)
		case token.QUO:
			return rnd(p / q)
		case token.EQL:
			return bv(p == q)
		case token.NEQ:
			return bv(p != q)
		case token.LSS:
			return bv(p < q)
		case token.LEQ:
			return bv(p <= q)
		case token.GTR:
			return bv(p > q)
		case token.GEQ:
			return bv(p >= q)
		}
	}
	switch x.tok {
	case token.EQL, token.NEQ:
		// comparisons between interface and concrete operands are converted by go/ssa
		t := in.equal(x.t2, a, b)
		if x.tok == token.NEQ {
			t = in.tt.Not(t)
		}
		return in.boolV(t)
	}
	if k.k == kBool {
		ta, tb := in.term(a, 0), in.term(b, 0)
		switch x.tok {
		case token.AND, token.LAND:
			return in.boolV(in.tt.And(ta, tb))
		case token.OR, token.LOR:
			return in.boolV(in.tt.Or(ta, tb))
		}
	}
	if k.k == kComplex {
		p, q := a.r.(complex128), b.r.(complex128)
		switch x.tok {
		case token.ADD:
			return V{r: p + q}
		case token.SUB:
			return V{r: p - q}
		case token.MUL:
			return V{r: p * q}
		}
	}
	in.unsupported(fmt.Sprintf("binop %v at %v", x.tok, x.t2))
	return V{}
}

func (in *Interp) intOp(x *Inst, a, b uint64) V {
	k := x.k2
	switch x.tok {
	case token.ADD:
		return V{n: norm(a+b, k)}
	case token.SUB:
		return V{n: norm(a-b, k)}
	case token.MUL:
		return V{n: norm(a*b, k)}
	case token.QUO:
		if b == 0 {
			in.rtPanic("integer divide by zero")
		}
		if k.signed {
			if int64(b) == -1 {
				return V{n: norm(-a, k)}
			}
			return V{n: norm(uint64(int64(a)/int64(b)), k)}
		}
		return V{n: a / b}
	case token.REM:
		if b == 0 {
			in.rtPanic("integer divide by zero")
		}
		if k.signed {
			if int64(b) == -1 {
				return V{}
			}
			return V{n: norm(uint64(int64(a)%int64(b)), k)}
		}
		return V{n: a % b}
	case token.AND:
		return V{n: a & b}
	case token.OR:
		return V{n: a | b}
	case token.XOR:
		return V{n: norm(a^b, k)}
	case token.AND_NOT:
		return V{n: norm(a&^b, k)}
	case token.SHL:
		if x.flag && int64(b) < 0 {
			in.rtPanic("negative shift amount")
		}
		if b >= 64 {
			return V{}
		}
		return V{n: norm(a<<b, k)}
	case token.SHR:
		if x.flag && int64(b) < 0 {
			in.rtPanic("negative shift amount")
		}
		if k.signed {
			if b > 63 {
				b = 63
			}
			return V{n: uint64(int64(a) >> b)}
		}
		if b >= 64 {
			return V{}
		}
		return V{n: a >> b}
	case token.EQL:
		return bv(a == b)
	case token.NEQ:
		return bv(a != b)
	}
	if k.signed {
		switch x.tok {
		case token.LSS:
			return bv(int64(a) < int64(b))
		case token.LEQ:
			return bv(int64(a) <= int64(b))
		case token.GTR:
			return bv(int64(a) > int64(b))
		case token.GEQ:
			return bv(int64(a) >= int64(b))
		}
	}
	switch x.tok {
	case token.LSS:
		return bv(a < b)
	case token.LEQ:
		return bv(a <= b)
	case token.GTR:
		return bv(a > b)
	case token.GEQ:
		return bv(a >= b)
	}
	in.unsupported("intop " + x.tok.String())
	return V{}
}

func (in *Interp) convInt(v V, to, from kinfo) V {
	if t, ok := v.r.(*Term); ok {
		switch {
		case to.w < from.w:
			return fromTerm(in.tt.App(OTrunc, to.w, t, nil, nil), to)
		case to.w > from.w && from.signed:
			return fromTerm(in.tt.App(OSext, to.w, t, nil, nil), to)
		case to.w > from.w:
			return fromTerm(in.tt.App(OZext, to.w, t, nil, nil), to)
		}
		return v
	}
	return V{n: norm(v.n, to)}
}

func (in *Interp) convert(t, t2 types.Type, to, from kinfo, v V) V {
	switch {
	case to.k == kInt && from.k == kInt:
		return in.convInt(v, to, from)
	case to.k == kFloat && from.k == kFloat:
		f := math.Float64frombits(v.n)
		if to.w == 32 {
			f = float64(float32(f))
		}
		return V{n: math.Float64bits(f)}
	case to.k == kFloat && from.k == kInt:
		if v.r != nil {
			v = V{n: norm(in.concretize(v.r.(*Term)), from)}
		}
		var f float64
		if from.signed {
			f = float64(int64(v.n))
			if to.w == 32 {
				f = float64(float32(int64(v.n)))
			}
		} else {
			f = float64(v.n)
			if to.w == 32 {
				f = float64(float32(v.n))
			}
		}
		return V{n: math.Float64bits(f)}
	case to.k == kInt && from.k == kFloat:
		f := math.Float64frombits(v.n)
		if to.signed {
			return V{n: norm(uint64(int64(f)), to)}
		}
		return V{n: norm(uint64(f), to)}
	case to.k == kString && from.k == kInt:
		if v.r == nil {
			return strV(string(rune(int64(v.n))))
		}
		// rune conversion through utf8.AppendRune
		r := in.convInt(v, kinfo{kInt, 32, true}, from)
		s := in.call(in.fnOf(in.eng.appendRune), []V{{}, r}, nil, nil)
		return mkStr(append([]V(nil), s.r.(*Slice).a...))
	case to.k == kString && from.k == kSlice:
		if v.r == nil {
			return V{}
		}
		a := v.r.(*Slice).a
		ek := in.kindOf(t2.Underlying().(*types.Slice).Elem())
		if ek.w == 8 {
			return mkStr(append([]V(nil), a...))
		}
		out := V{}
		for _, r := range a {
			out = strConcat(out, in.convert(t, types.Typ[types.Rune], to, kinfo{kInt, 32, true}, r))
		}
		return out
	case to.k == kSlice && from.k == kString:
		ek := in.kindOf(t.Underlying().(*types.Slice).Elem())
		if ek.w == 8 {
			b := strBytes(v)
			c := make([]V, len(b), growCap(0, len(b), 1))
			copy(c, b)
			return V{r: &Slice{c}}
		}
		var out []V
		for p := 0; p < strLen(v); {
			r, w := in.decodeRune(v, p)
			out = append(out, r)
			p += w
		}
		c := make([]V, len(out), growCap(0, len(out), 4))
		copy(c, out)
		return V{r: &Slice{c}}
	case to.k == from.k:
		return v
	case to.k == kUnsafe || from.k == kUnsafe:
		return v
	}
	in.unsupported(fmt.Sprintf("convert %v -> %v", t2, t))
	return V{}
}

func debugf(f string, a ...any) {
	if os.Getenv("ENGDEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}
