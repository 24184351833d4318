package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// V is one Go value.  Integers, bools and floats keep their bits in n with r == nil;
// a symbolic integer or bool has r = *Term.  Everything else lives in r.
type V struct {
	n uint64
	r any
}

// Agg is a struct, array or tuple.
type Agg struct{ f []V }

// Slice is a slice header over cells.
type Slice struct{ a []V }

// SymStr is a string some of whose bytes are symbolic.
type SymStr struct{ b []V }

// Iface is a non-nil interface value.
type Iface struct {
	t types.Type // canonical dynamic type
	v V
}

// Closure is a function value.
type Closure struct {
	fn     *Fn
	free   []V
	native func(in *Interp, args []V) V
}

// SymPtr is a pointer to an element selected by a symbolic index.
type SymPtr struct {
	elems []V
	idx   *Term
}

// SliceData is the result of unsafe.SliceData / unsafe.StringData.
type SliceData struct {
	s   *Slice
	str V
	cp  *V
}

// Map is a Go map with insertion order.
type Map struct {
	idx  map[string]int
	ents []ment
	live int
	nsym int
}

type ment struct {
	k, v V
	ck   string
	sym  bool
	dead bool
}

// RType / RVal are reflect's opaque payloads.
type RType struct{ t types.Type }
type RVal struct {
	t    types.Type
	v    V
	addr *V // when addressable / settable
	ro   bool
	fn   *Closure // bound method
	sig  *types.Signature
}

type kinfo struct {
	k      kind
	w      uint8
	signed bool
}

type kind uint8

const (
	kOther kind = iota
	kInt
	kBool
	kFloat
	kString
	kPtr
	kSlice
	kMap
	kChan
	kFunc
	kIface
	kStruct
	kArray
	kComplex
	kUnsafe
	kTuple
)

// canonical types, shared between workers
var (
	canonMu  sync.Mutex
	canonMap typeutil.Map
)

func canonShared(t types.Type) types.Type {
	canonMu.Lock()
	defer canonMu.Unlock()
	if c := canonMap.At(t); c != nil {
		return c.(types.Type)
	}
	canonMap.Set(t, t)
	return t
}

func (in *Interp) canon(t types.Type) types.Type {
	if c, ok := in.canonC[t]; ok {
		return c
	}
	c := canonShared(types.Unalias(t))
	in.canonC[t] = c
	return c
}

func (in *Interp) kindOf(t types.Type) kinfo {
	if k, ok := in.kinds[t]; ok {
		return k
	}
	k := computeKind(t)
	in.kinds[t] = k
	return k
}

func computeKind(t types.Type) kinfo {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return kinfo{kBool, 0, false}
		case types.Int, types.Int64, types.UntypedInt:
			return kinfo{kInt, 64, true}
		case types.Int8:
			return kinfo{kInt, 8, true}
		case types.Int16:
			return kinfo{kInt, 16, true}
		case types.Int32, types.UntypedRune:
			return kinfo{kInt, 32, true}
		case types.Uint, types.Uint64, types.Uintptr:
			return kinfo{kInt, 64, false}
		case types.Uint8:
			return kinfo{kInt, 8, false}
		case types.Uint16:
			return kinfo{kInt, 16, false}
		case types.Uint32:
			return kinfo{kInt, 32, false}
		case types.Float32:
			return kinfo{kFloat, 32, true}
		case types.Float64, types.UntypedFloat:
			return kinfo{kFloat, 64, true}
		case types.String, types.UntypedString:
			return kinfo{kString, 0, false}
		case types.Complex64, types.Complex128, types.UntypedComplex:
			return kinfo{kComplex, 0, false}
		case types.UnsafePointer:
			return kinfo{kUnsafe, 0, false}
		}
	case *types.Pointer:
		return kinfo{k: kPtr}
	case *types.Slice:
		return kinfo{k: kSlice}
	case *types.Map:
		return kinfo{k: kMap}
	case *types.Chan:
		return kinfo{k: kChan}
	case *types.Signature:
		return kinfo{k: kFunc}
	case *types.Interface:
		return kinfo{k: kIface}
	case *types.Struct:
		return kinfo{k: kStruct}
	case *types.Array:
		return kinfo{k: kArray}
	case *types.Tuple:
		return kinfo{k: kTuple}
	}
	return kinfo{}
}

func (in *Interp) zero(t types.Type) V {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n := u.NumFields()
		f := make([]V, n)
		for i := 0; i < n; i++ {
			f[i] = in.zero(u.Field(i).Type())
		}
		return V{r: &Agg{f}}
	case *types.Array:
		n := int(u.Len())
		f := make([]V, n)
		switch in.kindOf(u.Elem()).k {
		case kStruct, kArray:
			for i := range f {
				f[i] = in.zero(u.Elem())
			}
		}
		return V{r: &Agg{f}}
	case *types.Tuple:
		f := make([]V, u.Len())
		for i := range f {
			f[i] = in.zero(u.At(i).Type())
		}
		return V{r: &Agg{f}}
	}
	return V{}
}

// copyVal makes an independent copy of a struct/array value.
func copyVal(v V) V {
	if a, ok := v.r.(*Agg); ok {
		f := make([]V, len(a.f))
		for i, x := range a.f {
			if _, ok := x.r.(*Agg); ok {
				f[i] = copyVal(x)
			} else {
				f[i] = x
			}
		}
		return V{r: &Agg{f}}
	}
	return v
}

// storeCell writes v into the cell keeping sub-cell identity.
func storeCell(c *V, v V) {
	if a, ok := v.r.(*Agg); ok {
		if d, ok := c.r.(*Agg); ok && len(d.f) == len(a.f) {
			if d == a {
				return
			}
			for i := range a.f {
				storeCell(&d.f[i], a.f[i])
			}
			return
		}
		*c = copyVal(v)
		return
	}
	*c = v
}

// Strings ------------------------------------------------------------

func strV(s string) V {
	if s == "" {
		return V{}
	}
	return V{r: s}
}

func strLen(v V) int {
	switch s := v.r.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen of %T", v.r))
}

func strByte(v V, i int) V {
	switch s := v.r.(type) {
	case string:
		return V{n: uint64(s[i])}
	case *SymStr:
		return s.b[i]
	}
	panic("strByte")
}

func strSlice(v V, lo, hi int) V {
	if lo == hi {
		return V{}
	}
	switch s := v.r.(type) {
	case string:
		return V{r: s[lo:hi]}
	case *SymStr:
		return mkStr(s.b[lo:hi])
	}
	panic("strSlice")
}

// mkStr builds a string from byte values (the slice must not be mutated afterwards).
func mkStr(b []V) V {
	if len(b) == 0 {
		return V{}
	}
	for i := range b {
		if b[i].r != nil {
			return V{r: &SymStr{b}}
		}
	}
	x := make([]byte, len(b))
	for i := range b {
		x[i] = byte(b[i].n)
	}
	return V{r: string(x)}
}

func strBytes(v V) []V {
	switch s := v.r.(type) {
	case nil:
		return nil
	case string:
		b := make([]V, len(s))
		for i := 0; i < len(s); i++ {
			b[i].n = uint64(s[i])
		}
		return b
	case *SymStr:
		return s.b
	}
	panic(fmt.Sprintf("strBytes of %T", v.r))
}

func isSymStr(v V) bool { _, ok := v.r.(*SymStr); return ok }

func concStr(v V) (string, bool) {
	switch s := v.r.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func strConcat(a, b V) V {
	if a.r == nil {
		return b
	}
	if b.r == nil {
		return a
	}
	if x, ok := a.r.(string); ok {
		if y, ok := b.r.(string); ok {
			return V{r: x + y}
		}
	}
	x, y := strBytes(a), strBytes(b)
	o := make([]V, 0, len(x)+len(y))
	o = append(append(o, x...), y...)
	return mkStr(o)
}

// Terms --------------------------------------------------------------

func (in *Interp) term(v V, w uint8) *Term {
	if t, ok := v.r.(*Term); ok {
		return t
	}
	if v.r != nil {
		panic(fmt.Sprintf("term of %T", v.r))
	}
	return in.tt.Const(v.n, w)
}

// fromTerm wraps a term as a value; concrete ints are kept sign/zero-extended per kinfo.
func fromTerm(t *Term, k kinfo) V {
	if t.isConst() {
		return V{n: norm(t.val, k)}
	}
	return V{r: t}
}

// norm keeps the representation invariant: signed ints sign-extended to 64 bits, unsigned zero-extended.
func norm(x uint64, k kinfo) uint64 {
	if k.w == 0 || k.w >= 64 {
		return x
	}
	if k.signed {
		return uint64(sext(x&mask(k.w), k.w))
	}
	return x & mask(k.w)
}

func (in *Interp) boolV(t *Term) V {
	if t.isConst() {
		return V{n: t.val}
	}
	return V{r: t}
}

func bv(b bool) V { return V{n: b2u(b)} }

func (in *Interp) strEq(a, b V) *Term {
	la, lb := strLen(a), strLen(b)
	if la != lb {
		return in.tt.False
	}
	if la == 0 {
		return in.tt.True
	}
	if x, ok := a.r.(string); ok {
		if y, ok := b.r.(string); ok {
			return in.tt.Bool(x == y)
		}
	}
	r := in.tt.True
	for i := 0; i < la; i++ {
		r = in.tt.And(r, in.tt.Eq(in.term(strByte(a, i), 8), in.term(strByte(b, i), 8)))
		if r == in.tt.False {
			return r
		}
	}
	return r
}

// strLess returns a<b (or a<=b when orEq).
func (in *Interp) strLess(a, b V, orEq bool) *Term {
	la, lb := strLen(a), strLen(b)
	n := la
	if lb < n {
		n = lb
	}
	var r *Term
	if orEq {
		r = in.tt.Bool(la <= lb)
	} else {
		r = in.tt.Bool(la < lb)
	}
	for i := n - 1; i >= 0; i-- {
		x, y := in.term(strByte(a, i), 8), in.term(strByte(b, i), 8)
		lt := in.tt.App(OUlt, 0, x, y, nil)
		eq := in.tt.Eq(x, y)
		r = in.tt.Or(lt, in.tt.And(eq, r))
	}
	return r
}

// equal returns the term for a == b at type t.
func (in *Interp) equal(t types.Type, a, b V) *Term {
	k := in.kindOf(t)
	switch k.k {
	case kInt, kBool:
		if a.r == nil && b.r == nil {
			return in.tt.Bool(a.n&mask64(k) == b.n&mask64(k))
		}
		return in.tt.Eq(in.term(a, k.w), in.term(b, k.w))
	case kFloat:
		return in.tt.Bool(math.Float64frombits(a.n) == math.Float64frombits(b.n))
	case kString:
		return in.strEq(a, b)
	case kStruct:
		st := t.Underlying().(*types.Struct)
		r := in.tt.True
		x, y := a.r.(*Agg), b.r.(*Agg)
		for i := range x.f {
			r = in.tt.And(r, in.equal(st.Field(i).Type(), x.f[i], y.f[i]))
			if r == in.tt.False {
				return r
			}
		}
		return r
	case kArray:
		et := t.Underlying().(*types.Array).Elem()
		r := in.tt.True
		x, y := a.r.(*Agg), b.r.(*Agg)
		for i := range x.f {
			r = in.tt.And(r, in.equal(et, x.f[i], y.f[i]))
			if r == in.tt.False {
				return r
			}
		}
		return r
	case kIface:
		if a.r == nil || b.r == nil {
			return in.tt.Bool(a.r == nil && b.r == nil)
		}
		x, y := a.r.(*Iface), b.r.(*Iface)
		if x.t != y.t {
			return in.tt.False
		}
		if !types.Comparable(x.t) {
			in.rtPanic("comparing uncomparable type " + x.t.String())
		}
		return in.equal(x.t, x.v, y.v)
	case kPtr, kMap, kChan, kUnsafe:
		return in.tt.Bool(samePtr(a.r, b.r))
	case kFunc, kSlice:
		// only comparison with nil is legal
		return in.tt.Bool(a.r == nil && b.r == nil)
	}
	in.unsupported("equality at type " + t.String())
	return nil
}

func mask64(k kinfo) uint64 {
	if k.k == kBool {
		return 1
	}
	return mask(k.w)
}

func samePtr(a, b any) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if x, ok := a.(*SliceData); ok {
		if y, ok := b.(*SliceData); ok {
			if x.s != nil && y.s != nil && cap(x.s.a) > 0 && cap(y.s.a) > 0 {
				return &x.s.a[:1][0] == &y.s.a[:1][0]
			}
		}
		return false
	}
	if x, ok := a.(*RType); ok {
		if y, ok := b.(*RType); ok {
			return x.t == y.t
		}
		return false
	}
	return a == b
}

// hashKey gives a canonical string for a fully concrete key.
func (in *Interp) hashKey(t types.Type, v V) (string, bool) {
	k := in.kindOf(t)
	switch k.k {
	case kString:
		return concStr(v)
	case kInt, kBool:
		if v.r != nil {
			return "", false
		}
		return string([]byte{byte(v.n), byte(v.n >> 8), byte(v.n >> 16), byte(v.n >> 24), byte(v.n >> 32), byte(v.n >> 40), byte(v.n >> 48), byte(v.n >> 56)}), true
	case kFloat:
		return fmt.Sprint(math.Float64frombits(v.n)), true
	case kPtr, kChan, kMap, kUnsafe:
		if rt, ok := v.r.(*RType); ok {
			return fmt.Sprintf("rt%p", rt.t), true
		}
		if v.r == nil {
			return "nil", true
		}
		return fmt.Sprintf("%p", v.r), true
	case kIface:
		if v.r == nil {
			return "nil", true
		}
		i := v.r.(*Iface)
		if !types.Comparable(i.t) {
			in.rtPanic("hash of unhashable type " + i.t.String())
		}
		s, ok := in.hashKey(i.t, i.v)
		return fmt.Sprintf("%p:%s", i.t, s), ok
	case kStruct, kArray:
		var sb strings.Builder
		a := v.r.(*Agg)
		for i, x := range a.f {
			var ft types.Type
			if st, ok := t.Underlying().(*types.Struct); ok {
				ft = st.Field(i).Type()
			} else {
				ft = t.Underlying().(*types.Array).Elem()
			}
			s, ok := in.hashKey(ft, x)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s,", len(s), s)
		}
		return sb.String(), true
	}
	in.unsupported("map key type " + t.String())
	return "", false
}

func newMap() *Map { return &Map{idx: map[string]int{}} }

func (in *Interp) mapFind(m *Map, kt types.Type, k V) int {
	if m == nil {
		in.hashKey(kt, k)
		return -1
	}
	ck, ok := in.hashKey(kt, k)
	if ok && m.nsym == 0 {
		if i, ok := m.idx[ck]; ok {
			return i
		}
		return -1
	}
	for i := range m.ents {
		e := &m.ents[i]
		if e.dead {
			continue
		}
		if ok && !e.sym {
			if e.ck == ck {
				return i
			}
			continue
		}
		if in.branch(in.equal(kt, e.k, k)) {
			return i
		}
	}
	return -1
}

func (in *Interp) mapSet(m *Map, kt types.Type, k, v V) {
	i := in.mapFind(m, kt, k)
	if i >= 0 {
		m.ents[i].v = copyVal(v)
		return
	}
	ck, ok := in.hashKey(kt, k)
	m.ents = append(m.ents, ment{k: copyVal(k), v: copyVal(v), ck: ck, sym: !ok})
	if ok {
		m.idx[ck] = len(m.ents) - 1
	} else {
		m.nsym++
	}
	m.live++
}

func (in *Interp) mapDelete(m *Map, kt types.Type, k V) {
	i := in.mapFind(m, kt, k)
	if i < 0 {
		return
	}
	e := &m.ents[i]
	e.dead = true
	if e.sym {
		m.nsym--
	} else {
		delete(m.idx, e.ck)
	}
	m.live--
}

func (in *Interp) constVal(c *ssa.Const) V {
	if c.Value == nil {
		return in.zero(c.Type())
	}
	k := in.kindOf(c.Type())
	switch k.k {
	case kBool:
		return bv(constant.BoolVal(c.Value))
	case kInt:
		if k.signed {
			return V{n: norm(uint64(c.Int64()), k)}
		}
		return V{n: norm(c.Uint64(), k)}
	case kFloat:
		f := c.Float64()
		if k.w == 32 {
			f = float64(float32(f))
		}
		return V{n: math.Float64bits(f)}
	case kString:
		if c.Value.Kind() == constant.String {
			return strV(constant.StringVal(c.Value))
		}
		return strV(string(rune(c.Int64())))
	case kComplex:
		return V{r: c.Complex128()}
	}
	return V{r: badConst(c.String())}
}

type badConst string
