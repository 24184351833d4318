package main

import (
	"fmt"
	"math/bits"
	"strconv"
	"strings"
)

// Terms: hash-consed quantifier-free bit-vector terms.  Width 0 means Bool.

type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OAnd
	OOr
	OXor
	OShl
	OLshr
	OAshr
	OZext
	OSext
	OTrunc
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBAnd
	OBOr
	OBNot
)

var opNames = map[Op]string{
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem",
	OAnd: "bvand", OOr: "bvor", OXor: "bvxor", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr",
	OIte: "ite", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OBAnd: "and", OBOr: "or", OBNot: "not",
}

type Term struct {
	id   int
	op   Op
	w    uint8 // 0 = Bool
	a    *Term
	b    *Term
	c    *Term
	val  uint64 // const value, or var index
	name string
	vars []int32 // sorted set of var indexes
	tt   *[4]uint64
}

type termKey struct {
	op      Op
	w       uint8
	a, b, c int
	val     uint64
}

// TermTable is per worker, so no locking.
type TermTable struct {
	tab   map[termKey]*Term
	all   []*Term
	vars  []*Term // by index
	varBy map[string]*Term
	True  *Term
	False *Term
}

func newTermTable() *TermTable {
	t := &TermTable{tab: map[termKey]*Term{}, varBy: map[string]*Term{}}
	t.True = t.mk(OConst, 0, nil, nil, nil, 1)
	t.False = t.mk(OConst, 0, nil, nil, nil, 0)
	return t
}

func tid(t *Term) int {
	if t == nil {
		return -1
	}
	return t.id
}

func unionVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	i, j := 0, 0
	sub := true
	if len(a) >= len(b) {
		for j < len(b) {
			for i < len(a) && a[i] < b[j] {
				i++
			}
			if i >= len(a) || a[i] != b[j] {
				sub = false
				break
			}
			j++
		}
		if sub {
			return a
		}
	}
	out := make([]int32, 0, len(a)+len(b))
	i, j = 0, 0
	for i < len(a) || j < len(b) {
		if j >= len(b) || (i < len(a) && a[i] < b[j]) {
			out = append(out, a[i])
			i++
		} else if i >= len(a) || b[j] < a[i] {
			out = append(out, b[j])
			j++
		} else {
			out = append(out, a[i])
			i++
			j++
		}
	}
	return out
}

func (tt *TermTable) mk(op Op, w uint8, a, b, c *Term, val uint64) *Term {
	k := termKey{op, w, tid(a), tid(b), tid(c), val}
	if t, ok := tt.tab[k]; ok {
		return t
	}
	t := &Term{id: len(tt.all), op: op, w: w, a: a, b: b, c: c, val: val}
	if a != nil {
		t.vars = a.vars
	}
	if b != nil {
		t.vars = unionVars(t.vars, b.vars)
	}
	if c != nil {
		t.vars = unionVars(t.vars, c.vars)
	}
	tt.all = append(tt.all, t)
	tt.tab[k] = t
	return t
}

// Var returns the variable with the given name and width.
func (tt *TermTable) Var(name string, w uint8) *Term {
	key := name + ":" + strconv.Itoa(int(w))
	if t, ok := tt.varBy[key]; ok {
		return t
	}
	idx := len(tt.vars)
	t := &Term{id: len(tt.all), op: OVar, w: w, val: uint64(idx), name: name, vars: []int32{int32(idx)}}
	tt.all = append(tt.all, t)
	tt.vars = append(tt.vars, t)
	tt.varBy[key] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w == 0 || w >= 64 {
		return int64(v)
	}
	return int64(v<<(64-w)) >> (64 - w)
}

func (tt *TermTable) Const(v uint64, w uint8) *Term {
	return tt.mk(OConst, w, nil, nil, nil, v&mask(w))
}

func (tt *TermTable) Bool(b bool) *Term {
	if b {
		return tt.True
	}
	return tt.False
}

func evalOp(op Op, w uint8, aw uint8, a, b, c uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OAnd:
		return a & b
	case OOr:
		return a | b
	case OXor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAshr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sext(a, w)>>b) & m
	case OZext:
		return a
	case OSext:
		return uint64(sext(a, aw)) & m
	case OTrunc:
		return a & m
	case OIte:
		if a != 0 {
			return b
		}
		return c
	case OEq:
		return b2u(a == b)
	case OUlt:
		return b2u(a < b)
	case OUle:
		return b2u(a <= b)
	case OSlt:
		return b2u(sext(a, aw) < sext(b, aw))
	case OSle:
		return b2u(sext(a, aw) <= sext(b, aw))
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBNot:
		return 1 - a
	}
	panic("evalOp")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (t *Term) isConst() bool { return t.op == OConst }

// Bin builds a binary/ternary op with simplification.
func (tt *TermTable) App(op Op, w uint8, a, b, c *Term) *Term {
	if a.isConst() && (b == nil || b.isConst()) && (c == nil || c.isConst()) {
		var bv, cv uint64
		if b != nil {
			bv = b.val
		}
		if c != nil {
			cv = c.val
		}
		return tt.mk(OConst, w, nil, nil, nil, evalOp(op, w, a.w, a.val, bv, cv)&mask(w))
	}
	switch op {
	case OAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			if a.op == OAdd && a.b.isConst() {
				return tt.App(OAdd, w, a.a, tt.Const(a.b.val+b.val, w), nil)
			}
		}
	case OSub:
		if b.isConst() {
			return tt.App(OAdd, w, a, tt.Const(-b.val, w), nil)
		}
		if a == b {
			return tt.Const(0, w)
		}
	case OMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
		}
	case OAnd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
		}
		if a == b {
			return a
		}
	case OOr, OXor:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.val == 0 {
			return a
		}
		if a == b {
			if op == OOr {
				return a
			}
			return tt.Const(0, w)
		}
	case OShl, OLshr, OAshr:
		if b.isConst() && b.val == 0 {
			return a
		}
	case OZext, OSext, OTrunc:
		if a.w == w {
			return a
		}
		if op == OTrunc && (a.op == OZext || a.op == OSext) {
			if a.a.w == w {
				return a.a
			}
			if a.a.w > w {
				return tt.App(OTrunc, w, a.a, nil, nil)
			}
			return tt.App(a.op, w, a.a, nil, nil)
		}
		if op == OZext && a.op == OZext {
			return tt.App(OZext, w, a.a, nil, nil)
		}
		if op == OSext && a.op == OSext {
			return tt.App(OSext, w, a.a, nil, nil)
		}
		if op == OSext && a.op == OZext && a.w > a.a.w {
			return tt.App(OZext, w, a.a, nil, nil)
		}
	case OIte:
		if a.isConst() {
			if a.val != 0 {
				return b
			}
			return c
		}
		if b == c {
			return b
		}
		if w == 0 && b.isConst() && c.isConst() {
			if b.val == 1 {
				return a
			}
			return tt.Not(a)
		}
	case OEq:
		if a == b {
			return tt.True
		}
		if a.isConst() {
			a, b = b, a
		}
		if a.w == 0 {
			if b.isConst() {
				if b.val == 1 {
					return a
				}
				return tt.Not(a)
			}
		}
		if b.isConst() {
			if a.op == OZext {
				if b.val > mask(a.a.w) {
					return tt.False
				}
				return tt.App(OEq, 0, a.a, tt.Const(b.val, a.a.w), nil)
			}
			if a.op == OAdd && a.b.isConst() {
				return tt.App(OEq, 0, a.a, tt.Const(b.val-a.b.val, a.w), nil)
			}
			if a.op == OIte && a.b.isConst() && a.c.isConst() {
				x, y := a.b.val == b.val, a.c.val == b.val
				switch {
				case x && y:
					return tt.True
				case x:
					return a.a
				case y:
					return tt.Not(a.a)
				default:
					return tt.False
				}
			}
		} else if a.id > b.id {
			a, b = b, a
		}
	case OUlt, OUle, OSlt, OSle:
		if a == b {
			return tt.Bool(op == OUle || op == OSle)
		}
	case OBAnd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 1 {
				return a
			}
			return b
		}
		if a == b {
			return a
		}
		if a.op == OBNot && a.a == b || b.op == OBNot && b.a == a {
			return tt.False
		}
	case OBOr:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			return b
		}
		if a == b {
			return a
		}
		if a.op == OBNot && a.a == b || b.op == OBNot && b.a == a {
			return tt.True
		}
	case OBNot:
		if a.op == OBNot {
			return a.a
		}
	}
	return tt.mk(op, w, a, b, c, 0)
}

func (tt *TermTable) Not(a *Term) *Term    { return tt.App(OBNot, 0, a, nil, nil) }
func (tt *TermTable) And(a, b *Term) *Term { return tt.App(OBAnd, 0, a, b, nil) }
func (tt *TermTable) Or(a, b *Term) *Term  { return tt.App(OBOr, 0, a, b, nil) }
func (tt *TermTable) Eq(a, b *Term) *Term  { return tt.App(OEq, 0, a, b, nil) }

// Eval evaluates t under the assignment (var index → value).
func (tt *TermTable) Eval(t *Term, env func(int32) uint64, memo map[int]uint64) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		return env(int32(t.val)) & mask(t.w)
	}
	if v, ok := memo[t.id]; ok {
		return v
	}
	var r uint64
	if t.op == OIte {
		if tt.Eval(t.a, env, memo) != 0 {
			r = tt.Eval(t.b, env, memo)
		} else {
			r = tt.Eval(t.c, env, memo)
		}
	} else {
		var b, c uint64
		a := tt.Eval(t.a, env, memo)
		if t.b != nil {
			b = tt.Eval(t.b, env, memo)
		}
		if t.c != nil {
			c = tt.Eval(t.c, env, memo)
		}
		r = evalOp(t.op, t.w, t.a.w, a, b, c) & mask(t.w)
	}
	memo[t.id] = r
	return r
}

// Truth returns the truth table of a unary Bool term over a variable of width ≤ 8.
func (tt *TermTable) Truth(t *Term) *[4]uint64 {
	if t.tt != nil {
		return t.tt
	}
	v := tt.vars[t.vars[0]]
	n := uint64(1) << v.w
	if v.w == 0 {
		n = 2
	}
	var s [4]uint64
	if (t.op == OEq || t.op == OUlt || t.op == OUle) && t.a.op == OVar && t.b.isConst() {
		for x := uint64(0); x < n; x++ {
			if evalOp(t.op, 0, t.a.w, x, t.b.val, 0) != 0 {
				s[x>>6] |= 1 << (x & 63)
			}
		}
	} else if t.op == OBNot {
		a := tt.Truth(t.a)
		for x := uint64(0); x < n; x++ {
			if a[x>>6]&(1<<(x&63)) == 0 {
				s[x>>6] |= 1 << (x & 63)
			}
		}
	} else if (t.op == OBAnd || t.op == OBOr) && len(t.a.vars) == 1 && len(t.b.vars) == 1 {
		a, b := tt.Truth(t.a), tt.Truth(t.b)
		for i := range s {
			if t.op == OBAnd {
				s[i] = a[i] & b[i]
			} else {
				s[i] = a[i] | b[i]
			}
		}
	} else {
		memo := map[int]uint64{}
		for x := uint64(0); x < n; x++ {
			clear(memo)
			if tt.Eval(t, func(int32) uint64 { return x }, memo) != 0 {
				s[x>>6] |= 1 << (x & 63)
			}
		}
	}
	t.tt = &s
	return t.tt
}

func setCount(s *[4]uint64) int {
	return bits.OnesCount64(s[0]) + bits.OnesCount64(s[1]) + bits.OnesCount64(s[2]) + bits.OnesCount64(s[3])
}

func setMin(s *[4]uint64) uint64 {
	for i, x := range s {
		if x != 0 {
			return uint64(i*64 + bits.TrailingZeros64(x))
		}
	}
	return 0
}

// SMT-LIB printing with let-bound sharing.
func constSMT(v uint64, w uint8) string {
	if w == 0 {
		if v != 0 {
			return "true"
		}
		return "false"
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w/4), v&mask(w))
	}
	return fmt.Sprintf("(_ bv%d %d)", v&mask(w), w)
}

func varSMT(t *Term) string { return "v" + strconv.Itoa(int(t.val)) }

func sortSMT(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (t *Term) smt(sb *strings.Builder) {
	refs := map[*Term]int{}
	var order []*Term
	var count func(x *Term)
	count = func(x *Term) {
		if x.op == OConst || x.op == OVar {
			return
		}
		refs[x]++
		if refs[x] > 1 {
			return
		}
		for _, y := range []*Term{x.a, x.b, x.c} {
			if y != nil {
				count(y)
			}
		}
		order = append(order, x)
	}
	count(t)
	names := map[*Term]string{}
	var pr func(x *Term)
	pr = func(x *Term) {
		if x.op == OConst {
			sb.WriteString(constSMT(x.val, x.w))
			return
		}
		if x.op == OVar {
			sb.WriteString(varSMT(x))
			return
		}
		if n, ok := names[x]; ok {
			sb.WriteString(n)
			return
		}
		sb.WriteByte('(')
		switch x.op {
		case OZext:
			fmt.Fprintf(sb, "(_ zero_extend %d)", x.w-x.a.w)
		case OSext:
			fmt.Fprintf(sb, "(_ sign_extend %d)", x.w-x.a.w)
		case OTrunc:
			fmt.Fprintf(sb, "(_ extract %d 0)", x.w-1)
		default:
			sb.WriteString(opNames[x.op])
		}
		for _, y := range []*Term{x.a, x.b, x.c} {
			if y != nil {
				sb.WriteByte(' ')
				pr(y)
			}
		}
		sb.WriteByte(')')
	}
	closes := 0
	for _, x := range order {
		if refs[x] > 1 && x != t {
			n := fmt.Sprintf("t%d", x.id)
			fmt.Fprintf(sb, "(let ((%s ", n)
			pr(x)
			sb.WriteString(")) ")
			names[x] = n
			closes++
		}
	}
	pr(t)
	for ; closes > 0; closes-- {
		sb.WriteByte(')')
	}
}
