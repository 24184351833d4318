package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type opc uint8

const (
	iNop opc = iota
	iAlloc
	iBin
	iUn
	iCall
	iChangeIface
	iMove
	iConvert
	iDefer
	iExtract
	iField
	iFieldAddr
	iGo
	iIf
	iIndex
	iIndexAddr
	iJump
	iLookup
	iMakeClosure
	iMakeIface
	iMakeMap
	iMakeSlice
	iMapUpdate
	iNext
	iPanic
	iRange
	iReturn
	iRunDefers
	iSlice
	iSliceToArr
	iStore
	iTypeAssert
	iDeref
	iNot
	iNeg
	iCompl
	iUnsup
	iMakeChan
	iRecv
	iSelect
)

type Inst struct {
	op      opc
	tok     token.Token
	flag    bool
	dst     int
	a, b, c int
	d       int
	args    []int
	t, t2   types.Type
	k, k2   kinfo
	call    *callInfo
	src     ssa.Instruction
}

type callInfo struct {
	static  *Fn
	builtin string
	invoke  *types.Func
	bargs   []types.Type
	common  *ssa.CallCommon
	icT     types.Type // inline cache
	icF     *Fn
}

type phiMove struct{ dst, src int }

type Block struct {
	ins  []Inst
	phis [][]phiMove
	succ [2]int
	pred [2]int // predecessor index in the successor
}

type Fn struct {
	f        *ssa.Function
	name     string
	compiled bool
	nslots   int
	nparams  int
	nfree    int
	consts   []V
	blocks   []Block
	intr     func(in *Interp, args []V) V
	hasDefer bool
	recover  int
	inMod    bool
	calls    int
	steps    int64
}

const noOpnd = 1 << 30

func (in *Interp) fnOf(f *ssa.Function) *Fn {
	if x, ok := in.fns[f]; ok {
		return x
	}
	name := f.String()
	if o := f.Origin(); o != nil {
		name = o.String()
	}
	x := &Fn{f: f, name: name}
	in.fns[f] = x
	if f.Synthetic == "package initializer" && !in.eng.initable(f.Pkg) {
		x.intr = nop
		x.compiled = true
	} else if h, ok := intrinsicsT[name]; ok {
		x.intr = h(f.TypeArgs())
		x.compiled = true
	} else if h, ok := fastConc[name]; ok {
		real := &Fn{f: f, name: name}
		x.compiled = true
		x.intr = func(in *Interp, args []V) V {
			if a, ok := concStr(args[0]); ok {
				if b, ok := concStr(args[1]); ok {
					return h(a, b)
				}
			}
			return in.call(real, args, nil, nil)
		}
	} else if h, ok := intrinsics[name]; ok {
		x.intr = h
		x.compiled = true
	} else if g, ok := in.eng.models[name]; ok && g != f {
		m := in.fnOf(g)
		in.compile(m)
		*x = *m
		x.name = name
	}
	x.inMod = in.eng.inModule(f)
	return x
}

func (in *Interp) compile(fn *Fn) {
	if fn.compiled {
		return
	}
	f := fn.f
	in.eng.ensureBuilt(f)
	fn.compiled = true
	if len(f.Blocks) == 0 {
		name := fn.name
		fn.intr = func(in *Interp, args []V) V {
			in.unsupported("no body: " + name)
			return V{}
		}
		return
	}
	slots := map[ssa.Value]int{}
	n := 0
	for _, p := range f.Params {
		slots[p] = n
		n++
	}
	fn.nparams = n
	for _, p := range f.FreeVars {
		slots[p] = n
		n++
	}
	fn.nfree = len(f.FreeVars)
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				slots[v] = n
				n++
			}
		}
	}
	fn.nslots = n
	constIdx := map[ssa.Value]int{}
	opnd := func(v ssa.Value) int {
		if v == nil {
			return noOpnd
		}
		if s, ok := slots[v]; ok {
			return s
		}
		if i, ok := constIdx[v]; ok {
			return -1 - i
		}
		var cv V
		switch x := v.(type) {
		case *ssa.Const:
			cv = in.constVal(x)
		case *ssa.Global:
			cv = V{r: in.global(x)}
		case *ssa.Function:
			cv = V{r: &Closure{fn: in.fnOf(x)}}
		case *ssa.Builtin:
			cv = V{r: badConst("builtin")}
		default:
			panic(fmt.Sprintf("operand %T", v))
		}
		fn.consts = append(fn.consts, cv)
		constIdx[v] = len(fn.consts) - 1
		return -1 - (len(fn.consts) - 1)
	}
	mkcall := func(cc *ssa.CallCommon, ins *Inst) {
		ci := &callInfo{common: cc}
		ins.call = ci
		for _, a := range cc.Args {
			ins.args = append(ins.args, opnd(a))
		}
		if cc.IsInvoke() {
			ci.invoke = cc.Method
			ins.a = opnd(cc.Value)
			return
		}
		switch v := cc.Value.(type) {
		case *ssa.Builtin:
			ci.builtin = v.Name()
			for _, a := range cc.Args {
				ci.bargs = append(ci.bargs, a.Type())
			}
		case *ssa.Function:
			ci.static = in.fnOf(v)
		default:
			ins.a = opnd(cc.Value)
		}
	}
	fn.blocks = make([]Block, len(f.Blocks))
	fn.recover = -1
	if f.Recover != nil {
		fn.recover = f.Recover.Index
	}
	for bi, b := range f.Blocks {
		blk := &fn.blocks[bi]
		for i, s := range b.Succs {
			blk.succ[i] = s.Index
			// which predecessor edge? (a block may appear twice as predecessor)
			cnt := 0
			for j := 0; j < i; j++ {
				if b.Succs[j] == s {
					cnt++
				}
			}
			for pi, p := range s.Preds {
				if p == b {
					if cnt == 0 {
						blk.pred[i] = pi
						break
					}
					cnt--
				}
			}
		}
		blk.phis = make([][]phiMove, len(b.Preds))
		for _, i := range b.Instrs {
			if phi, ok := i.(*ssa.Phi); ok {
				for pi, e := range phi.Edges {
					blk.phis[pi] = append(blk.phis[pi], phiMove{slots[phi], opnd(e)})
				}
				continue
			}
			var x Inst
			x.src = i
			if v, ok := i.(ssa.Value); ok {
				x.dst = slots[v]
				x.t = v.Type()
				x.k = in.kindOf(v.Type())
			}
			switch i := i.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Alloc:
				x.op = iAlloc
				x.t = i.Type().Underlying().(*types.Pointer).Elem()
			case *ssa.BinOp:
				x.op = iBin
				x.tok = i.Op
				x.a, x.b = opnd(i.X), opnd(i.Y)
				x.t2 = i.X.Type()
				x.k2 = in.kindOf(i.X.Type())
				if x.k2.k == kOther || i.X.Type() == types.Typ[types.UntypedNil] {
					x.t2 = i.Y.Type()
					x.k2 = in.kindOf(i.Y.Type())
				}
				if i.Op == token.SHL || i.Op == token.SHR {
					x.c = int(in.kindOf(i.Y.Type()).w)
					x.flag = in.kindOf(i.Y.Type()).signed
				}
			case *ssa.UnOp:
				x.a = opnd(i.X)
				x.k2 = in.kindOf(i.X.Type())
				switch i.Op {
				case token.MUL:
					x.op = iDeref
				case token.NOT:
					x.op = iNot
				case token.SUB:
					x.op = iNeg
				case token.XOR:
					x.op = iCompl
				case token.ARROW:
					x.op = iRecv
					x.t2 = i.X.Type().Underlying().(*types.Chan).Elem()
					x.k.w = 0
					if i.CommaOk {
						x.k.w = 1
					}
				default:
					x.op = iUnsup
				}
			case *ssa.Call:
				x.op = iCall
				mkcall(&i.Call, &x)
			case *ssa.ChangeInterface:
				x.op = iMove
				x.a = opnd(i.X)
			case *ssa.ChangeType:
				x.op = iMove
				x.a = opnd(i.X)
			case *ssa.Convert:
				x.op = iConvert
				x.a = opnd(i.X)
				x.t2 = i.X.Type()
				x.k2 = in.kindOf(i.X.Type())
			case *ssa.MultiConvert:
				x.op = iConvert
				x.a = opnd(i.X)
				x.t2 = i.X.Type()
				x.k2 = in.kindOf(i.X.Type())
			case *ssa.Defer:
				x.op = iDefer
				fn.hasDefer = true
				mkcall(&i.Call, &x)
			case *ssa.Extract:
				x.op = iExtract
				x.a = opnd(i.Tuple)
				x.b = i.Index
			case *ssa.Field:
				x.op = iField
				x.a = opnd(i.X)
				x.b = i.Field
			case *ssa.FieldAddr:
				x.op = iFieldAddr
				x.a = opnd(i.X)
				x.b = i.Field
			case *ssa.Go:
				x.op = iGo
				mkcall(&i.Call, &x)
			case *ssa.If:
				x.op = iIf
				x.a = opnd(i.Cond)
			case *ssa.Index:
				x.op = iIndex
				x.a, x.b = opnd(i.X), opnd(i.Index)
				x.k2 = in.kindOf(i.X.Type())
				x.c = int(in.kindOf(i.Index.Type()).w)
				x.flag = in.kindOf(i.Index.Type()).signed
			case *ssa.IndexAddr:
				x.op = iIndexAddr
				x.a, x.b = opnd(i.X), opnd(i.Index)
				x.k2 = in.kindOf(i.X.Type())
				x.c = int(in.kindOf(i.Index.Type()).w)
				x.flag = in.kindOf(i.Index.Type()).signed
				x.k = in.kindOf(i.Type().Underlying().(*types.Pointer).Elem())
			case *ssa.Jump:
				x.op = iJump
			case *ssa.Lookup:
				x.op = iLookup
				x.a, x.b = opnd(i.X), opnd(i.Index)
				x.flag = i.CommaOk
				x.t2 = i.X.Type()
				x.k2 = in.kindOf(i.X.Type())
			case *ssa.Select:
				x.op = iSelect
				x.t2 = i.Type()
				for _, st := range i.States {
					if i.Blocking || st.Dir != types.RecvOnly {
						x.op = iUnsup
					}
					x.args = append(x.args, opnd(st.Chan))
				}
			case *ssa.MakeClosure:
				x.op = iMakeClosure
				x.call = &callInfo{static: in.fnOf(i.Fn.(*ssa.Function))}
				for _, a := range i.Bindings {
					x.args = append(x.args, opnd(a))
				}
			case *ssa.MakeInterface:
				x.op = iMakeIface
				x.a = opnd(i.X)
				x.t2 = in.canon(i.X.Type())
			case *ssa.MakeMap:
				x.op = iMakeMap
			case *ssa.MakeSlice:
				x.op = iMakeSlice
				x.a, x.b = opnd(i.Len), opnd(i.Cap)
				x.t2 = i.Type().Underlying().(*types.Slice).Elem()
			case *ssa.MakeChan:
				x.op = iMakeChan
			case *ssa.MapUpdate:
				x.op = iMapUpdate
				x.a, x.b, x.c = opnd(i.Map), opnd(i.Key), opnd(i.Value)
				x.t2 = i.Map.Type()
			case *ssa.Next:
				x.op = iNext
				x.a = opnd(i.Iter)
				x.flag = i.IsString
			case *ssa.Panic:
				x.op = iPanic
				x.a = opnd(i.X)
			case *ssa.Range:
				x.op = iRange
				x.a = opnd(i.X)
				x.t2 = i.X.Type()
				x.k2 = in.kindOf(i.X.Type())
			case *ssa.Return:
				x.op = iReturn
				for _, a := range i.Results {
					x.args = append(x.args, opnd(a))
				}
			case *ssa.RunDefers:
				x.op = iRunDefers
			case *ssa.Slice:
				x.op = iSlice
				x.a = opnd(i.X)
				x.b, x.c = opnd(i.Low), opnd(i.High)
				x.d = opnd(i.Max)
				x.k2 = in.kindOf(i.X.Type())
			case *ssa.SliceToArrayPointer:
				x.op = iSliceToArr
				x.a = opnd(i.X)
				x.b = int(i.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			case *ssa.Store:
				x.op = iStore
				x.a, x.b = opnd(i.Addr), opnd(i.Val)
				x.k = in.kindOf(i.Val.Type())
			case *ssa.TypeAssert:
				x.op = iTypeAssert
				x.a = opnd(i.X)
				x.t2 = in.canon(i.AssertedType)
				x.k2 = in.kindOf(i.AssertedType)
				x.flag = i.CommaOk
			default:
				x.op = iUnsup
			}
			blk.ins = append(blk.ins, x)
		}
	}
}
