package main

import (
	"fmt"
	"go/types"
	"unsafe"
)

// Go's growslice: size classes of the runtime allocator (go1.2x, 64-bit).
var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func growCap(oldCap, newLen, esz int) int {
	if esz == 0 {
		return newLen
	}
	nc := oldCap
	dbl := nc + nc
	if newLen > dbl {
		nc = newLen
	} else if oldCap < 256 {
		nc = dbl
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	sz := nc * esz
	if sz <= 32768 {
		for _, c := range sizeClasses {
			if c >= sz {
				sz = c
				break
			}
		}
	} else {
		sz = (sz + 8191) &^ 8191
	}
	return sz / esz
}

var stdSizes = types.SizesFor("gc", "amd64")

func (in *Interp) elemSize(t types.Type) int {
	return int(stdSizes.Sizeof(t))
}

func (in *Interp) appendVals(et types.Type, s V, add []V) V {
	var a []V
	if s.r != nil {
		a = s.r.(*Slice).a
	}
	if len(add) == 0 {
		return s
	}
	n := len(a) + len(add)
	k := in.kindOf(et).k
	agg := k == kStruct || k == kArray
	if n <= cap(a) {
		b := a[:n]
		if agg {
			for i, v := range add {
				storeCell(&b[len(a)+i], v)
			}
		} else {
			copy(b[len(a):], add)
		}
		return V{r: &Slice{b}}
	}
	c := growCap(cap(a), n, in.elemSize(et))
	if c < n {
		c = n
	}
	b := make([]V, c)
	if agg {
		for i, v := range a {
			b[i] = copyVal(v)
		}
		for i, v := range add {
			b[len(a)+i] = copyVal(v)
		}
		for i := n; i < c; i++ {
			b[i] = in.zero(et)
		}
	} else {
		copy(b, a)
		copy(b[len(a):], add)
	}
	return V{r: &Slice{b[:n]}}
}

func (in *Interp) builtin(fr *Frame, x *Inst, args []V) V {
	ci := x.call
	switch ci.builtin {
	case "len", "cap":
		v := args[0]
		switch c := v.r.(type) {
		case nil:
			if p, ok := ci.bargs[0].Underlying().(*types.Pointer); ok {
				return V{n: uint64(p.Elem().Underlying().(*types.Array).Len())}
			}
			return V{}
		case string:
			return V{n: uint64(len(c))}
		case *SymStr:
			return V{n: uint64(len(c.b))}
		case *Slice:
			if ci.builtin == "cap" {
				return V{n: uint64(cap(c.a))}
			}
			return V{n: uint64(len(c.a))}
		case *Map:
			return V{n: uint64(c.live)}
		case *Agg:
			return V{n: uint64(len(c.f))}
		case *V:
			return V{n: uint64(len(c.r.(*Agg).f))}
		}
	case "append":
		st, ok := ci.bargs[0].Underlying().(*types.Slice)
		if !ok {
			in.unsupported("append on type parameter")
		}
		var add []V
		if in.kindOf(ci.bargs[1]).k == kString {
			add = strBytes(args[1])
		} else if args[1].r != nil {
			add = args[1].r.(*Slice).a
		}
		if len(add) == 0 {
			return args[0]
		}
		return in.appendVals(st.Elem(), args[0], append([]V(nil), add...))
	case "copy":
		var dst, src []V
		if args[0].r != nil {
			dst = args[0].r.(*Slice).a
		}
		if in.kindOf(ci.bargs[1]).k == kString {
			src = strBytes(args[1])
		} else if args[1].r != nil {
			src = args[1].r.(*Slice).a
		}
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		if n > 0 {
			if _, agg := src[0].r.(*Agg); agg {
				tmp := make([]V, n)
				for i := range tmp {
					tmp[i] = copyVal(src[i])
				}
				for i := range tmp {
					storeCell(&dst[i], tmp[i])
				}
			} else {
				copy(dst, src)
			}
		}
		return V{n: uint64(n)}
	case "delete":
		if args[0].r != nil {
			in.mapDelete(args[0].r.(*Map), ci.bargs[0].Underlying().(*types.Map).Key(), args[1])
		}
		return V{}
	case "clear":
		switch c := args[0].r.(type) {
		case *Map:
			*c = *newMap()
		case *Slice:
			et := ci.bargs[0].Underlying().(*types.Slice).Elem()
			for i := range c.a {
				storeCell(&c.a[i], in.zero(et))
			}
		}
		return V{}
	case "print", "println":
		return V{}
	case "recover":
		if d := fr.deferOf; d != nil && d.panicking != nil && !d.recovered {
			d.recovered = true
			return d.panicking.v
		}
		return V{}
	case "ssa:wrapnilchk":
		if args[0].r == nil {
			in.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "min", "max":
		k := in.kindOf(ci.bargs[0])
		r := args[0]
		for _, a := range args[1:] {
			var less bool
			switch {
			case k.k == kInt:
				op := OUlt
				if k.signed {
					op = OSlt
				}
				if ci.builtin == "min" {
					less = in.branch(in.tt.App(op, 0, in.term(a, k.w), in.term(r, k.w), nil))
				} else {
					less = in.branch(in.tt.App(op, 0, in.term(r, k.w), in.term(a, k.w), nil))
				}
			case k.k == kString:
				if ci.builtin == "min" {
					less = in.branch(in.strLess(a, r, false))
				} else {
					less = in.branch(in.strLess(r, a, false))
				}
			default:
				in.unsupported("min/max of this kind")
			}
			if less {
				r = a
			}
		}
		return r
	case "SliceData", "StringData":
		if args[0].r == nil {
			return V{}
		}
		if s, ok := args[0].r.(*Slice); ok {
			return V{r: &SliceData{s: s}}
		}
		return V{r: &SliceData{str: args[0]}}
	case "String":
		n := int(in.concInt(args[1], 64, true))
		if n == 0 {
			return V{}
		}
		switch d := args[0].r.(type) {
		case *SliceData:
			if d.s != nil {
				return mkStr(append([]V(nil), d.s.a[:n]...))
			}
			return strSlice(d.str, 0, n)
		case *V:
			// the first of n consecutive bytes, as in unsafe.String(&b[0], len(b))
			return mkStr(append([]V(nil), unsafe.Slice(d, n)...))
		}
		in.unsupported("unsafe.String")
	case "Slice":
		n := int(in.concInt(args[1], 64, true))
		if args[0].r == nil {
			return V{}
		}
		if d, ok := args[0].r.(*SliceData); ok {
			if d.s != nil {
				return V{r: &Slice{d.s.a[:n:n]}}
			}
			return V{r: &Slice{strBytes(d.str)[:n:n]}}
		}
		in.unsupported("unsafe.Slice")
	case "Sizeof":
		return vint(in.elemSize(ci.bargs[0]))
	case "close":
		if ch, ok := args[0].r.(*int); ok {
			*ch = 1
		}
		return V{}
	}
	in.unsupported(fmt.Sprintf("builtin %s on %T", ci.builtin, args[0].r))
	return V{}
}
