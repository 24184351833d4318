package main

import (
	"fmt"
	"go/types"
	"math"
	"reflect"
	"strings"
)

func (in *Interp) rtype(t types.Type) V {
	t = in.canon(t)
	p := in.rtp[t]
	if p == nil {
		p = &RType{t}
		in.rtp[t] = p
	}
	return V{r: &Iface{t: in.canon(in.eng.rtypePtr), v: V{r: p}}}
}

func rtypeOf(v V) types.Type {
	switch x := v.r.(type) {
	case *RType:
		return x.t
	case *Iface:
		return rtypeOf(x.v)
	}
	return nil
}

func mkRV(r *RVal) V { return V{r: &Agg{[]V{{r: r}, {}, {}}}} }

func (in *Interp) rv(v V) *RVal {
	a, ok := v.r.(*Agg)
	if !ok {
		if c, ok := v.r.(*V); ok { // pointer receiver
			return in.rv(*c)
		}
		in.unsupported("reflect.Value representation")
	}
	if a.f[0].r == nil {
		return nil
	}
	return a.f[0].r.(*RVal)
}

func (in *Interp) rvX(v V, what string) *RVal {
	r := in.rv(v)
	if r == nil {
		in.rtPanic("reflect: call of reflect.Value." + what + " on zero Value")
	}
	return r
}

func (r *RVal) get() V {
	if r.addr != nil {
		return copyVal(*r.addr)
	}
	return r.v
}

func reflKind(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func typeString(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	s = strings.ReplaceAll(s, "interface{", "interface {")
	s = strings.ReplaceAll(s, "interface {}", "interface {}")
	if s == "any" {
		return "interface {}"
	}
	return strings.ReplaceAll(s, "any", "interface {}")
}

func (in *Interp) ifaceOf(r *RVal) V {
	v := r.get()
	if in.kindOf(r.t).k == kIface {
		return v
	}
	return V{r: &Iface{t: in.canon(r.t), v: v}}
}

type mapIterState struct {
	m   *RVal
	pos int
}

func init() {
	for _, pk := range []string{"reflect", "internal/reflectlite"} {
		P := pk + "."
		M := "(*" + pk + ".rtype)."
		if pk == "internal/reflectlite" {
			M = "(internal/reflectlite.rtype)."
		}
		R := "(" + pk + ".Value)."
		reg(P+"TypeOf", func(in *Interp, a []V) V {
			if a[0].r == nil {
				return V{}
			}
			return in.rtype(a[0].r.(*Iface).t)
		})
		reg(P+"ValueOf", func(in *Interp, a []V) V {
			if a[0].r == nil {
				return V{r: &Agg{make([]V, 3)}}
			}
			i := a[0].r.(*Iface)
			return mkRV(&RVal{t: i.t, v: i.v})
		})
		reg(P+"Swapper", func(in *Interp, a []V) V {
			i := a[0].r.(*Iface)
			s := in.sliceOf(i.v)
			return V{r: &Closure{native: func(in *Interp, b []V) V {
				x, y := int(b[0].n), int(b[1].n)
				t := copyVal(s[x])
				storeCell(&s[x], copyVal(s[y]))
				storeCell(&s[y], t)
				return V{}
			}}}
		})
		// Type methods
		tm := func(name string, f func(in *Interp, t types.Type, a []V) V) {
			reg(M+name, func(in *Interp, a []V) V {
				t := rtypeOf(a[0])
				if t == nil {
					in.unsupported("reflect.Type representation in " + name)
				}
				return f(in, t, a[1:])
			})
		}
		tm("Name", func(in *Interp, t types.Type, a []V) V {
			switch n := t.(type) {
			case *types.Named:
				return strV(n.Obj().Name())
			case *types.Basic:
				return strV(n.Name())
			}
			return V{}
		})
		tm("PkgPath", func(in *Interp, t types.Type, a []V) V {
			if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
				return strV(n.Obj().Pkg().Path())
			}
			return V{}
		})
		tm("String", func(in *Interp, t types.Type, a []V) V { return strV(typeString(t)) })
		tm("Kind", func(in *Interp, t types.Type, a []V) V { return vint(int(reflKind(t))) })
		tm("Elem", func(in *Interp, t types.Type, a []V) V {
			if e, ok := t.Underlying().(interface{ Elem() types.Type }); ok {
				return in.rtype(e.Elem())
			}
			in.rtPanic("reflect: Elem of invalid type " + typeString(t))
			return V{}
		})
		tm("Key", func(in *Interp, t types.Type, a []V) V { return in.rtype(t.Underlying().(*types.Map).Key()) })
		tm("Comparable", func(in *Interp, t types.Type, a []V) V { return bv(types.Comparable(t)) })
		tm("Implements", func(in *Interp, t types.Type, a []V) V {
			return bv(in.implementsT(t, rtypeOf(a[0])))
		})
		tm("AssignableTo", func(in *Interp, t types.Type, a []V) V { return bv(types.AssignableTo(t, rtypeOf(a[0]))) })
		tm("ConvertibleTo", func(in *Interp, t types.Type, a []V) V { return bv(types.ConvertibleTo(t, rtypeOf(a[0]))) })
		tm("Len", func(in *Interp, t types.Type, a []V) V { return vint(int(t.Underlying().(*types.Array).Len())) })
		tm("Size", func(in *Interp, t types.Type, a []V) V { return vint(in.elemSize(t)) })
		tm("Bits", func(in *Interp, t types.Type, a []V) V { return vint(8 * in.elemSize(t)) })
		tm("NumField", func(in *Interp, t types.Type, a []V) V { return vint(t.Underlying().(*types.Struct).NumFields()) })
		tm("Field", func(in *Interp, t types.Type, a []V) V {
			st := t.Underlying().(*types.Struct)
			i := int(a[0].n)
			f := st.Field(i)
			pkg := ""
			if !f.Exported() {
				pkg = f.Pkg().Path()
			}
			return tuple(strV(f.Name()), strV(pkg), in.rtype(f.Type()), strV(st.Tag(i)), V{}, mkSlice([]V{vint(i)}), bv(f.Anonymous()))
		})
		tm("NumIn", func(in *Interp, t types.Type, a []V) V { return vint(t.Underlying().(*types.Signature).Params().Len()) })
		tm("NumOut", func(in *Interp, t types.Type, a []V) V {
			return vint(t.Underlying().(*types.Signature).Results().Len())
		})
		tm("In", func(in *Interp, t types.Type, a []V) V {
			return in.rtype(t.Underlying().(*types.Signature).Params().At(int(a[0].n)).Type())
		})
		tm("Out", func(in *Interp, t types.Type, a []V) V {
			return in.rtype(t.Underlying().(*types.Signature).Results().At(int(a[0].n)).Type())
		})
		tm("IsVariadic", func(in *Interp, t types.Type, a []V) V { return bv(t.Underlying().(*types.Signature).Variadic()) })
		tm("NumMethod", func(in *Interp, t types.Type, a []V) V {
			if it, ok := t.Underlying().(*types.Interface); ok {
				return vint(it.NumMethods())
			}
			in.eng.mu.Lock()
			defer in.eng.mu.Unlock()
			ms := in.eng.prog.MethodSets.MethodSet(t)
			n := 0
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Exported() {
					n++
				}
			}
			return vint(n)
		})

		// Value methods
		vm := func(name string, f func(in *Interp, r *RVal, a []V) V) {
			reg(R+name, func(in *Interp, a []V) V { return f(in, in.rvX(a[0], name), a[1:]) })
		}
		reg(R+"IsValid", func(in *Interp, a []V) V { return bv(in.rv(a[0]) != nil) })
		reg(R+"Kind", func(in *Interp, a []V) V {
			r := in.rv(a[0])
			if r == nil {
				return V{}
			}
			return vint(int(reflKind(r.t)))
		})
		vm("Type", func(in *Interp, r *RVal, a []V) V { return in.rtype(r.t) })
		vm("Interface", func(in *Interp, r *RVal, a []V) V { return in.ifaceOf(r) })
		vm("CanInterface", func(in *Interp, r *RVal, a []V) V { return bv(!r.ro) })
		vm("CanSet", func(in *Interp, r *RVal, a []V) V { return bv(r.addr != nil && !r.ro) })
		vm("CanAddr", func(in *Interp, r *RVal, a []V) V { return bv(r.addr != nil) })
		vm("Addr", func(in *Interp, r *RVal, a []V) V {
			return mkRV(&RVal{t: types.NewPointer(r.t), v: V{r: r.addr}, ro: r.ro})
		})
		vm("Elem", func(in *Interp, r *RVal, a []V) V {
			v := r.get()
			if v.r == nil {
				return V{r: &Agg{make([]V, 3)}}
			}
			switch u := r.t.Underlying().(type) {
			case *types.Pointer:
				c, ok := v.r.(*V)
				if !ok {
					in.unsupported("reflect Elem of special pointer")
				}
				return mkRV(&RVal{t: u.Elem(), addr: c, ro: r.ro})
			case *types.Interface:
				i := v.r.(*Iface)
				return mkRV(&RVal{t: i.t, v: i.v, ro: r.ro})
			}
			in.rtPanic("reflect: call of reflect.Value.Elem on " + typeString(r.t) + " Value")
			return V{}
		})
		vm("IsNil", func(in *Interp, r *RVal, a []V) V {
			switch in.kindOf(r.t).k {
			case kPtr, kSlice, kMap, kChan, kFunc, kIface, kUnsafe:
				return bv(r.get().r == nil)
			}
			in.rtPanic("reflect: call of reflect.Value.IsNil on " + typeString(r.t) + " Value")
			return V{}
		})
		vm("IsZero", func(in *Interp, r *RVal, a []V) V {
			switch in.kindOf(r.t).k {
			case kSlice, kFunc, kMap:
				return bv(r.get().r == nil)
			}
			return in.boolV(in.equal(r.t, r.get(), in.zero(r.t)))
		})
		vm("Bool", func(in *Interp, r *RVal, a []V) V { return r.get() })
		vm("Int", func(in *Interp, r *RVal, a []V) V {
			return in.convInt(r.get(), kinfo{kInt, 64, true}, in.kindOf(r.t))
		})
		vm("Uint", func(in *Interp, r *RVal, a []V) V {
			return in.convInt(r.get(), kinfo{kInt, 64, false}, in.kindOf(r.t))
		})
		vm("Float", func(in *Interp, r *RVal, a []V) V { return r.get() })
		vm("String", func(in *Interp, r *RVal, a []V) V {
			if in.kindOf(r.t).k == kString {
				return r.get()
			}
			return strV("<" + typeString(r.t) + " Value>")
		})
		vm("Len", func(in *Interp, r *RVal, a []V) V {
			v := r.get()
			switch x := v.r.(type) {
			case *Slice:
				return vint(len(x.a))
			case *Map:
				return vint(x.live)
			case *Agg:
				return vint(len(x.f))
			}
			if in.kindOf(r.t).k == kString {
				return vint(strLen(v))
			}
			return V{}
		})
		vm("Index", func(in *Interp, r *RVal, a []V) V {
			i := int(a[0].n)
			v := r.get()
			switch u := r.t.Underlying().(type) {
			case *types.Slice:
				s := in.sliceOf(v)
				if i < 0 || i >= len(s) {
					in.rtPanic("reflect: slice index out of range")
				}
				return mkRV(&RVal{t: u.Elem(), addr: &s[i], ro: r.ro})
			case *types.Array:
				if r.addr != nil {
					return mkRV(&RVal{t: u.Elem(), addr: &r.addr.r.(*Agg).f[i], ro: r.ro})
				}
				return mkRV(&RVal{t: u.Elem(), v: v.r.(*Agg).f[i], ro: r.ro})
			}
			return mkRV(&RVal{t: types.Typ[types.Uint8], v: strByte(v, i), ro: r.ro})
		})
		vm("NumField", func(in *Interp, r *RVal, a []V) V { return vint(r.t.Underlying().(*types.Struct).NumFields()) })
		field := func(in *Interp, r *RVal, i int) V {
			f := r.t.Underlying().(*types.Struct).Field(i)
			n := &RVal{t: f.Type(), ro: r.ro || !f.Exported()}
			if r.addr != nil {
				n.addr = &r.addr.r.(*Agg).f[i]
			} else {
				n.v = r.v.r.(*Agg).f[i]
			}
			return mkRV(n)
		}
		vm("Field", func(in *Interp, r *RVal, a []V) V { return field(in, r, int(a[0].n)) })
		vm("FieldByName", func(in *Interp, r *RVal, a []V) V {
			name := in.needConc(a[0], "FieldByName")
			st := r.t.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == name {
					return field(in, r, i)
				}
			}
			return V{r: &Agg{make([]V, 3)}}
		})
		vm("NumMethod", func(in *Interp, r *RVal, a []V) V {
			return intrinsics[M+"NumMethod"](in, []V{in.rtype(r.t).r.(*Iface).v})
		})
		set := func(in *Interp, r *RVal, v V) {
			if r.addr == nil {
				in.rtPanic("reflect: reflect.Value.Set using unaddressable value")
			}
			storeCell(r.addr, v)
		}
		vm("Set", func(in *Interp, r *RVal, a []V) V {
			x := in.rvX(a[0], "Set")
			v := x.get()
			if in.kindOf(r.t).k == kIface && in.kindOf(x.t).k != kIface {
				v = in.ifaceOf(x)
			} else if !types.AssignableTo(x.t, r.t) {
				in.rtPanic("reflect.Set: value of type " + typeString(x.t) + " is not assignable to type " + typeString(r.t))
			}
			set(in, r, v)
			return V{}
		})
		vm("SetInt", func(in *Interp, r *RVal, a []V) V {
			set(in, r, in.convInt(a[0], in.kindOf(r.t), kinfo{kInt, 64, true}))
			return V{}
		})
		vm("SetUint", func(in *Interp, r *RVal, a []V) V {
			set(in, r, in.convInt(a[0], in.kindOf(r.t), kinfo{kInt, 64, false}))
			return V{}
		})
		vm("SetFloat", func(in *Interp, r *RVal, a []V) V {
			f := math.Float64frombits(a[0].n)
			if in.kindOf(r.t).w == 32 {
				f = float64(float32(f))
			}
			set(in, r, V{n: math.Float64bits(f)})
			return V{}
		})
		vm("SetString", func(in *Interp, r *RVal, a []V) V { set(in, r, a[0]); return V{} })
		vm("SetBool", func(in *Interp, r *RVal, a []V) V { set(in, r, a[0]); return V{} })
		vm("Bytes", func(in *Interp, r *RVal, a []V) V { return r.get() })
		vm("Pointer", func(in *Interp, r *RVal, a []V) V { return V{n: 0xc000010000} })
		vm("UnsafePointer", func(in *Interp, r *RVal, a []V) V { return V{n: 0xc000010000, r: r.get().r} })
		vm("MapRange", func(in *Interp, r *RVal, a []V) V {
			return V{r: &V{r: &Agg{[]V{{r: &mapIterState{r, -1}}}}}}
		})
		vm("MapKeys", func(in *Interp, r *RVal, a []V) V {
			var out []V
			if m, ok := r.get().r.(*Map); ok {
				kt := r.t.Underlying().(*types.Map).Key()
				for _, e := range m.ents {
					if !e.dead {
						out = append(out, mkRV(&RVal{t: kt, v: e.k}))
					}
				}
			}
			return mkSlice(out)
		})
		vm("MapIndex", func(in *Interp, r *RVal, a []V) V {
			mt := r.t.Underlying().(*types.Map)
			m, _ := r.get().r.(*Map)
			i := in.mapFind(m, mt.Key(), in.rv(a[0]).get())
			if i < 0 {
				return V{r: &Agg{make([]V, 3)}}
			}
			return mkRV(&RVal{t: mt.Elem(), v: m.ents[i].v})
		})
		vm("SetMapIndex", func(in *Interp, r *RVal, a []V) V {
			mt := r.t.Underlying().(*types.Map)
			m := r.get().r.(*Map)
			in.mapSet(m, mt.Key(), in.rv(a[0]).get(), in.rv(a[1]).get())
			return V{}
		})
		vm("Slice", func(in *Interp, r *RVal, a []V) V {
			lo, hi := int(a[0].n), int(a[1].n)
			if in.kindOf(r.t).k == kString {
				return mkRV(&RVal{t: r.t, v: strSlice(r.get(), lo, hi)})
			}
			return mkRV(&RVal{t: r.t, v: mkSlice(in.sliceOf(r.get())[lo:hi])})
		})
		vm("Comparable", func(in *Interp, r *RVal, a []V) V { return bv(types.Comparable(r.t)) })
		vm("Convert", func(in *Interp, r *RVal, a []V) V {
			t := rtypeOf(a[0])
			if in.kindOf(t).k == kIface {
				return mkRV(&RVal{t: t, v: in.ifaceOf(r)})
			}
			return mkRV(&RVal{t: t, v: in.convert(t, r.t, in.kindOf(t), in.kindOf(r.t), r.get())})
		})
		vm("MethodByName", func(in *Interp, r *RVal, a []V) V {
			name := in.needConc(a[0], "MethodByName")
			t := in.canon(r.t)
			recv := r.get()
			if in.kindOf(t).k == kIface && recv.r != nil {
				i := recv.r.(*Iface)
				t, recv = i.t, i.v
			}
			f := in.method(t, nil, name)
			if f == nil {
				return V{r: &Agg{make([]V, 3)}}
			}
			in.eng.mu.Lock()
			sel := in.eng.prog.MethodSets.MethodSet(t).Lookup(nil, name)
			in.eng.mu.Unlock()
			sg := sel.Type().(*types.Signature)
			sig := types.NewSignatureType(nil, nil, nil, sg.Params(), sg.Results(), sg.Variadic())
			return mkRV(&RVal{t: sig, sig: sig, v: V{r: &Closure{native: func(in *Interp, b []V) V {
				return in.call(f, append([]V{recv}, b...), nil, nil)
			}}}})
		})
		vm("Call", func(in *Interp, r *RVal, a []V) V {
			sig := r.t.Underlying().(*types.Signature)
			xs := in.sliceOf(a[0])
			var args []V
			if sig.Variadic() {
				in.unsupported("reflect Call variadic")
			}
			if len(xs) != sig.Params().Len() {
				in.rtPanic("reflect: Call with wrong number of input arguments")
			}
			for i, x := range xs {
				rx := in.rvX(x, "Call")
				pt := sig.Params().At(i).Type()
				if in.kindOf(pt).k == kIface {
					args = append(args, in.ifaceOf(rx))
				} else {
					args = append(args, rx.get())
				}
			}
			res := in.callV(r.get(), args)
			var out []V
			switch n := sig.Results().Len(); n {
			case 0:
			case 1:
				out = append(out, mkRV(&RVal{t: sig.Results().At(0).Type(), v: res}))
			default:
				for i := 0; i < n; i++ {
					out = append(out, mkRV(&RVal{t: sig.Results().At(i).Type(), v: res.r.(*Agg).f[i]}))
				}
			}
			return mkSlice(out)
		})
		for _, n := range []string{"CanInt", "CanUint", "CanFloat"} {
			n := n
			vm(n, func(in *Interp, r *RVal, a []V) V {
				k := in.kindOf(r.t)
				switch n {
				case "CanInt":
					return bv(k.k == kInt && k.signed)
				case "CanUint":
					return bv(k.k == kInt && !k.signed)
				}
				return bv(k.k == kFloat)
			})
		}
	}
	st := func(in *Interp, a V) *mapIterState { return cell(a).r.(*Agg).f[0].r.(*mapIterState) }
	reg("(*reflect.MapIter).Next", func(in *Interp, a []V) V {
		s := st(in, a[0])
		m, _ := s.m.get().r.(*Map)
		if m == nil {
			return bv(false)
		}
		for s.pos++; s.pos < len(m.ents); s.pos++ {
			if !m.ents[s.pos].dead {
				return bv(true)
			}
		}
		return bv(false)
	})
	reg("(*reflect.MapIter).Key", func(in *Interp, a []V) V {
		s := st(in, a[0])
		return mkRV(&RVal{t: s.m.t.Underlying().(*types.Map).Key(), v: s.m.get().r.(*Map).ents[s.pos].k})
	})
	reg("(*reflect.MapIter).Value", func(in *Interp, a []V) V {
		s := st(in, a[0])
		return mkRV(&RVal{t: s.m.t.Underlying().(*types.Map).Elem(), v: s.m.get().r.(*Map).ents[s.pos].v})
	})
	reg("reflect.Zero", func(in *Interp, a []V) V { t := rtypeOf(a[0]); return mkRV(&RVal{t: t, v: in.zero(t)}) })
	reg("reflect.New", func(in *Interp, a []V) V {
		t := rtypeOf(a[0])
		c := new(V)
		*c = in.zero(t)
		return mkRV(&RVal{t: types.NewPointer(t), v: V{r: c}})
	})
	reg("reflect.Indirect", func(in *Interp, a []V) V {
		r := in.rv(a[0])
		if r == nil || in.kindOf(r.t).k != kPtr {
			return a[0]
		}
		return intrinsics["(reflect.Value).Elem"](in, a)
	})
	reg("reflect.PointerTo reflect.PtrTo", func(in *Interp, a []V) V { return in.rtype(types.NewPointer(rtypeOf(a[0]))) })
	reg("reflect.MapOf", func(in *Interp, a []V) V { return in.rtype(types.NewMap(rtypeOf(a[0]), rtypeOf(a[1]))) })
	reg("reflect.SliceOf", func(in *Interp, a []V) V { return in.rtype(types.NewSlice(rtypeOf(a[0]))) })
	reg("reflect.MakeSlice", func(in *Interp, a []V) V {
		t := rtypeOf(a[0])
		s := make([]V, int(a[2].n))
		et := t.Underlying().(*types.Slice).Elem()
		for i := range s {
			s[i] = in.zero(et)
		}
		return mkRV(&RVal{t: t, v: mkSlice(s[:a[1].n])})
	})
	reg("reflect.MakeMap", func(in *Interp, a []V) V { return mkRV(&RVal{t: rtypeOf(a[0]), v: V{r: newMap()}}) })
	reg("reflect.Append", func(in *Interp, a []V) V {
		r := in.rv(a[0])
		et := r.t.Underlying().(*types.Slice).Elem()
		var add []V
		for _, x := range in.sliceOf(a[1]) {
			if in.kindOf(et).k == kIface {
				add = append(add, in.ifaceOf(in.rv(x)))
			} else {
				add = append(add, in.rv(x).get())
			}
		}
		return mkRV(&RVal{t: r.t, v: in.appendVals(et, r.get(), add)})
	})
	reg("reflect.DeepEqual", func(in *Interp, a []V) V {
		if a[0].r == nil || a[1].r == nil {
			return bv(a[0].r == nil && a[1].r == nil)
		}
		x, y := a[0].r.(*Iface), a[1].r.(*Iface)
		if x.t != y.t {
			return bv(false)
		}
		return in.boolV(in.deepEq(x.t, x.v, y.v))
	})
	_ = fmt.Sprint
}

func (in *Interp) implementsT(t, it types.Type) bool {
	u, ok := it.Underlying().(*types.Interface)
	if !ok {
		in.rtPanic("reflect: non-interface type passed to Type.Implements")
	}
	if in.kindOf(t).k == kIface {
		return types.Implements(t, u)
	}
	return in.implements(in.canon(t), u)
}

func (in *Interp) deepEq(t types.Type, a, b V) *Term {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if (a.r == nil) != (b.r == nil) {
			return in.tt.False
		}
		x, y := in.sliceOf(a), in.sliceOf(b)
		if len(x) != len(y) {
			return in.tt.False
		}
		r := in.tt.True
		for i := range x {
			r = in.tt.And(r, in.deepEq(u.Elem(), x[i], y[i]))
		}
		return r
	case *types.Array:
		x, y := a.r.(*Agg).f, b.r.(*Agg).f
		r := in.tt.True
		for i := range x {
			r = in.tt.And(r, in.deepEq(u.Elem(), x[i], y[i]))
		}
		return r
	case *types.Struct:
		x, y := a.r.(*Agg).f, b.r.(*Agg).f
		r := in.tt.True
		for i := range x {
			r = in.tt.And(r, in.deepEq(u.Field(i).Type(), x[i], y[i]))
		}
		return r
	case *types.Pointer:
		if a.r == nil || b.r == nil || a.r == b.r {
			return in.tt.Bool(samePtr(a.r, b.r))
		}
		return in.deepEq(u.Elem(), *cell(a), *cell(b))
	case *types.Interface:
		if a.r == nil || b.r == nil {
			return in.tt.Bool(a.r == nil && b.r == nil)
		}
		x, y := a.r.(*Iface), b.r.(*Iface)
		if x.t != y.t {
			return in.tt.False
		}
		return in.deepEq(x.t, x.v, y.v)
	case *types.Map:
		if (a.r == nil) != (b.r == nil) {
			return in.tt.False
		}
		if a.r == nil {
			return in.tt.True
		}
		x, y := a.r.(*Map), b.r.(*Map)
		if x.live != y.live {
			return in.tt.False
		}
		r := in.tt.True
		for _, e := range x.ents {
			if e.dead {
				continue
			}
			j := in.mapFind(y, u.Key(), e.k)
			if j < 0 {
				return in.tt.False
			}
			r = in.tt.And(r, in.deepEq(u.Elem(), e.v, y.ents[j].v))
		}
		return r
	case *types.Signature:
		return in.tt.Bool(a.r == nil && b.r == nil)
	}
	return in.equal(t, a, b)
}
