package main

import (
	"fmt"
	"go/types"
	"math"
	"path"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func sortStrings(s []string) { sort.Strings(s) }

type intrinsic = func(in *Interp, args []V) V

var intrinsics = map[string]intrinsic{}

func reg(names string, f intrinsic) {
	for _, n := range strings.Fields(names) {
		intrinsics[n] = f
	}
}

func nop(in *Interp, args []V) V   { return V{} }
func ident(in *Interp, args []V) V { return args[0] }

func tuple(v ...V) V { return V{r: &Agg{v}} }

func (in *Interp) needConc(v V, what string) string {
	s, ok := concStr(v)
	if !ok {
		in.unsupported("symbolic string in " + what)
	}
	return s
}

func cell(v V) *V { return v.r.(*V) }

func (in *Interp) sliceOf(v V) []V {
	if v.r == nil {
		return nil
	}
	return v.r.(*Slice).a
}

func mkSlice(a []V) V { return V{r: &Slice{a}} }

func (in *Interp) indexByte(b []V, c V) int {
	for i := range b {
		if in.branch(in.tt.Eq(in.term(b[i], 8), in.term(V{n: c.n & 0xff, r: c.r}, 8))) {
			return i
		}
	}
	return -1
}

func (in *Interp) lastIndexByte(b []V, c V) int {
	for i := len(b) - 1; i >= 0; i-- {
		if in.branch(in.tt.Eq(in.term(b[i], 8), in.term(V{n: c.n & 0xff, r: c.r}, 8))) {
			return i
		}
	}
	return -1
}

func (in *Interp) countByte(b []V, c V) int {
	n := 0
	for i := range b {
		if in.branch(in.tt.Eq(in.term(b[i], 8), in.term(V{n: c.n & 0xff, r: c.r}, 8))) {
			n++
		}
	}
	return n
}

func (in *Interp) indexSub(a, b []V) int {
	for i := 0; i+len(b) <= len(a); i++ {
		t := in.tt.True
		for j := range b {
			t = in.tt.And(t, in.tt.Eq(in.term(a[i+j], 8), in.term(b[j], 8)))
		}
		if in.branch(t) {
			return i
		}
	}
	return -1
}

func vint(i int) V { return V{n: uint64(int64(i))} }

func init() {
	// --- sym ---------------------------------------------------------
	S := hPath + "/sym."
	reg(S+"Choose", func(in *Interp, a []V) V {
		n := int(a[1].n)
		v := vint(in.path.choose(in, n))
		in.path.inputs = append(in.path.inputs, Input{in.needConc(a[0], "sym name"), v, 64})
		return v
	})
	newVar := func(w uint8, k kinfo) intrinsic {
		return func(in *Interp, a []V) V {
			t := in.tt.Var(fmt.Sprintf("i%d", len(in.path.inputs)), w)
			v := V{r: t}
			in.path.inputs = append(in.path.inputs, Input{in.needConc(a[0], "sym name"), v, w})
			return v
		}
	}
	reg(S+"Byte", newVar(8, kinfo{kInt, 8, false}))
	reg(S+"Bool", func(in *Interp, a []V) V {
		t := in.tt.Var(fmt.Sprintf("i%d", len(in.path.inputs)), 0)
		in.path.inputs = append(in.path.inputs, Input{in.needConc(a[0], "sym name"), V{r: t}, 0})
		return V{r: t}
	})
	reg(S+"Int64 "+S+"Uint64 "+S+"Int", newVar(64, kinfo{kInt, 64, true}))
	reg(S+"Int32 "+S+"Uint32", newVar(32, kinfo{kInt, 32, true}))
	reg(S+"Int16 "+S+"Uint16", newVar(16, kinfo{kInt, 16, true}))
	symStr := func(in *Interp, name string, n int, alpha string) V {
		var set [4]uint64
		for i := 0; i < len(alpha); i++ {
			set[alpha[i]>>6] |= 1 << (alpha[i] & 63)
		}
		b := make([]V, n)
		for i := range b {
			t := in.tt.Var(fmt.Sprintf("i%d", len(in.path.inputs)), 8)
			b[i] = V{r: t}
			in.path.inputs = append(in.path.inputs, Input{fmt.Sprintf("%s[%d]", name, i), b[i], 8})
			if alpha != "" {
				d := set
				in.path.pc.dom[int32(t.val)] = &d
				if setCount(&d) == 1 {
					b[i] = V{n: setMin(&d)}
				}
			}
		}
		return mkStr(b)
	}
	reg(S+"String", func(in *Interp, a []V) V {
		name := in.needConc(a[0], "sym name")
		n := in.path.choose(in, int(a[1].n)+1)
		in.path.inputs = append(in.path.inputs, Input{name + ".len", vint(n), 64})
		return symStr(in, name, n, in.needConc(a[2], "alphabet"))
	})
	reg(S+"StringN", func(in *Interp, a []V) V {
		return symStr(in, in.needConc(a[0], "sym name"), int(a[1].n), in.needConc(a[2], "alphabet"))
	})
	reg(S+"Assume", func(in *Interp, a []V) V {
		if !in.branchAssume(a[0]) {
			panic(pathEnd{"assume", ""})
		}
		return V{}
	})
	reg(S+"Assert", func(in *Interp, a []V) V {
		in.assert(a[0], in.needConc(a[1], "assert label"))
		return V{}
	})
	reg(S+"Fail", func(in *Interp, a []V) V {
		in.assert(bv(false), in.needConc(a[0], "assert label"))
		return V{}
	})
	reg(S+"Reach", func(in *Interp, a []V) V {
		r := in.path.w.run
		r.mu.Lock()
		r.Reached["reach:"+in.needConc(a[0], "label")]++
		r.mu.Unlock()
		return V{}
	})
	reg(S+"Observe", func(in *Interp, a []V) V {
		in.path.obs = append(in.path.obs, Obs{in.needConc(a[0], "label"), []V{a[1]}})
		return V{}
	})
	reg(S+"ObserveInt", func(in *Interp, a []V) V {
		in.path.obs = append(in.path.obs, Obs{"#" + in.needConc(a[0], "label"), []V{a[1]}})
		return V{}
	})
	reg(S+"ObserveBool", func(in *Interp, a []V) V {
		in.path.obs = append(in.path.obs, Obs{"#" + in.needConc(a[0], "label"), []V{a[1]}})
		return V{}
	})
	reg(S+"Known", func(in *Interp, a []V) V {
		in.path.known = append(in.path.known, in.needConc(a[0], "known"))
		return V{}
	})
	reg(S+"Tier", func(in *Interp, a []V) V { return bv(in.tier == "thorough") })
	reg(S+"Symbolic", func(in *Interp, a []V) V { return bv(true) })
	reg(S+"Terminal", func(in *Interp, a []V) V {
		if v, ok := in.pure["terminal"]; ok {
			return v
		}
		f := in.zero(in.eng.spkg["os"].Type("File").Type())
		v := V{r: &f}
		in.pure["terminal"] = v
		return v
	})
	reg(S+"MapOrder", func(in *Interp, a []V) V { in.mord = a[0].n != 0; return V{} })
	reg(S+"Split", func(in *Interp, a []V) V { return bv(in.branchV(a[0])) })
	reg(S+"And", func(in *Interp, a []V) V { return in.boolV(in.tt.And(in.term(a[0], 0), in.term(a[1], 0))) })
	reg(S+"Or", func(in *Interp, a []V) V { return in.boolV(in.tt.Or(in.term(a[0], 0), in.term(a[1], 0))) })

	// --- runtime-ish -------------------------------------------------
	reg(`(*sync.Mutex).Lock (*sync.Mutex).Unlock (*sync.RWMutex).Lock (*sync.RWMutex).Unlock (*sync.RWMutex).RLock (*sync.RWMutex).RUnlock
	 (*sync.Pool).Put (*internal/sync.Mutex).Lock (*internal/sync.Mutex).Unlock
	 runtime.KeepAlive runtime.SetFinalizer runtime.GC (*strings.Builder).copyCheck internal/race.Acquire internal/race.Release
	 (*internal/godebug.Setting).IncNonDefault (*internal/godebug.Setting).register`, nop)
	reg("(*sync.Mutex).TryLock", func(in *Interp, a []V) V { return bv(true) })
	reg("(*internal/godebug.Setting).Value", func(in *Interp, a []V) V { return V{} })
	reg("internal/godebug.New", func(in *Interp, a []V) V { return V{r: &V{r: &Agg{make([]V, 8)}}} })
	reg("internal/abi.NoEscape internal/abi.Escape strings.noescape internal/stringslite.Clone strings.Clone", ident)
	reg("(*sync.Pool).Get", func(in *Interp, a []V) V {
		c := cell(a[0]).r.(*Agg)
		newf := c.f[len(c.f)-1]
		if newf.r == nil {
			return V{}
		}
		return in.callV(newf, nil)
	})
	for _, w := range []string{"Int32", "Uint32", "Int64", "Uint64", "Uintptr", "Pointer"} {
		w := w
		wd := uint8(64)
		if strings.HasSuffix(w, "32") {
			wd = 32
		}
		k := kinfo{kInt, wd, strings.HasPrefix(w, "Int")}
		reg("sync/atomic.Load"+w+" internal/runtime/atomic.Load"+w, func(in *Interp, a []V) V { return in.load(a[0], k) })
		reg("sync/atomic.Store"+w, func(in *Interp, a []V) V { *cell(a[0]) = a[1]; return V{} })
		reg("sync/atomic.Add"+w, func(in *Interp, a []V) V {
			c := cell(a[0])
			c.n = norm(c.n+a[1].n, k)
			return *c
		})
		reg("sync/atomic.Swap"+w, func(in *Interp, a []V) V {
			c := cell(a[0])
			o := *c
			*c = a[1]
			return o
		})
		reg("sync/atomic.CompareAndSwap"+w, func(in *Interp, a []V) V {
			c := cell(a[0])
			if c.n == a[1].n && samePtr(c.r, a[1].r) {
				*c = a[2]
				return bv(true)
			}
			return bv(false)
		})
	}
	reg("(*sync/atomic.Value).Load", func(in *Interp, a []V) V { return cell(a[0]).r.(*Agg).f[0] })
	reg("(*sync/atomic.Value).Store", func(in *Interp, a []V) V {
		if a[1].r == nil {
			in.rtPanic("sync/atomic: store of nil value into Value")
		}
		cell(a[0]).r.(*Agg).f[0] = a[1]
		return V{}
	})
	reg("runtime/debug.Stack", func(in *Interp, a []V) V { return mkSlice(strBytes(strV("stack"))) })

	// --- bytealg -----------------------------------------------------
	reg("internal/bytealg.IndexByteString", func(in *Interp, a []V) V { return vint(in.indexByte(strBytes(a[0]), a[1])) })
	reg("internal/bytealg.IndexByte", func(in *Interp, a []V) V { return vint(in.indexByte(in.sliceOf(a[0]), a[1])) })
	reg("internal/bytealg.LastIndexByteString", func(in *Interp, a []V) V { return vint(in.lastIndexByte(strBytes(a[0]), a[1])) })
	reg("internal/bytealg.LastIndexByte", func(in *Interp, a []V) V { return vint(in.lastIndexByte(in.sliceOf(a[0]), a[1])) })
	reg("internal/bytealg.CountString", func(in *Interp, a []V) V { return vint(in.countByte(strBytes(a[0]), a[1])) })
	reg("internal/bytealg.Count", func(in *Interp, a []V) V { return vint(in.countByte(in.sliceOf(a[0]), a[1])) })
	reg("internal/bytealg.IndexString strings.Index internal/stringslite.Index", func(in *Interp, a []V) V {
		if x, ok := concStr(a[0]); ok {
			if y, ok := concStr(a[1]); ok {
				return vint(strings.Index(x, y))
			}
		}
		return vint(in.indexSub(strBytes(a[0]), strBytes(a[1])))
	})
	reg("internal/bytealg.Index bytes.Index", func(in *Interp, a []V) V { return vint(in.indexSub(in.sliceOf(a[0]), in.sliceOf(a[1]))) })
	reg("internal/bytealg.Equal bytes.Equal", func(in *Interp, a []V) V {
		return in.boolV(in.strEq(mkStr(append([]V(nil), in.sliceOf(a[0])...)), mkStr(append([]V(nil), in.sliceOf(a[1])...))))
	})
	cmpf := func(in *Interp, x, y V) V {
		if in.branch(in.strEq(x, y)) {
			return vint(0)
		}
		if in.branch(in.strLess(x, y, false)) {
			return vint(-1)
		}
		return vint(1)
	}
	reg("internal/bytealg.CompareString strings.Compare cmp.Compare$string", func(in *Interp, a []V) V { return cmpf(in, a[0], a[1]) })
	reg("internal/bytealg.Compare bytes.Compare", func(in *Interp, a []V) V {
		return cmpf(in, mkStr(append([]V(nil), in.sliceOf(a[0])...)), mkStr(append([]V(nil), in.sliceOf(a[1])...)))
	})
	reg("internal/bytealg.MakeNoZero", func(in *Interp, a []V) V {
		n := int(in.concInt(a[0], 64, true))
		c := growCap(0, n, 1)
		return mkSlice(make([]V, c)[:n])
	})
	// concrete fast paths for hot string helpers
	fast2 := func(name string, f func(a, b string) V) {
		reg(name, nil)
		intrinsics[name] = nil
		fastConc[name] = f
		delete(intrinsics, name)
	}
	fast2("strings.HasPrefix", func(a, b string) V { return bv(strings.HasPrefix(a, b)) })
	fast2("strings.HasSuffix", func(a, b string) V { return bv(strings.HasSuffix(a, b)) })
	fast2("strings.Contains", func(a, b string) V { return bv(strings.Contains(a, b)) })
	fast2("strings.TrimPrefix", func(a, b string) V { return strV(strings.TrimPrefix(a, b)) })
	fast2("strings.TrimSuffix", func(a, b string) V { return strV(strings.TrimSuffix(a, b)) })
	fast2("strings.TrimLeft", func(a, b string) V { return strV(strings.TrimLeft(a, b)) })
	fast2("strings.Trim", func(a, b string) V { return strV(strings.Trim(a, b)) })

	// --- math: floats are always concrete ------------------------------
	math1 := func(n string, f func(float64) float64) {
		reg(n, func(in *Interp, a []V) V { return V{n: math.Float64bits(f(math.Float64frombits(a[0].n)))} })
	}
	math1("math.archTrunc math.trunc", math.Trunc)
	math1("math.archFloor math.floor", math.Floor)
	math1("math.archCeil math.ceil", math.Ceil)
	math1("math.sqrt math.Sqrt", math.Sqrt)
	math1("math.archExp", math.Exp)
	math1("math.archLog", math.Log)

	// a float32 is held as the float64 of the same value
	reg("math.Float32bits internal/strconv.float32bits", func(in *Interp, a []V) V {
		return V{n: uint64(math.Float32bits(float32(math.Float64frombits(a[0].n))))}
	})
	reg("math.Float32frombits internal/strconv.float32frombits", func(in *Interp, a []V) V {
		return V{n: math.Float64bits(float64(math.Float32frombits(uint32(a[0].n))))}
	})

	// --- os ----------------------------------------------------------
	reg("os.Getenv", func(in *Interp, a []V) V { return in.env[in.needConc(a[0], "Getenv")] })
	reg("os.LookupEnv syscall.Getenv", func(in *Interp, a []V) V {
		v, ok := in.env[in.needConc(a[0], "LookupEnv")]
		return tuple(v, bv(ok))
	})
	reg("os.Setenv", func(in *Interp, a []V) V { in.env[in.needConc(a[0], "Setenv")] = a[1]; return V{} })
	reg("os.Unsetenv", func(in *Interp, a []V) V { delete(in.env, in.needConc(a[0], "Unsetenv")); return V{} })
	reg("golang.org/x/term.IsTerminal", func(in *Interp, a []V) V { return bv(a[0].n == 9) })
	reg("github.com/mattn/go-isatty.IsTerminal", func(in *Interp, a []V) V { return bv(a[0].n == 9) })
	reg("golang.org/x/term.GetSize", func(in *Interp, a []V) V { return tuple(V{}, V{}, in.errIface("not a terminal")) })
	reg("(*os.File).Write (*os.File).WriteString", func(in *Interp, a []V) V {
		if c, ok := a[0].r.(*V); ok {
			if g, ok := c.r.(*Agg); ok && len(g.f) > 0 {
				if s, ok := g.f[0].r.(string); ok {
					pe := in.eng.spkg["io/fs"].Type("PathError").Type()
					e := V{r: &Iface{t: in.canon(in.eng.spkg["syscall"].Type("Errno").Type()), v: V{n: 9}}}
					c := &V{r: &Agg{[]V{strV("write"), strV(s), e}}}
					return tuple(V{}, V{r: &Iface{t: in.canon(types.NewPointer(pe)), v: V{r: c}}})
				}
			}
		}
		n := 0
		if isSymStr(a[1]) || a[1].r == nil {
			n = strLen(a[1])
		} else if s, ok := a[1].r.(string); ok {
			n = len(s)
		} else {
			n = len(in.sliceOf(a[1]))
		}
		return tuple(vint(n), V{})
	})
	// No file exists, except for the devices below
	pathError := func(in *Interp, op string, path V, errno uint64) V {
		pe := in.eng.spkg["io/fs"].Type("PathError").Type()
		en := in.eng.spkg["syscall"].Type("Errno").Type()
		e := V{r: &Iface{t: in.canon(en), v: V{n: errno}}}
		c := &V{r: &Agg{[]V{strV(op), path, e}}}
		return V{r: &Iface{t: in.canon(types.NewPointer(pe)), v: V{r: c}}}
	}
	const noEnt = 2
	notExist := func(op string) intrinsic {
		return func(in *Interp, a []V) V { return tuple(V{}, pathError(in, op, a[0], noEnt)) }
	}
	fails := func(op string) intrinsic {
		return func(in *Interp, a []V) V { return pathError(in, op, a[0], noEnt) }
	}
	device := func(v V) string {
		if c, ok := v.r.(*V); ok {
			if g, ok := c.r.(*Agg); ok && len(g.f) > 0 {
				if s, ok := g.f[0].r.(string); ok {
					return s
				}
			}
		}
		return ""
	}
	reg("os.Stat", notExist("stat"))
	reg("os.Open", func(in *Interp, a []V) V {
		if p, ok := concStr(a[0]); ok && (p == "/dev/zero" || p == "/dev/null") {
			return tuple(V{r: &V{r: &Agg{[]V{strV(p)}}}}, V{})
		}
		return notExist("open")(in, a)
	})
	reg("os.Create os.OpenFile", notExist("open"))
	reg("os.Chmod", fails("chmod"))
	reg("os.Chown", fails("chown"))
	// The working directory is /tmp at first; few directories are known to exist.
	dirs := map[string]bool{"/": true, "/tmp": true, "/usr": true, "/usr/lib": true}
	getwd := func(in *Interp) string {
		if v, ok := in.pure["wd"]; ok {
			return v.r.(string)
		}
		return "/tmp"
	}
	reg("os.Getwd", func(in *Interp, a []V) V { return tuple(strV(getwd(in)), V{}) })
	reg("os.Chdir", func(in *Interp, a []V) V {
		p := in.needConc(a[0], "Chdir")
		d := p
		if !strings.HasPrefix(d, "/") {
			d = getwd(in) + "/" + d
		}
		d = path.Clean(d)
		if p == "" || !dirs[d] {
			return pathError(in, "chdir", a[0], noEnt)
		}
		in.pure["wd"] = V{r: d}
		return V{}
	})
	reg("os.Chtimes", fails("chtimes"))
	reg("os.Remove", fails("remove"))
	reg("os.Mkdir", fails("mkdir"))
	// Below a device, nothing can be made or removed
	below := func(in *Interp, path V) bool {
		return in.callReal("strings", "HasPrefix", path, strV("/dev/null/")).n == 1
	}
	reg("os.MkdirAll", func(in *Interp, a []V) V {
		if below(in, a[0]) {
			return pathError(in, "mkdir", strV("/dev/null"), 20)
		}
		return V{}
	})
	reg("os.RemoveAll", func(in *Interp, a []V) V {
		if below(in, a[0]) {
			return pathError(in, "open", in.callReal("path", "Dir", a[0]), 20)
		}
		return V{}
	})
	reg("os.Rename", func(in *Interp, a []V) V {
		le := in.eng.spkg["os"].Type("LinkError").Type()
		en := in.eng.spkg["syscall"].Type("Errno").Type()
		e := V{r: &Iface{t: in.canon(en), v: V{n: noEnt}}}
		c := &V{r: &Agg{[]V{strV("rename"), a[0], a[1], e}}}
		return V{r: &Iface{t: in.canon(types.NewPointer(le)), v: V{r: c}}}
	})
	reg("(*os.File).Read", func(in *Interp, a []V) V {
		s := in.sliceOf(a[1])
		switch device(a[0]) {
		case "/dev/zero":
			for i := range s {
				s[i] = V{}
			}
			return tuple(vint(len(s)), V{})
		case "/dev/null":
			if len(s) == 0 {
				return tuple(V{}, V{})
			}
			return tuple(V{}, *in.global(in.eng.spkg["io"].Members["EOF"].(*ssa.Global)))
		}
		in.unsupported("reading a file")
		return V{}
	})
	reg("(*os.File).Close", func(in *Interp, a []V) V { return V{} })
	reg("(*os.File).SetReadDeadline (*os.File).SetWriteDeadline", func(in *Interp, a []V) V { return in.errIface("no deadline") })
	reg("(*os.File).Fd", func(in *Interp, a []V) V {
		if v, ok := in.pure["terminal"]; ok && v.r == a[0].r {
			return vint(9) // sym.Terminal
		}
		return vint(1)
	})
	reg("os.Exit", func(in *Interp, a []V) V { panic(pathEnd{"unsupported", "os.Exit called"}) })
	reg("time.runtimeNano", func(in *Interp, a []V) V { return V{n: 1} })
	// Timers never fire: no time passes
	reg("time.AfterFunc", func(in *Interp, a []V) V {
		cell := in.zero(in.eng.spkg["time"].Type("Timer").Type())
		return V{r: &cell}
	})
	reg("(*time.Timer).Stop", func(in *Interp, a []V) V { return V{n: 1} })
	reg("time.Now", func(in *Interp, a []V) V { return in.zero(in.eng.spkg["time"].Type("Time").Type()) })

	reg("regexp.MustCompile", func(in *Interp, a []V) V {
		s, ok := concStr(a[0])
		if !ok {
			in.unsupported("symbolic regexp")
		}
		if v, ok := in.pure["re:"+s]; ok {
			return v
		}
		r := in.callReal("regexp", "Compile", a[0]).r.(*Agg)
		if r.f[1].r != nil {
			in.rtPanic("regexp: Compile(" + s + ")")
		}
		in.pure["re:"+s] = r.f[0]
		return r.f[0]
	})

	// --- unsafe-based helpers ----------------------------------------
	reg("hash/maphash.Comparable maps.clone", func(in *Interp, a []V) V {
		if i, ok := a[0].r.(*Iface); ok {
			if m, ok := i.v.r.(*Map); ok {
				n := newMap()
				mt := i.t.Underlying().(*types.Map)
				for _, e := range m.ents {
					if !e.dead {
						in.mapSetNoFork(n, mt.Key(), e)
					}
				}
				return V{r: &Iface{t: i.t, v: V{r: n}}}
			}
			return a[0]
		}
		in.unsupported("maps.clone")
		return V{}
	})
}

func (in *Interp) mapSetNoFork(n *Map, kt types.Type, e ment) {
	ne := ment{k: copyVal(e.k), v: copyVal(e.v), ck: e.ck, sym: e.sym}
	n.ents = append(n.ents, ne)
	if e.sym {
		n.nsym++
	} else {
		n.idx[e.ck] = len(n.ents) - 1
	}
	n.live++
}

// fastConc are functions evaluated natively when both string arguments are concrete.
var fastConc = map[string]func(a, b string) V{}

func (in *Interp) callReal(pkg, name string, args ...V) V {
	f := in.eng.spkg[pkg].Func(name)
	fn := in.fnOf(f)
	return in.call(fn, args, nil, nil)
}

// branchAssume adds a constraint without exploring the other side.
func (in *Interp) branchAssume(v V) bool {
	t, ok := v.r.(*Term)
	if !ok {
		return v.n != 0
	}
	p := in.path
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.trace = append(p.trace, d)
		if d == 0 {
			return false
		}
		p.pc.add(t)
		return true
	}
	canT, _ := in.feasible(t)
	p.trace = append(p.trace, b2u(canT))
	if canT {
		p.pc.add(t)
	}
	return canT
}

func (in *Interp) setStdGlobals() {
	set := func(pkg, name string, v V) {
		p := in.eng.spkg[pkg]
		if p == nil {
			return
		}
		if g, ok := p.Members[name].(*ssa.Global); ok {
			*in.global(g) = v
		}
	}
	gv := func(pkg, name string) V {
		p := in.eng.spkg[pkg]
		if p == nil {
			return V{}
		}
		return *in.global(p.Members[name].(*ssa.Global))
	}
	set("os", "ErrNotExist", gv("io/fs", "ErrNotExist"))
	set("os", "ErrExist", gv("io/fs", "ErrExist"))
	set("os", "ErrPermission", gv("io/fs", "ErrPermission"))
	set("os", "ErrInvalid", gv("io/fs", "ErrInvalid"))
	set("os", "ErrClosed", gv("io/fs", "ErrClosed"))
	set("os", "Args", mkSlice([]V{strV("app")}))
	for _, n := range []string{"Stdin", "Stdout", "Stderr"} {
		set("os", n, V{r: &V{r: &Agg{[]V{{r: &V{r: &Agg{make([]V, 8)}}}}}}})
	}
	if p := in.eng.spkg["os"]; p != nil {
		// os.Interrupt = syscall.SIGINT
		if sp := in.eng.spkg["syscall"]; sp != nil {
			t := in.canon(sp.Type("Signal").Type())
			set("os", "Interrupt", V{r: &Iface{t: t, v: V{n: 2}}})
			set("os", "Kill", V{r: &Iface{t: t, v: V{n: 9}}})
		}
	}
}

// intrinsicsT are generic functions handled per instantiation.
var intrinsicsT = map[string]func(ta []types.Type) intrinsic{
	"internal/abi.TypeFor":         typeForI,
	"reflect.TypeFor":              typeForI,
	"internal/reflectlite.TypeFor": typeForI,
	"unique.Make": func(ta []types.Type) intrinsic {
		return func(in *Interp, args []V) V {
			k, ok := in.hashKey(ta[0], args[0])
			if !ok {
				in.unsupported("unique.Make of symbolic value")
			}
			k = fmt.Sprintf("uniq:%p:%s", in.canon(ta[0]), k)
			p, ok := in.pure[k]
			if !ok {
				c := copyVal(args[0])
				p = V{r: &c}
				in.pure[k] = p
			}
			return V{r: &Agg{[]V{p}}}
		}
	},
}

func typeForI(ta []types.Type) intrinsic {
	return func(in *Interp, args []V) V { return in.rtype(ta[0]) }
}
