package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/Carbonfrost/joe-cli"
const hPath = modPath + "/internal/zzverif"

var engDebug = os.Getenv("ENGDEBUG") != ""

// Engine is what all workers share: the SSA of the current source tree.
type Engine struct {
	repo     string
	prog     *ssa.Program
	pkgs     []*packages.Package
	spkg     map[string]*ssa.Package
	models   map[string]*ssa.Function
	maxDepth int
	maxSteps int64

	rtErrorType  types.Type
	errStringPtr types.Type
	rtypePtr     types.Type
	reflValue    types.Type
	decodeRune   *ssa.Function
	appendRune   *ssa.Function

	stdInit []*ssa.Package // initialised once per worker
	modInit []*ssa.Package // initialised once per path
	mu      sync.Mutex
	initSet map[*ssa.Package]bool
	LoadSec float64
}

// stdlib packages whose initialisers are interpreted.
var initStd = map[string]bool{
	"time":   true,
	"errors": true, "internal/oserror": true, "io": true, "io/fs": true, "unicode": true, "unicode/utf8": true,
	"strings": true, "bytes": true, "strconv": true, "internal/strconv": true, "sort": true, "slices": true, "maps": true,
	"math": true, "math/bits": true, "fmt": true, "internal/fmtsort": true, "bufio": true, "regexp": true, "regexp/syntax": true,
	"path": true, "path/filepath": true, "internal/filepathlite": true, "encoding/hex": true, "context": true, "flag": true,
	"math/big": true, "net/url": true, "net/netip": true, "cmp": true, "iter": true, "encoding": true, "unicode/utf16": true,
	"encoding/binary": true, "encoding/base64": true, "internal/bisect": true, "internal/stringslite": true, "container/list": true,
	"encoding/json": false, "encoding/csv": true, "text/template/parse": false, "internal/itoa": true, "internal/byteorder": true,
}

func overlayFiles(root string) map[string][]byte {
	ov := map[string][]byte{}
	base := filepath.Join(root, "harness")
	filepath.Walk(base, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(base, p)
		ov[rel] = b
		return nil
	})
	return ov
}

func loadEngine(repo, vroot string, pats []string) (*Engine, error) {
	t0 := time.Now()
	ov := map[string][]byte{}
	for rel, b := range overlayFiles(vroot) {
		ov[filepath.Join(repo, "internal/zzverif", rel)] = b
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:        repo,
		Env:        append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=readonly", "GOPROXY=off"),
		BuildFlags: []string{"-tags=math_big_pure_go,purego"},
		Overlay:    ov,
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	nerr := 0
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if strings.Contains(p.PkgPath, "joe-cli") || nerr < 3 {
				fmt.Fprintln(os.Stderr, "load:", p.PkgPath, e)
			}
			nerr++
		}
	})
	if nerr > 0 {
		return nil, fmt.Errorf("%d load errors", nerr)
	}
	e := &Engine{repo: repo, pkgs: pkgs, spkg: map[string]*ssa.Package{}, models: map[string]*ssa.Function{}, maxDepth: 1500, maxSteps: 40_000_000}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics|ssa.SanityCheckFunctions&0)
	e.prog = prog
	for _, p := range prog.AllPackages() {
		e.spkg[p.Pkg.Path()] = p
	}
	// Build what we interpret, in parallel; the rest on demand.
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for _, p := range prog.AllPackages() {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			p.Build()
			<-sem
		}()
	}
	wg.Wait()
	get := func(pkg, name string) types.Object {
		p := e.spkg[pkg]
		if p == nil {
			panic("missing package " + pkg)
		}
		o := p.Pkg.Scope().Lookup(name)
		if o == nil {
			panic("missing " + pkg + "." + name)
		}
		return o
	}
	e.rtErrorType = get("runtime", "errorString").Type()
	e.errStringPtr = types.NewPointer(get("errors", "errorString").Type())
	e.rtypePtr = types.NewPointer(get("reflect", "rtype").Type())
	e.reflValue = get("reflect", "Value").Type()
	e.decodeRune = e.spkg["unicode/utf8"].Func("DecodeRuneInString")
	e.appendRune = e.spkg["unicode/utf8"].Func("AppendRune")
	// model replacements: functions in zzverif/model named by a //model: directive
	if mp := e.spkg[hPath+"/model"]; mp != nil {
		for _, p := range allPkgs(pkgs) {
			if p.PkgPath != hPath+"/model" {
				continue
			}
			for _, f := range p.Syntax {
				for _, cg := range f.Comments {
					for _, c := range cg.List {
						if strings.HasPrefix(c.Text, "//model:") {
							fs := strings.Fields(c.Text[len("//model:"):])
							if len(fs) == 2 {
								if fn := mp.Func(fs[1]); fn != nil {
									e.models[fs[0]] = fn
								} else {
									return nil, fmt.Errorf("model function %s not found", fs[1])
								}
							}
						}
					}
				}
			}
		}
	}
	// initialisation order
	seen := map[string]bool{}
	var visit func(p *packages.Package)
	visit = func(p *packages.Package) {
		if seen[p.PkgPath] {
			return
		}
		seen[p.PkgPath] = true
		keys := make([]string, 0, len(p.Imports))
		for k := range p.Imports {
			keys = append(keys, k)
		}
		sortStrings(keys)
		for _, k := range keys {
			visit(p.Imports[k])
		}
		sp := e.spkg[p.PkgPath]
		if sp == nil {
			return
		}
		if p.Module != nil {
			e.modInit = append(e.modInit, sp)
		} else if initStd[p.PkgPath] {
			e.stdInit = append(e.stdInit, sp)
		}
	}
	for _, p := range pkgs {
		visit(p)
	}
	e.LoadSec = time.Since(t0).Seconds()
	return e, nil
}

func allPkgs(pkgs []*packages.Package) []*packages.Package {
	var out []*packages.Package
	packages.Visit(pkgs, nil, func(p *packages.Package) { out = append(out, p) })
	return out
}

func (e *Engine) pos(i ssa.Instruction) string {
	p := e.prog.Fset.Position(i.Pos())
	if !p.IsValid() {
		return i.Parent().Name()
	}
	return fmt.Sprintf("%s:%d", filepath.Base(p.Filename), p.Line)
}

func (e *Engine) ensureBuilt(f *ssa.Function) {
	if len(f.Blocks) == 0 && f.Pkg != nil {
		f.Pkg.Build()
	}
}

func (e *Engine) inModule(f *ssa.Function) bool {
	p := f.Pkg
	if p == nil && f.Origin() != nil {
		p = f.Origin().Pkg
	}
	for q := f; p == nil && q != nil; q = q.Parent() {
		p = q.Pkg
		if p == nil && q.Origin() != nil {
			p = q.Origin().Pkg
		}
	}
	if p == nil {
		return false
	}
	pp := p.Pkg.Path()
	return strings.HasPrefix(pp, modPath) && !strings.HasPrefix(pp, hPath)
}

func (e *Engine) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	e.mu.Lock()
	defer e.mu.Unlock()
	ms := e.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return e.prog.MethodValue(sel)
}

func (e *Engine) implements(t types.Type, it *types.Interface) bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	if it.NumMethods() == 0 {
		return true
	}
	ms := e.prog.MethodSets.MethodSet(t)
	for i := 0; i < it.NumMethods(); i++ {
		m := it.Method(i)
		sel := ms.Lookup(m.Pkg(), m.Name())
		if sel == nil {
			return false
		}
		if !types.Identical(sel.Obj().(*types.Func).Signature(), m.Signature()) {
			// compare ignoring receivers
			a := sel.Type().(*types.Signature)
			if !types.Identical(types.NewSignatureType(nil, nil, nil, a.Params(), a.Results(), a.Variadic()),
				types.NewSignatureType(nil, nil, nil, m.Signature().Params(), m.Signature().Results(), m.Signature().Variadic())) {
				return false
			}
		}
	}
	return true
}

func newInterp(e *Engine) *Interp {
	in := &Interp{
		eng: e, tt: newTermTable(),
		fns: map[*ssa.Function]*Fn{}, canonC: map[types.Type]types.Type{}, kinds: map[types.Type]kinfo{},
		globs: map[*ssa.Global]*V{}, initOK: map[*ssa.Package]bool{}, mcache: map[mkey]*Fn{}, qcache: map[string]qres{},
		impl: map[[2]types.Type]bool{}, maxSt: e.maxSteps, pure: map[string]V{}, rtp: map[types.Type]*RType{},
	}
	in.chunk = make([]V, 1<<16)
	return in
}

// global returns the cell of a package-level variable.
func (in *Interp) global(g *ssa.Global) *V {
	if c, ok := in.globs[g]; ok {
		return c
	}
	c := new(V)
	*c = in.zero(g.Type().Underlying().(*types.Pointer).Elem())
	in.globs[g] = c
	return c
}

// initStdlib runs the initialisers of interpreted stdlib packages, once per worker.
func (in *Interp) initStdlib() error {
	in.inInit = true
	defer func() { in.inInit = false }()
	in.memo = map[string]V{}
	in.scratch = map[string]any{}
	in.env = map[string]V{}
	for _, p := range in.eng.stdInit {
		if err := in.runInit(p); err != nil {
			return err
		}
	}
	in.setStdGlobals()
	return nil
}

func (in *Interp) runInit(p *ssa.Package) (err error) {
	defer func() {
		if e := recover(); e != nil {
			switch x := e.(type) {
			case pathEnd:
				err = fmt.Errorf("init %s: %s %s", p.Pkg.Path(), x.kind, x.msg)
			case *goPanic:
				in.fr = nil
				err = fmt.Errorf("init %s: panic %s %s", p.Pkg.Path(), in.panicText(x.v), x.trace)
			default:
				panic(e)
			}
		}
	}()
	f := p.Func("init")
	in.depth = 0
	in.steps = 0
	// nested init calls of imports are skipped by the guard in fnOf
	in.call(in.fnOf(f), nil, nil, nil)
	return nil
}

// reinit resets the module's own package state, once per path.
func (in *Interp) reinit() {
	in.inInit = true
	for _, p := range in.eng.modInit {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				if c, ok := in.globs[g]; ok {
					*c = in.zero(g.Type().Underlying().(*types.Pointer).Elem())
				}
			}
		}
	}
	for _, p := range in.eng.modInit {
		in.call(in.fnOf(p.Func("init")), nil, nil, nil)
	}
	in.inInit = false
	in.steps = 0
}

// initable reports whether the package's initialiser is interpreted.
func (e *Engine) initable(p *ssa.Package) bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.initSet == nil {
		e.initSet = map[*ssa.Package]bool{}
		for _, p := range e.stdInit {
			e.initSet[p] = true
		}
		for _, p := range e.modInit {
			e.initSet[p] = true
		}
	}
	return e.initSet[p]
}
