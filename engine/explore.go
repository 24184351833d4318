package main

import (
	"encoding/binary"
	"fmt"
	"golang.org/x/tools/go/ssa"
	"sort"
	"strings"
	"sync"
	"time"
)

// Input is one nondeterministic input of a path, in the order the harness asked for it.
type Input struct {
	Name string
	V    V
	W    uint8
}

type Obs struct {
	Label string
	V     []V
}

// Candidate is a path-end or violation to be replayed natively.
type Candidate struct {
	Harness string   `json:"harness"`
	Kind    string   `json:"kind"` // ok, fail, panic, unsupported, steps, depth
	Label   string   `json:"label"`
	In      []uint64 `json:"in"`
	Names   []string `json:"names"`
	Obs     []string `json:"obs"`
	Known   []string `json:"known,omitempty"`
	Where   string   `json:"where,omitempty"`
	Mord    bool     `json:"map_order,omitempty"`
}

type Path struct {
	prefix   []uint64
	pos      int
	trace    []uint64
	pc       *PathCond
	inputs   []Input
	obs      []Obs
	known    []string
	taint    bool
	w        *Worker
	branches int
	asserts  int
	lazyN    int
}

// Run is the exploration of one harness.
type Run struct {
	eng      *Engine
	harness  string
	mu       sync.Mutex
	cond     *sync.Cond
	stack    [][]uint64
	busy     int
	stop     bool
	timeout  bool
	deadline time.Time

	Paths, Assumed, Unsup, StepOut, UnknownPaths int
	Branches, Forks                              int64
	Asserts, AssertsSMT                          int64
	Steps                                        int64
	Cands                                        []Candidate
	Viol                                         map[string]int
	UnsupMsgs                                    map[string]int
	Reached                                      map[string]int
	Dropped                                      int
	MaxPaths                                     int
	err                                          error
	Wall                                         time.Duration
	entryF                                       *ssa.Function
}

type Worker struct {
	id  int
	in  *Interp
	run *Run
	rng uint64
}

func (in *Interp) branch(t *Term) bool {
	if t.isConst() {
		return t.val != 0
	}
	p := in.path
	if p == nil {
		panic("symbolic branch outside a path")
	}
	p.branches++
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.trace = append(p.trace, d)
		if d&2 == 0 {
			if d&1 != 0 {
				p.pc.add(t)
			} else {
				p.pc.add(in.tt.Not(t))
			}
		}
		return d&1 != 0
	}
	canT, canF := in.feasible(t)
	switch {
	case canT && canF:
		// explore the other side later
		alt := make([]uint64, len(p.trace)+1)
		copy(alt, p.trace)
		alt[len(p.trace)] = 0
		p.w.run.push(alt)
		p.trace = append(p.trace, 1)
		p.pc.add(t)
		return true
	case canT:
		p.trace = append(p.trace, 3)
		return true
	case canF:
		p.trace = append(p.trace, 2)
		return false
	}
	panic(pathEnd{"infeasible", "path condition became infeasible" + in.where()})
}

// feasible reports which outcomes of t are consistent with the path condition.
func (in *Interp) feasible(t *Term) (bool, bool) {
	p := in.path
	pc := p.pc
	if pc.unary(t) {
		v := t.vars[0]
		d := pc.domain(v)
		s := in.tt.Truth(t)
		var anyT, anyF bool
		for i := range d {
			if d[i]&s[i] != 0 {
				anyT = true
			}
			if d[i]&^s[i] != 0 {
				anyF = true
			}
		}
		if !anyT || !anyF || !pc.tangle[v] {
			return anyT, anyF
		}
	}
	if pc.ok {
		if pc.evalModel(t) != 0 {
			r, _ := in.query(in.tt.Not(t))
			if r < 0 {
				p.taint = true
			}
			return true, r != 0
		}
		r, _ := in.query(t)
		if r < 0 {
			p.taint = true
		}
		return r != 0, true
	}
	r1, m := in.query(t)
	if r1 < 0 {
		p.taint = true
	}
	if r1 == 0 {
		return false, true
	}
	r2, m2 := in.query(in.tt.Not(t))
	if r2 < 0 {
		p.taint = true
	}
	if r2 == 0 {
		m2 = nil
	}
	if r1 == 1 {
		in.adopt(m)
	} else if m2 != nil {
		in.adopt(m2)
	}
	return true, r2 != 0
}

// adopt tries to make a slice model the current model.
func (in *Interp) adopt(m Model) {
	pc := in.path.pc
	for k, v := range m {
		pc.model[k] = v
	}
	pc.ok = pc.verify()
}

func (p *PathCond) verify() bool {
	for v, d := range p.dom {
		x, ok := p.model[v]
		if ok && d[x>>6]&(1<<(x&63)) == 0 {
			if p.tangle[v] {
				return false
			}
			p.model[v] = setMin(d)
		}
	}
	for _, m := range p.multi {
		if p.evalModel(m) == 0 {
			return false
		}
	}
	return true
}

// query decides PC ∧ t on the slice connected to t.
func (in *Interp) query(t *Term) (int, Model) {
	cs, doms, vars := in.path.pc.slice(t)
	ids := make([]int, 0, len(cs)+1)
	for _, c := range cs {
		ids = append(ids, c.id)
	}
	sort.Ints(ids)
	if t != nil {
		ids = append(ids, t.id)
	} else {
		ids = append(ids, -1)
	}
	var kb []byte
	for _, i := range ids {
		kb = binary.AppendVarint(kb, int64(i))
	}
	kb = append(kb, '|')
	for _, v := range vars {
		if d, ok := doms[v]; ok {
			kb = binary.AppendVarint(kb, int64(v))
			for _, x := range d {
				kb = binary.LittleEndian.AppendUint64(kb, x)
			}
		}
	}
	key := string(kb)
	if r, ok := in.qcache[key]; ok {
		return r.res, r.m
	}
	terms := cs
	if t != nil {
		terms = append(append([]*Term(nil), cs...), t)
	}
	r, m := in.sol.Check(terms, doms, vars)
	if len(in.qcache) > 200000 {
		in.qcache = map[string]qres{}
	}
	in.qcache[key] = qres{r, m}
	return r, m
}

func (p *Path) someValue(in *Interp, t *Term) uint64 {
	if p.pos < len(p.prefix) {
		v := p.prefix[p.pos]
		p.pos++
		p.trace = append(p.trace, v)
		return v
	}
	pc := p.pc
	if !pc.ok {
		// obtain a model for the slice of t
		r, m := in.query(in.tt.Eq(t, t))
		_ = r
		if m != nil {
			in.adopt(m)
		}
		if !pc.ok {
			r, m := in.fullModel()
			if r == 1 {
				pc.model = m
				pc.ok = true
			} else {
				panic(pathEnd{"unknown", "no model for concretization" + in.where()})
			}
		}
	}
	v := pc.evalModel(t)
	p.trace = append(p.trace, v)
	return v
}

func (in *Interp) fullModel() (int, Model) {
	return in.query(nil)
}

func (p *Path) choose(in *Interp, n int) int {
	if n <= 1 {
		return 0
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.trace = append(p.trace, d)
		return int(d)
	}
	for i := n - 1; i >= 1; i-- {
		alt := make([]uint64, len(p.trace)+1)
		copy(alt, p.trace)
		alt[len(p.trace)] = uint64(i)
		p.w.run.push(alt)
	}
	p.trace = append(p.trace, 0)
	return 0
}

func (r *Run) push(prefix []uint64) {
	r.mu.Lock()
	r.stack = append(r.stack, prefix)
	r.Forks++
	r.mu.Unlock()
	r.cond.Signal()
}

func (r *Run) pop() ([]uint64, bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for {
		if r.stop {
			return nil, false
		}
		if time.Now().After(r.deadline) {
			if len(r.stack) > 0 || r.busy > 0 {
				r.timeout = true
			}
			r.stop = true
			r.cond.Broadcast()
			return nil, false
		}
		if n := len(r.stack); n > 0 {
			p := r.stack[n-1]
			r.stack = r.stack[:n-1]
			r.busy++
			return p, true
		}
		if r.busy == 0 {
			r.stop = true
			r.cond.Broadcast()
			return nil, false
		}
		r.cond.Wait()
	}
}

func (r *Run) done() {
	r.mu.Lock()
	r.busy--
	if r.busy == 0 && len(r.stack) == 0 {
		r.stop = true
		r.cond.Broadcast()
	}
	r.mu.Unlock()
}

func (w *Worker) loop() {
	for {
		prefix, ok := w.run.pop()
		if !ok {
			return
		}
		w.one(prefix)
		w.run.done()
	}
}

// one executes a single path.
func (w *Worker) one(prefix []uint64) {
	in := w.in
	r := w.run
	p := &Path{prefix: prefix, pc: newPathCond(in.tt), w: w}
	in.path = p
	in.env = map[string]V{}
	in.envO = nil
	in.mord = false
	in.memo = map[string]V{}
	in.scratch = map[string]any{}
	in.steps = 0
	in.depth = 0
	in.fr = nil
	in.sp = 0
	if in.chunk == nil {
		in.chunk = make([]V, 1<<16)
	}
	kind, label, wh := "ok", "", ""
	func() {
		defer func() {
			if e := recover(); e != nil {
				switch x := e.(type) {
				case pathEnd:
					kind, label = x.kind, x.msg
				case *goPanic:
					wh = x.trace
					in.fr = nil
					kind, label = "panic", "panic: "+in.panicText(x.v)
				default:
					kind = "unsupported"
					label = fmt.Sprintf("engine: %v%s", e, in.where())
					if engDebug {
						panic(e)
					}
				}
			}
		}()
		in.reinit()
		in.call(in.fnOf(r.entryF), nil, nil, nil)
	}()
	if p.pos < len(p.prefix) && kind != "assume" {
		kind, label = "unsupported", "engine: nondeterministic replay: "+label
	}
	var cand *Candidate
	if kind != "assume" && kind != "infeasible" {
		res, m := in.fullModel()
		if res == 1 {
			p.pc.model, p.pc.ok = m, true
			c := w.candidate(kind, label)
			c.Where = wh
			cand = &c
		} else if res == 0 {
			kind = "infeasible"
		} else {
			kind = "unknown"
		}
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Branches += int64(p.branches)
	r.Steps += in.steps
	switch kind {
	case "assume", "infeasible":
		r.Assumed++
		return
	case "unknown":
		r.UnknownPaths++
		return
	case "unsupported":
		r.Unsup++
		if len(r.UnsupMsgs) < 50 {
			r.UnsupMsgs[label]++
		}
	case "steps", "depth":
		r.StepOut++
		if len(r.UnsupMsgs) < 50 {
			r.UnsupMsgs[label]++
		}
	}
	r.Paths++
	if p.taint {
		r.UnknownPaths++
	}
	if cand != nil {
		r.addCand(*cand)
	}
	if r.MaxPaths > 0 && r.Paths >= r.MaxPaths && !r.stop {
		r.stop = true
		r.timeout = true
		r.cond.Broadcast()
	}
}

func (r *Run) addCand(c Candidate) {
	k := c.Kind + "/" + c.Label + "/" + strings.Join(c.Known, ",")
	if c.Kind != "ok" {
		r.Viol[k]++
		if r.Viol[k] > 40 {
			r.Dropped++
			return
		}
	}
	r.Cands = append(r.Cands, c)
}

// candidate renders the current path under its model.
func (w *Worker) candidate(kind, label string) Candidate {
	in := w.in
	p := in.path
	c := Candidate{Harness: w.run.harness, Kind: kind, Label: label, Known: append([]string(nil), p.known...), Mord: in.mord}
	memo := map[int]uint64{}
	ev := func(v V) uint64 {
		if t, ok := v.r.(*Term); ok {
			return in.tt.Eval(t, p.pc.env, memo)
		}
		return v.n
	}
	for _, i := range p.inputs {
		c.In = append(c.In, ev(i.V))
		c.Names = append(c.Names, i.Name)
	}
	for _, o := range p.obs {
		var sb strings.Builder
		sb.WriteString(o.Label)
		sb.WriteByte('=')
		for i, v := range o.V {
			if i > 0 {
				sb.WriteByte(',')
			}
			switch s := v.r.(type) {
			case nil:
				// strings are observed as r==nil only when empty
				if o.Label[0] == '#' {
					fmt.Fprintf(&sb, "%d", int64(v.n))
				}
			case string:
				sb.WriteString(s)
			case *SymStr:
				for _, b := range s.b {
					sb.WriteByte(byte(ev(b)))
				}
			case *Term:
				x := ev(v)
				if s.w > 0 {
					x = uint64(sext(x, s.w))
				}
				fmt.Fprintf(&sb, "%d", int64(x))
			}
		}
		c.Obs = append(c.Obs, sb.String())
	}
	return c
}

func (in *Interp) panicText(v V) (s string) {
	defer func() {
		if e := recover(); e != nil {
			s = "?"
		}
	}()
	i, ok := v.r.(*Iface)
	if !ok {
		return "nil"
	}
	if str, ok := concStr(i.v); ok && in.kindOf(i.t).k == kString {
		return str
	}
	if f := in.method(i.t, nil, "Error"); f != nil {
		r := in.call(f, []V{i.v}, nil, nil)
		if str, ok := concStr(r); ok {
			return str
		}
	}
	return i.t.String()
}

// assert checks a property on the current path.
func (in *Interp) assert(c V, label string) {
	p := in.path
	p.asserts++
	r := p.w.run
	r.mu.Lock()
	r.Asserts++
	r.Reached[label]++
	r.mu.Unlock()
	t, sym := c.r.(*Term)
	replay := p.pos < len(p.prefix)
	if !sym {
		if c.n == 0 && !replay {
			in.violate(label, nil)
		}
		return
	}
	var res uint64
	if replay {
		res = p.prefix[p.pos]
		p.pos++
	} else {
		q, _ := in.query(in.tt.Not(t))
		r.mu.Lock()
		r.AssertsSMT++
		r.mu.Unlock()
		res = uint64(q + 1)
	}
	p.trace = append(p.trace, res)
	switch res {
	case 1:
		return
	case 0:
		p.taint = true
		return
	}
	if !replay {
		in.violate(label, in.tt.Not(t))
	}
	// continue on the paths where it holds
	if !in.branch(t) {
		panic(pathEnd{"assume", "assertion failed"})
	}
}

func (in *Interp) violate(label string, extra *Term) {
	p := in.path
	save := *p.pc
	p.pc.model = Model{}
	if extra != nil {
		// solve for the full path condition with the negated assertion
		multi := append([]*Term(nil), p.pc.multi...)
		dom := map[int32]*[4]uint64{}
		for k, v := range p.pc.dom {
			dom[k] = v
		}
		tg := map[int32]bool{}
		for k := range p.pc.tangle {
			tg[k] = true
		}
		pc := &PathCond{tt: p.pc.tt, dom: dom, multi: multi, tangle: tg, model: Model{}, ok: false}
		pc.add(extra)
		p.pc = pc
	}
	res, m := in.fullModel()
	if res == 1 {
		p.pc.model, p.pc.ok = m, true
		c := p.w.candidate("fail", label)
		r := p.w.run
		r.mu.Lock()
		r.addCand(c)
		r.mu.Unlock()
	} else {
		p.taint = true
	}
	pc := save
	p.pc = &pc
}

func (in *Interp) initRun(r *Run, f *ssa.Function) {
	r.mu.Lock()
	r.entryF = f
	r.mu.Unlock()
}
