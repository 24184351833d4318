package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"time"
)

// Solver is one long-lived SMT process spoken to over pipes.
type Solver struct {
	name    string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	nvars   int
	tt      *TermTable
	Queries int
	Sat     int
	Unsat   int
	Unknown int
	Time    time.Duration
	dead    bool
	logf    *os.File
	cross   *Solver
	crossN  int
	Disag   int
}

type Model map[int32]uint64

func solverArgs(name string) []string {
	switch name {
	case "cvc5":
		return []string{"cvc5", "--incremental", "--produce-models", "--lang=smt2", "--tlimit-per=20000"}
	case "z3-new":
		return []string{"z3-new", "-in", "-smt2", "-t:20000"}
	}
	return []string{"z3", "-in", "-smt2", "-t:20000"}
}

func newSolver(name string, tt *TermTable) *Solver {
	s := &Solver{name: name, tt: tt}
	s.start()
	return s
}

func (s *Solver) start() {
	args := solverArgs(s.name)
	s.cmd = exec.Command(args[0], args[1:]...)
	var err error
	s.in, err = s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = nil
	s.out = bufio.NewReader(o)
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.nvars = 0
	s.dead = false
	fmt.Fprintln(s.in, "(set-option :print-success false)")
	if s.name == "cvc5" {
		fmt.Fprintln(s.in, "(set-logic QF_BV)")
	}
}

func (s *Solver) close() {
	if s.cross != nil {
		s.cross.close()
	}
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// domSMT prints a membership constraint for a small variable.
func domSMT(sb *strings.Builder, v *Term, d *[4]uint64) {
	if v.w == 0 {
		switch d[0] & 3 {
		case 1:
			fmt.Fprintf(sb, "(not %s)", varSMT(v))
		case 2:
			sb.WriteString(varSMT(v))
		case 0:
			sb.WriteString("false")
		default:
			sb.WriteString("true")
		}
		return
	}
	n := 1 << v.w
	has := func(i int) bool { return d[i>>6]&(1<<(i&63)) != 0 }
	sb.WriteString("(or false")
	for i := 0; i < n; {
		if !has(i) {
			i++
			continue
		}
		j := i
		for j+1 < n && has(j+1) {
			j++
		}
		if i == j {
			fmt.Fprintf(sb, " (= %s %s)", varSMT(v), constSMT(uint64(i), v.w))
		} else {
			fmt.Fprintf(sb, " (and (bvule %s %s) (bvule %s %s))", constSMT(uint64(i), v.w), varSMT(v), varSMT(v), constSMT(uint64(j), v.w))
		}
		i = j + 1
	}
	sb.WriteString(")")
}

// Check decides the conjunction of terms and domains; vars are those to report in the model.
// result: 1 sat, 0 unsat, -1 unknown
func (s *Solver) Check(terms []*Term, doms map[int32]*[4]uint64, vars []int32) (int, Model) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	var sb strings.Builder
	sb.WriteString("(push 1)\n")
	for s.nvars < len(s.tt.vars) {
		break
	}
	// Declarations live at the base level so that they survive pops.
	if s.nvars < len(s.tt.vars) {
		sb.Reset()
		for ; s.nvars < len(s.tt.vars); s.nvars++ {
			v := s.tt.vars[s.nvars]
			fmt.Fprintf(&sb, "(declare-const %s %s)\n", varSMT(v), sortSMT(v.w))
		}
		sb.WriteString("(push 1)\n")
	}
	dk := make([]int, 0, len(doms))
	for k := range doms {
		dk = append(dk, int(k))
	}
	sort.Ints(dk)
	for _, k := range dk {
		sb.WriteString("(assert ")
		domSMT(&sb, s.tt.vars[k], doms[int32(k)])
		sb.WriteString(")\n")
	}
	for _, t := range terms {
		sb.WriteString("(assert ")
		t.smt(&sb)
		sb.WriteString(")\n")
	}
	sb.WriteString("(check-sat)\n")
	if s.logf != nil {
		io.WriteString(s.logf, sb.String())
	}
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		s.restart()
		s.Unknown++
		return -1, nil
	}
	res := -1
	l, err := s.readLine()
	if err != nil {
		s.restart()
		s.Unknown++
		return -1, nil
	}
	bad := false
	for strings.HasPrefix(l, "(error") {
		bad = true
		fmt.Fprintln(os.Stderr, "solver:", l)
		l, err = s.readLine()
		if err != nil {
			s.restart()
			s.Unknown++
			return -1, nil
		}
	}
	var m Model
	switch {
	case bad:
	case l == "sat":
		res = 1
	case l == "unsat":
		res = 0
	}
	if res == 1 {
		m = Model{}
		if len(vars) > 0 {
			var q strings.Builder
			q.WriteString("(get-value (")
			for i, v := range vars {
				if i > 0 {
					q.WriteByte(' ')
				}
				q.WriteString(varSMT(s.tt.vars[v]))
			}
			q.WriteString("))\n")
			io.WriteString(s.in, q.String())
			depth := 0
			var txt strings.Builder
			for {
				l, err := s.readLine()
				if err != nil {
					s.restart()
					s.Unknown++
					return -1, nil
				}
				txt.WriteString(l)
				txt.WriteByte(' ')
				depth += strings.Count(l, "(") - strings.Count(l, ")")
				if depth <= 0 {
					break
				}
			}
			parseModel(txt.String(), m)
		}
	}
	io.WriteString(s.in, "(pop 1)\n")
	switch res {
	case 1:
		s.Sat++
	case 0:
		s.Unsat++
	default:
		s.Unknown++
	}
	if s.cross != nil && res >= 0 && (s.crossN <= 0 || s.cross.Queries < s.crossN) {
		r2, _ := s.cross.Check(terms, doms, nil)
		if r2 >= 0 && r2 != res {
			s.Disag++
			return -1, nil
		}
	}
	return res, m
}

func (s *Solver) restart() {
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.start()
}

func parseModel(t string, m Model) {
	t = strings.NewReplacer("(", " ( ", ")", " ) ").Replace(t)
	f := strings.Fields(t)
	for i := 0; i+1 < len(f); i++ {
		if len(f[i]) > 1 && f[i][0] == 'v' && f[i][1] >= '0' && f[i][1] <= '9' {
			var idx int
			fmt.Sscanf(f[i][1:], "%d", &idx)
			val := f[i+1]
			var v uint64
			switch {
			case strings.HasPrefix(val, "#x"):
				fmt.Sscanf(val[2:], "%x", &v)
			case strings.HasPrefix(val, "#b"):
				fmt.Sscanf(val[2:], "%b", &v)
			case val == "true":
				v = 1
			case val == "false":
				v = 0
			case val == "(" && i+3 < len(f) && f[i+2] == "_":
				fmt.Sscanf(strings.TrimPrefix(f[i+3], "bv"), "%d", &v)
			}
			m[int32(idx)] = v
		}
	}
}

// PathCond is the symbolic state of one path.
type PathCond struct {
	tt     *TermTable
	dom    map[int32]*[4]uint64 // variables of width ≤ 8
	multi  []*Term
	tangle map[int32]bool // variables occurring in multi
	model  Model          // satisfies the condition when modelOK
	ok     bool
}

func newPathCond(tt *TermTable) *PathCond {
	return &PathCond{tt: tt, dom: map[int32]*[4]uint64{}, tangle: map[int32]bool{}, model: Model{}, ok: true}
}

func (p *PathCond) domain(v int32) *[4]uint64 {
	if d, ok := p.dom[v]; ok {
		return d
	}
	x := p.tt.vars[v]
	var d [4]uint64
	switch {
	case x.w == 0:
		d[0] = 3
	case x.w <= 8:
		for i := 0; i < 1<<x.w; i++ {
			d[i>>6] |= 1 << (i & 63)
		}
	default:
		return nil
	}
	p.dom[v] = &d
	return &d
}

func (p *PathCond) unary(t *Term) bool {
	return len(t.vars) == 1 && p.tt.vars[t.vars[0]].w <= 8
}

func (p *PathCond) env(v int32) uint64 {
	if x, ok := p.model[v]; ok {
		return x
	}
	if d := p.domain(v); d != nil {
		x := setMin(d)
		return x
	}
	return 0
}

func (p *PathCond) evalModel(t *Term) uint64 {
	if len(t.vars) == 1 && t.w == 0 && p.tt.vars[t.vars[0]].w <= 8 {
		s := p.tt.Truth(t)
		x := p.env(t.vars[0])
		return (s[x>>6] >> (x & 63)) & 1
	}
	return p.tt.Eval(t, p.env, map[int]uint64{})
}

// add conjoins a Bool term.
func (p *PathCond) add(t *Term) {
	if t.isConst() {
		return
	}
	if t.op == OBAnd {
		p.add(t.a)
		p.add(t.b)
		return
	}
	if p.unary(t) {
		v := t.vars[0]
		d := p.domain(v)
		s := p.tt.Truth(t)
		nd := [4]uint64{d[0] & s[0], d[1] & s[1], d[2] & s[2], d[3] & s[3]}
		p.dom[v] = &nd
		if x, ok := p.model[v]; ok {
			if nd[x>>6]&(1<<(x&63)) == 0 {
				if p.tangle[v] {
					p.ok = false
				}
				p.model[v] = setMin(&nd)
			}
		} else if p.tangle[v] {
			p.ok = false
		}
		return
	}
	// pin model values of variables that have none yet
	for _, v := range t.vars {
		if _, ok := p.model[v]; !ok {
			p.model[v] = p.env(v)
		}
	}
	if p.ok && p.evalModel(t) == 0 {
		p.ok = false
	}
	for _, m := range p.multi {
		if m == t {
			return
		}
	}
	p.multi = append(p.multi, t)
	for _, v := range t.vars {
		p.tangle[v] = true
	}
}

// slice returns the constraints connected to t.
func (p *PathCond) slice(t *Term) ([]*Term, map[int32]*[4]uint64, []int32) {
	seen := map[int32]bool{}
	var vars []int32
	if t != nil {
		for _, v := range t.vars {
			if !seen[v] {
				seen[v] = true
				vars = append(vars, v)
			}
		}
	} else {
		for v := range p.dom {
			seen[v] = true
			vars = append(vars, v)
		}
		for v := range p.tangle {
			if !seen[v] {
				seen[v] = true
				vars = append(vars, v)
			}
		}
	}
	var cs []*Term
	used := make([]bool, len(p.multi))
	for changed := true; changed; {
		changed = false
		for i, m := range p.multi {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range m.vars {
				if seen[v] {
					hit = true
					break
				}
			}
			if !hit {
				continue
			}
			used[i] = true
			changed = true
			cs = append(cs, m)
			for _, v := range m.vars {
				if !seen[v] {
					seen[v] = true
					vars = append(vars, v)
				}
			}
		}
	}
	doms := map[int32]*[4]uint64{}
	for _, v := range vars {
		if d := p.domain(v); d != nil {
			n := 256
			if w := p.tt.vars[v].w; w == 0 {
				n = 2
			} else {
				n = 1 << w
			}
			if setCount(d) < n {
				doms[v] = d
			}
		}
	}
	sort.Slice(vars, func(i, j int) bool { return vars[i] < vars[j] })
	return cs, doms, vars
}
