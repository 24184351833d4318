package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Check is the configuration of one property's check.
type Check struct {
	Property string   `json:"property"`
	Pkg      string   `json:"pkg"`
	Harness  []string `json:"harness"`
	Bounds   string   `json:"bounds"`
	Assume   []string `json:"assumptions"`
	Quick    int      `json:"quick_s"`    // wall budget per harness
	Thorough int      `json:"thorough_s"` // wall budget per harness
}

type Known struct {
	Property string `json:"property"`
	Tag      string `json:"tag"`
	Status   string `json:"status"`
	What     string `json:"what"`
}

func main() {
	repo := flag.String("repo", "/repo", "")
	vroot := flag.String("verif", "/verif", "")
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "")
	only := flag.String("only", "", "only this harness")
	replay := flag.String("replay", "", "replay file")
	verbose := flag.Bool("v", false, "")
	nw := flag.Int("j", 8, "workers")
	cpuprof := flag.String("cpuprofile", "", "")
	maxPaths := flag.Int("maxpaths", 0, "")
	flag.Parse()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(20 << 30)
	if *cpuprof != "" {
		f, _ := os.Create(*cpuprof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	os.Exit(mainE(*repo, *vroot, *prop, *tier, *only, *replay, *verbose, *nw, *maxPaths))
}

func loadChecks(vroot string) ([]Check, error) {
	b, err := os.ReadFile(filepath.Join(vroot, "checks.json"))
	if err != nil {
		return nil, err
	}
	var cs []Check
	err = json.Unmarshal(b, &cs)
	return cs, err
}

type replayFile struct {
	Property string    `json:"property"`
	Pkg      string    `json:"pkg"`
	Tier     string    `json:"tier"`
	Cand     Candidate `json:"counterexample"`
	Native   nres      `json:"native"`
	How      string    `json:"how"`
}

func mainE(repo, vroot, prop, tier, only, replay string, verbose bool, nw, maxPaths int) int {
	t0 := time.Now()
	work, err := os.MkdirTemp("", "verif-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(work)
	sigc := make(chan os.Signal, 1)
	signal.Notify(sigc, syscall.SIGTERM, syscall.SIGINT)
	go func() { <-sigc; os.RemoveAll(work); os.Exit(2) }()

	if replay != "" {
		b, err := os.ReadFile(replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		var rf replayFile
		if err := json.Unmarshal(b, &rf); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		bin, err := buildNative(repo, vroot, work, rf.Pkg)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		r := replayAll(bin, rf.Tier, []nreq{{0, rf.Cand.Harness, rf.Cand.In}})[0]
		j, _ := json.MarshalIndent(r, "", " ")
		fmt.Println(string(j))
		if violates(r) != "" {
			fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, replay)
			return 1
		}
		return 0
	}

	checks, err := loadChecks(vroot)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var mine []Check
	for _, c := range checks {
		if c.Property == prop {
			mine = append(mine, c)
		}
	}
	if len(mine) == 0 {
		fmt.Fprintln(os.Stderr, "no such property", prop)
		return 2
	}
	var known []Known
	if b, err := os.ReadFile(filepath.Join(vroot, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &known); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	isKnown := func(tags []string) *Known {
		for i, k := range known {
			if k.Property != prop || k.Status != "finding" {
				continue
			}
			for _, t := range tags {
				if t == k.Tag {
					return &known[i]
				}
			}
		}
		return nil
	}

	// native builds run while the engine loads
	bins := map[string]string{}
	var bmu sync.Mutex
	var bwg sync.WaitGroup
	var berr error
	pk := map[string]bool{}
	var pats []string
	for _, c := range mine {
		if pk[c.Pkg] {
			continue
		}
		pk[c.Pkg] = true
		pats = append(pats, hPath+"/"+c.Pkg)
		bwg.Add(1)
		go func() {
			defer bwg.Done()
			b, err := buildNative(repo, vroot, work, c.Pkg)
			bmu.Lock()
			bins[c.Pkg] = b
			if err != nil {
				berr = err
			}
			bmu.Unlock()
		}()
	}
	eng, err := loadEngine(repo, vroot, append(pats, hPath+"/model", "unicode/utf8", "errors", "reflect"))
	bwg.Wait()
	if err == nil {
		err = berr
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		return 2
	}
	if verbose {
		fmt.Fprintf(os.Stderr, "loaded in %.1fs\n", time.Since(t0).Seconds())
	}
	// workers
	ins := make([]*Interp, nw)
	var wg sync.WaitGroup
	errs := make([]error, nw)
	for i := range ins {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ins[i] = newInterp(eng)
			ins[i].tier = tier
			errs[i] = ins[i].initStdlib()
			ins[i].sol = newSolver("z3", ins[i].tt)
			if tier == "thorough" {
				ins[i].sol.cross = newSolver("cvc5", ins[i].tt)
				ins[i].sol.crossN = 400
			}
		}()
	}
	wg.Wait()
	defer func() {
		for _, in := range ins {
			in.sol.close()
		}
	}()
	for _, e := range errs {
		if e != nil {
			fmt.Fprintln(os.Stderr, e)
			return 2
		}
	}
	if verbose {
		fmt.Fprintf(os.Stderr, "initialised in %.1fs\n", time.Since(t0).Seconds())
	}

	ev := newEvidence(prop, tier)
	violN := 0
	repDir := filepath.Join(vroot, "evidence", "replay")
	knownSeen := map[string]bool{}
	for _, c := range mine {
		for _, h := range c.Harness {
			if only != "" && only != h {
				continue
			}
			budget := c.Quick
			if tier == "thorough" {
				budget = c.Thorough
			}
			if budget == 0 {
				budget = 120
			}
			r := explore(eng, ins, c.Pkg, h, time.Duration(budget)*time.Second, maxPaths)
			if r.err != nil {
				fmt.Fprintln(os.Stderr, r.err)
				return 2
			}
			// native replay of every path
			reqs := make([]nreq, len(r.Cands))
			for i, cd := range r.Cands {
				reqs[i] = nreq{i, cd.Harness, cd.In}
			}
			res := replayAll(bins[c.Pkg], tier, reqs)
			hs := ev.harness(h, c, r)
			printed := map[string]int{}
			for i, cd := range r.Cands {
				n := res[i]
				v := violates(n)
				if v == "" && cd.Kind == "fail" {
					// map order or other native nondeterminism: try again
					rq := make([]nreq, 256)
					for j := range rq {
						rq[j] = reqs[i]
					}
					for _, n2 := range replayAll(bins[c.Pkg], tier, rq) {
						if v2 := violates(n2); v2 != "" {
							n, v = n2, v2
							break
						}
					}
				}
				if v != "" {
					if k := isKnown(n.Known); k != nil {
						hs.KnownHits++
						knownSeen[k.Tag] = true
						continue
					}
					hs.Violations++
					violN++
					if printed[v] < 2 {
						printed[v]++
						os.MkdirAll(repDir, 0o755)
						f := filepath.Join(repDir, fmt.Sprintf("%s-%s-%d.json", prop, h, i))
						b, _ := json.MarshalIndent(replayFile{prop, c.Pkg, tier, cd, n, "/verif/check replay " + f}, "", " ")
						os.WriteFile(f, b, 0o644)
						fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f)
						fmt.Printf("  harness %s: %s\n  inputs: %s\n", h, v, describe(cd))
						for _, o := range n.Obs {
							fmt.Printf("    %s\n", o)
						}
					}
					continue
				}
				switch {
				case cd.Kind == "ok":
					if n.Outcome == "ok" && (cd.Mord || eqStrings(n.Obs, cd.Obs)) {
						hs.Validated++
					} else {
						hs.mismatch(cd, n)
					}
				case cd.Kind == "fail" || cd.Kind == "panic":
					hs.NotReproduced++
					hs.mismatch(cd, n)
				default:
					hs.Incomplete++
				}
			}
			hs.finish(r)
			if verbose {
				b, _ := json.MarshalIndent(hs, "", " ")
				fmt.Fprintf(os.Stderr, "%s\n", b)
				if len(r.Cands) > 0 {
					for k := 0; k < 3; k++ {
						cd := r.Cands[len(r.Cands)*k/3]
						fmt.Fprintf(os.Stderr, "sample %s %s %v\n", describe(cd), cd.Kind, cd.Obs)
					}
				}
				fmt.Fprintf(os.Stderr, "t=%.1fs heap=%dMB\n", time.Since(t0).Seconds(), heapMB())
			}
			ev.addSamples(r, res)
		}
	}
	var kt []string
	for _, k := range known {
		if k.Property == prop && k.Status == "finding" {
			kt = append(kt, k.Tag)
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
		}
	}
	sort.Strings(kt)
	ev.finish(eng, ins, mine, violN, time.Since(t0))
	if only == "" {
		if err := ev.write(filepath.Join(vroot, "evidence", prop+".json")); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	fmt.Printf("%s %s: %s\n", prop, tier, ev.summary())
	if violN > 0 {
		return 1
	}
	return 0
}

func heapMB() int {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int(m.HeapAlloc >> 20)
}

func eqStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		// JSON replaces invalid UTF-8; compare modulo that
		if a[i] != strings.ToValidUTF8(b[i], "\ufffd") && a[i] != jsonStr(b[i]) {
			return false
		}
	}
	return true
}

func jsonStr(s string) string {
	b, _ := json.Marshal(s)
	var o string
	json.Unmarshal(b, &o)
	return o
}

// violates describes how a native run breaks the property, "" if it does not.
func violates(n nres) string {
	if len(n.Fails) > 0 {
		return n.Fails[0]
	}
	switch n.Outcome {
	case "panic":
		return "panic: " + n.Label
	case "hang":
		return "does not terminate"
	case "crash":
		return "crash: " + n.Label
	}
	return ""
}

// describe renders the inputs of a candidate.
func describe(c Candidate) string {
	var sb strings.Builder
	i := 0
	for i < len(c.In) {
		n := c.Names[i]
		if sb.Len() > 0 {
			sb.WriteString(" ")
		}
		if j := strings.IndexByte(n, '['); j >= 0 {
			base := n[:j+1]
			var b []byte
			for i < len(c.In) && strings.HasPrefix(c.Names[i], base) && (len(b) == 0 || !strings.HasSuffix(c.Names[i], "[0]")) {
				b = append(b, byte(c.In[i]))
				i++
			}
			fmt.Fprintf(&sb, "%s=%q", n[:j], b)
			continue
		}
		if !strings.HasSuffix(n, ".len") || c.In[i] == 0 {
			fmt.Fprintf(&sb, "%s=%d", n, int64(c.In[i]))
		}
		i++
	}
	return sb.String()
}

// explore runs one harness to completion or to its budget.
func explore(eng *Engine, ins []*Interp, pkg, h string, budget time.Duration, maxPaths int) *Run {
	r := &Run{eng: eng, harness: h, Viol: map[string]int{}, UnsupMsgs: map[string]int{}, Reached: map[string]int{}, MaxPaths: maxPaths}
	r.cond = sync.NewCond(&r.mu)
	sp := eng.spkg[hPath+"/"+pkg]
	if sp == nil || sp.Func(h) == nil {
		r.err = fmt.Errorf("no harness %s in %s", h, pkg)
		return r
	}
	r.deadline = time.Now().Add(budget)
	r.stack = [][]uint64{nil}
	t0 := time.Now()
	var wg sync.WaitGroup
	for i, in := range ins {
		wg.Add(1)
		w := &Worker{id: i, in: in, run: r}
		go func() {
			defer wg.Done()
			w.in.initRun(r, sp.Func(h))
			w.loop()
		}()
	}
	// wake sleepers at the deadline
	tm := time.AfterFunc(budget+50*time.Millisecond, func() { r.cond.Broadcast() })
	wg.Wait()
	tm.Stop()
	r.Wall = time.Since(t0)
	return r
}
