// Package sym is the nondeterminism interface of the verification harnesses.
// Under the symbolic engine every function here is intercepted; compiled natively
// it reads a recorded assignment, so that each path and counterexample can be replayed
// against the real build.
package sym

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime/debug"
	"strings"
	"syscall"
	"time"
)

type assumeFailed struct{}

type state struct {
	in    []uint64
	pos   int
	fails []string
	obs   []string
	known []string
	short bool
}

var cur *state
var tier int

func take() uint64 {
	s := cur
	if s.pos >= len(s.in) {
		s.short = true
		panic(assumeFailed{})
	}
	v := s.in[s.pos]
	s.pos++
	return v
}

// Tier is 0 for quick, 1 for thorough.
func Tier() int { return tier }

// Bound selects a bound by tier.
func Bound(quick, thorough int) int {
	if Tier() > 0 {
		return thorough
	}
	return quick
}

// Choose forks into n concrete cases.
func Choose(name string, n int) int { return int(take()) }

func Bool(name string) bool     { return take() != 0 }
func Byte(name string) byte     { return byte(take()) }
func Int64(name string) int64   { return int64(take()) }
func Uint64(name string) uint64 { return take() }
func Int(name string) int       { return int(take()) }
func Int32(name string) int32   { return int32(take()) }
func Uint32(name string) uint32 { return uint32(take()) }
func Int16(name string) int16   { return int16(take()) }
func Uint16(name string) uint16 { return uint16(take()) }

// String is an arbitrary string of at most max bytes over the alphabet ("" = all bytes).
func String(name string, max int, alphabet string) string {
	return StringN(name, int(take()), alphabet)
}

// StringN is an arbitrary string of exactly n bytes over the alphabet.
func StringN(name string, n int, alphabet string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(take())
	}
	return string(b)
}

// Assume restricts the inputs.
func Assume(b bool) {
	if !b {
		panic(assumeFailed{})
	}
}

// Assert states the property.
func Assert(b bool, label string) {
	if !b {
		cur.fails = append(cur.fails, label)
	}
}

// Fail is an unconditional violation.
func Fail(label string) { cur.fails = append(cur.fails, label) }

// Reach is a non-vacuity witness.
func Reach(label string) {}

func Observe(label string, s string) { cur.obs = append(cur.obs, label+"="+s) }
func ObserveInt(label string, v int) { cur.obs = append(cur.obs, fmt.Sprintf("#%s=%d", label, v)) }
func ObserveBool(label string, b bool) {
	v := 0
	if b {
		v = 1
	}
	cur.obs = append(cur.obs, fmt.Sprintf("#%s=%d", label, v))
}

// Known tags the rest of the run as lying in the region of a recorded finding.
func Known(tag string) { cur.known = append(cur.known, tag) }

// Symbolic reports whether the engine is running.
func Symbolic() bool { return false }

var terminal *os.File

// Terminal is a file which is a terminal.
func Terminal() *os.File {
	if terminal == nil {
		f, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
		if err != nil {
			panic(err)
		}
		terminal = f
	}
	return terminal
}

// MapOrder makes map iteration order nondeterministic.
func MapOrder(on bool) {}

// Split forks on a condition.
func Split(b bool) bool { return b }

func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }

type request struct {
	ID      int      `json:"id"`
	Harness string   `json:"harness"`
	In      []uint64 `json:"in"`
}

type result struct {
	ID      int      `json:"id"`
	Outcome string   `json:"outcome"`
	Label   string   `json:"label"`
	Fails   []string `json:"fails"`
	Obs     []string `json:"obs"`
	Known   []string `json:"known"`
	Used    int      `json:"used"`
}

func runOne(h func(), rq request) (res result) {
	os.Clearenv()
	os.Args = []string{"app"}
	cur = &state{in: rq.In}
	res.ID = rq.ID
	res.Outcome = "ok"
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(assumeFailed); ok {
				res.Outcome = "assume"
				if cur.short {
					res.Outcome = "short"
				}
			} else {
				res.Outcome = "panic"
				res.Label = fmt.Sprint(e)
				if os.Getenv("SYMTRACE") != "" || traceOn {
					debug.PrintStack()
				}
			}
		}
		res.Fails, res.Obs, res.Known, res.Used = cur.fails, cur.obs, cur.known, cur.pos
	}()
	h()
	return
}

var traceOn bool

// Main is the native replay loop.
func Main(hs map[string]func()) {
	debug.SetMaxStack(64 << 20)
	debug.SetMemoryLimit(2 << 30)
	if len(os.Args) > 1 && os.Args[1] == "thorough" {
		tier = 1
	}
	traceOn = os.Getenv("SYMTRACE") != ""
	out := os.NewFile(3, "results")
	if out == nil || strings.Contains(strings.Join(os.Args, " "), "stdout") {
		out = os.Stdout
	}
	rd := bufio.NewReaderSize(os.Stdin, 1<<20)
	w := bufio.NewWriter(out)
	for {
		line, err := rd.ReadBytes('\n')
		if len(line) > 1 {
			var rq request
			if e := json.Unmarshal(line, &rq); e != nil {
				panic(e)
			}
			h := hs[rq.Harness]
			done := make(chan result, 1)
			go func() { done <- runOne(h, rq) }()
			var res result
			select {
			case res = <-done:
			case <-time.After(10 * time.Second):
				res = result{ID: rq.ID, Outcome: "hang"}
			}
			b, _ := json.Marshal(res)
			w.Write(b)
			w.WriteByte('\n')
			w.Flush()
			if res.Outcome == "hang" {
				os.Exit(3)
			}
		}
		if err == io.EOF || err != nil {
			return
		}
	}
}
