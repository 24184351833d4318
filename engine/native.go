package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
)

type nreq struct {
	ID      int      `json:"id"`
	Harness string   `json:"harness"`
	In      []uint64 `json:"in"`
}

type nres struct {
	ID      int      `json:"id"`
	Outcome string   `json:"outcome"`
	Label   string   `json:"label"`
	Fails   []string `json:"fails"`
	Obs     []string `json:"obs"`
	Known   []string `json:"known"`
	Used    int      `json:"used"`
}

var hfuncRe = regexp.MustCompile(`(?m)^func (H\w+)\(\) \{`)

// harnessFuncs lists the harness entry points of a harness package.
func harnessFuncs(vroot, pkg string) []string {
	var out []string
	files, _ := filepath.Glob(filepath.Join(vroot, "harness", pkg, "*.go"))
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, m := range hfuncRe.FindAllSubmatch(b, -1) {
			out = append(out, string(m[1]))
		}
	}
	sort.Strings(out)
	return out
}

// buildNative compiles the replay binary of a harness package against the repo's working tree.
func buildNative(repo, vroot, work, pkg string) (string, error) {
	rep := map[string]string{}
	for rel := range overlayFiles(vroot) {
		rep[filepath.Join(repo, "internal/zzverif", rel)] = filepath.Join(vroot, "harness", rel)
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "package main\n\nimport (\n\th %q\n\t%q\n)\n\nfunc main() {\n\tsym.Main(map[string]func(){\n", hPath+"/"+pkg, hPath+"/sym")
	for _, f := range harnessFuncs(vroot, pkg) {
		fmt.Fprintf(&sb, "\t\t%q: h.%s,\n", f, f)
	}
	sb.WriteString("\t})\n}\n")
	mainf := filepath.Join(work, "main_"+pkg+".go")
	if err := os.WriteFile(mainf, []byte(sb.String()), 0o644); err != nil {
		return "", err
	}
	rep[filepath.Join(repo, "internal/zzverif/run_"+pkg, "main.go")] = mainf
	ovf := filepath.Join(work, "overlay_"+pkg+".json")
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	os.WriteFile(ovf, b, 0o644)
	bin := filepath.Join(work, "run_"+pkg)
	cmd := exec.Command("go", "build", "-overlay", ovf, "-o", bin, "./internal/zzverif/run_"+pkg)
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=readonly", "GOPROXY=off")
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build: %v\n%s", err, out)
	}
	return bin, nil
}

// replayAll runs the requests natively with several processes.
func replayAll(bin, tier string, reqs []nreq) []nres {
	res := make([]nres, len(reqs))
	var mu sync.Mutex
	next := 0
	const chunk = 64
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				lo := next
				hi := lo + chunk
				if hi > len(reqs) {
					hi = len(reqs)
				}
				next = hi
				mu.Unlock()
				if lo >= hi {
					return
				}
				replayChunk(bin, tier, reqs[lo:hi], res[lo:hi])
			}
		}()
	}
	wg.Wait()
	return res
}

func replayChunk(bin, tier string, reqs []nreq, res []nres) {
	i := 0
	for i < len(reqs) {
		n := replayProc(bin, tier, reqs[i:], res[i:])
		i += n
	}
}

// replayProc feeds one process until it ends; it returns how many requests were answered (≥1).
func replayProc(bin, tier string, reqs []nreq, res []nres) int {
	cmd := exec.Command(bin, tier)
	cmd.Dir = os.TempDir()
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single")
	pr, pw, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	cmd.ExtraFiles = []*os.File{pw}
	var stderr bytes.Buffer
	cmd.Stderr = &limitWriter{w: &stderr, n: 1 << 16}
	var inb bytes.Buffer
	for _, r := range reqs {
		b, _ := json.Marshal(r)
		inb.Write(b)
		inb.WriteByte('\n')
	}
	cmd.Stdin = &inb
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	pw.Close()
	timer := time.AfterFunc(time.Duration(30+len(reqs)*11)*time.Second, func() { cmd.Process.Kill() })
	rd := bufio.NewReaderSize(pr, 1<<20)
	n := 0
	for {
		l, err := rd.ReadBytes('\n')
		if len(l) > 1 {
			var r nres
			if json.Unmarshal(l, &r) == nil && n < len(res) {
				res[n] = r
				n++
			}
		}
		if err != nil {
			break
		}
	}
	pr.Close()
	cmd.Wait()
	timer.Stop()
	if n < len(reqs) {
		if n > 0 && res[n-1].Outcome == "hang" {
			return n
		}
		s := stderr.String()
		if len(s) > 300 {
			s = s[:300]
		}
		res[n] = nres{ID: reqs[n].ID, Outcome: "crash", Label: s}
		n++
	}
	return n
}

type limitWriter struct {
	w io.Writer
	n int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	if l.n > 0 {
		q := p
		if len(q) > l.n {
			q = q[:l.n]
		}
		l.w.Write(q)
		l.n -= len(q)
	}
	return len(p), nil
}
