#!/usr/bin/env python3
"""plant.py SPEC.json: make a planted bug from edits, confirm it, and try the check on it.

SPEC: {"id","property","needs","what_it_breaks","edits":[[file,old,new],...],"demo":"go source of package main"}
plant.py -check [ID...]: run the check of each planted bug against it (in a scratch copy) and report.
"""
import json, os, subprocess, sys, shutil, time
V = "/verif"
ENV = dict(os.environ)
DEMO = '''#!/bin/bash
# builds and runs demo.go against the tree in the current directory
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%s/internal/zzdemo/main.go":"%s/demo.go"}}' "$PWD" "$D" > "$T/ov.json"
GOFLAGS=-mod=readonly go build -overlay "$T/ov.json" -o "$T/demo" ./internal/zzdemo || exit 2
cd "$T" && exec timeout 60 ./demo
'''

def sh(cmd, cwd=None, timeout=900):
    return subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + cmd], cwd=cwd, capture_output=True, text=True, timeout=timeout)

def record(i, prop, rc, out):
    p = f"{V}/tools/caught.json"
    d = json.load(open(p)) if os.path.exists(p) else {}
    d[i] = prop if rc == 1 and out else "missed"
    json.dump(d, open(p, "w"), indent=1, sort_keys=True)

def scratch(i):
    wt = f"/tmp/wt-{i}"
    shutil.rmtree(wt, ignore_errors=True)
    sh(f"cp -a /repo {wt}")
    sh("git checkout -q -- . && git clean -fdq", wt)
    return wt

def check(i, prop, wt):
    t = time.time()
    r = sh(f"{V}/check {prop} -repo {wt}", V)
    out = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
    return r.returncode, out[:1], time.time() - t, r

HEAD = """package main

import (
	"fmt"
	"os"
%s)

func die(a ...any) { fmt.Println(a...); os.Exit(1) }

"""

def parse(path):
    """id:/property:/needs:/breaks: lines, then edits (@@ file, old, ====, new) and a demo (@@ demo, @import lines, go)."""
    s = {"edits": []}
    head, *secs = open(path).read().split("\n@@ ")
    names = {"breaks": "what_it_breaks"}
    for l in head.splitlines():
        k, v = l.split(": ", 1)
        s[names.get(k, k)] = v
    for sec in secs:
        f, body = sec.split("\n", 1)
        if f == "demo":
            imps = ["context", "io", "cli github.com/Carbonfrost/joe-cli"]
            src = []
            for l in body.splitlines():
                if l.startswith("@import "):
                    imps.append(l[8:])
                else:
                    src.append(l)
            src = "\n".join(src) + "\n"
            il = ""
            for i in imps:
                n = i.split()[0] if " " in i else i.split("/")[-1]
                if n + "." in src:
                    il += "\t" + (n + " " if " " in i else "") + '"' + i.split()[-1] + '"\n'
            s["demo"] = HEAD % il + src
        else:
            old, new = body.split("\n====\n")
            s["edits"].append([f, old.strip("\n"), new.strip("\n")])
    return s

def main():
    if sys.argv[1] == "-check":
        ids = sys.argv[2:] or sorted(os.listdir(f"{V}/seeded"))
        for i in ids:
            m = json.load(open(f"{V}/seeded/{i}/meta.json"))
            wt = scratch(i)
            a = sh(f"git apply {V}/seeded/{i}/patch.diff", wt)
            if a.returncode:
                print(i, "PATCH DOES NOT APPLY", a.stderr)
                continue
            rc, out, t, r = check(i, m["property"], wt)
            record(i, m["property"], rc, out)
            print(i, m["property"], "CAUGHT" if rc == 1 and out else f"MISSED rc={rc} {r.stderr[-300:]}", f"{t:.0f}s", flush=True)
            shutil.rmtree(wt)
        return
    for path in sys.argv[1:]:
        s = parse(path)
        i = s["id"]
        d = f"{V}/seeded/{i}"
        wt = scratch(i)
        bad = None
        for f, old, new in s["edits"]:
            p = os.path.join(wt, f)
            t = open(p).read()
            if t.count(old) != 1:
                bad = f"{f}: {t.count(old)} matches of {old[:60]!r}"
                break
            open(p, "w").write(t.replace(old, new))
        if bad:
            print(i, "EDIT", bad); continue
        os.makedirs(d, exist_ok=True)
        open(f"{d}/demo.go", "w").write(s["demo"])
        open(f"{d}/demo.sh", "w").write(DEMO)
        os.chmod(f"{d}/demo.sh", 0o755)
        json.dump({k: s[k] for k in ("property", "needs", "what_it_breaks")}, open(f"{d}/meta.json", "w"), indent=1)
        diff = sh("git diff", wt).stdout
        open(f"{d}/patch.diff", "w").write(diff)
        r = sh("go build ./... && go vet ./internal/... >/dev/null; go test -vet=off -count=1 ./... 2>&1 | grep -v '^ok\\|no test files' | tail -30", wt)
        tests = r.stdout.strip()
        if r.returncode and not tests:
            tests = r.stderr
        c = sh(f"bash {d}/demo.sh", "/repo")
        b = sh(f"bash {d}/demo.sh", wt)
        rc, out, t, r = check(i, s["property"], wt)
        record(i, s["property"], rc, out)
        ok = not tests and c.returncode == 0 and b.returncode not in (0, 2)
        print(i, "VALID" if ok else "INVALID", "CAUGHT" if rc == 1 and out else f"MISSED rc={rc}", f"{t:.0f}s")
        if not ok:
            print("  tests:", tests[-1500:], "\n  clean:", c.returncode, c.stdout[-300:], c.stderr[-500:], "\n  patched:", b.returncode, b.stdout[-300:], b.stderr[-500:])
        if rc not in (0, 1):
            print(r.stdout[-500:], r.stderr[-1500:])
        shutil.rmtree(wt)

main()
