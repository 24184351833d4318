#!/usr/bin/env python3
"""dev.py PKG HARNESS[,HARNESS...] [engine args]: run harnesses without registering a property."""
import json, os, subprocess, sys, tempfile
pkg, hs = sys.argv[1], sys.argv[2].split(",")
d = json.load(open("/verif/checks.json"))
d = [e for e in d if e["property"] != "DEV"] + [{"property": "DEV", "pkg": pkg, "harness": hs, "bounds": "dev", "quick_s": 600, "thorough_s": 3000}]
t = tempfile.mkdtemp(prefix="symdev")
subprocess.run(["cp", "-r", "/verif/harness", f"{t}/harness"])
for n in ("engine", "bin", "known_findings.json"):
    os.symlink(f"/verif/{n}", f"{t}/{n}")
os.mkdir(f"{t}/evidence")
json.dump(d, open(f"{t}/checks.json", "w"))
env = dict(os.environ); env.pop("GOFLAGS", None); env.pop("GOROOT", None)
r = subprocess.run([f"/verif/bin/symgo", "-verif", t, "-prop", "DEV", *sys.argv[3:]], env=env)
if os.environ.get("KEEP"):
    print(t)
else:
    subprocess.run(["rm", "-rf", t])
sys.exit(r.returncode)
