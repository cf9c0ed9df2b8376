#!/usr/bin/env python3
"""Apply edits to a scratch copy of the repository and say which checks alarm (development only).
trial.py CASES.py [NAME...]   CASES: list of (name, file, old, new)[, more (file, old, new)...]
With no NAME all cases are applied together."""
import os, re, subprocess, sys, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
import runpy
cases = runpy.run_path(sys.argv[1])["CASES"]
names = sys.argv[2:]
dst = "/tmp/trial"
subprocess.run(["mkdir", "-p", dst])
subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", "node_modules", "--exclude", ".git", os.environ.get("AQ_SRC", "/repo") + "/", dst + "/"], check=True)
for c in cases:
    if names and c[0] not in names:
        continue
    for f, old, new in [c[1:4]] + list(c[4:]):
        p = f"{dst}/crates/{f}"
        s = open(p).read()
        if old not in s:
            s = re.sub(r"(?m)^ *//.*\n", "", s)
        if old not in s:
            print("NOT FOUND", c[0], old[:60].replace("\n", "|"))
            continue
        open(p, "w").write(s.replace(old, new, 1))
os.environ["AQ_REPO"] = dst
os.environ["AQ_WORK"] = "/tmp/trialwork"
from facts import facts_dir, BuildFailed
from mirfacts import Facts
try:
    d = facts_dir()
except BuildFailed as e:
    print(str(e)[-4000:])
    sys.exit(2)
from summary import *
import anchors, store, compare, run
F = Facts(d)
ix = Index(F)
done = {}
for pid in anchors.parse():
    out = run.Out(pid)
    run.refs(out, pid, F, ix, "quick")
    import rules
    if hasattr(rules, pid):
        getattr(rules, pid)(rules.Ctx(F, ix, out, "quick"))
    for k, t in out.open:
        print("  undecided", pid, k, t[:200])
    for k, t in out.viol:
        if (k, t) in done:
            continue
        done[(k, t)] = 1
        print(pid, k, "::", t[:700])
print("alarms:", len(done))
