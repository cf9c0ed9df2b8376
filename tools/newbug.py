#!/usr/bin/env python3
"""Make /verif/seeded/<id> from a bug description (development only).
newbug.py BUGS.py [ID...]: BUGS = [dict(id, prop, edits=[(file, old, new)], crate, into, demo, needs, breaks)]
Writes patch.diff, demo.sh, demo.rs, meta.json, and tries it: build, stable tests, demo with and without."""
import json, os, runpy, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# Runs demo.rs as an extra unit test of {crate} in a scratch mirror of the workspace.
HERE=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
D=/tmp/aq_demo_{id}
rm -rf /tmp/aq_demo_{id}
mkdir -p $D/target/debug
cp -a /opt/vp/work/ws $D/ws
for d in deps build .fingerprint; do cp -a /opt/vp/work/target/debug/$d $D/target/debug/; done
printf '\\n' >> "$D/ws/crates/{into}"
cat "$HERE/demo.rs" >> "$D/ws/crates/{into}"
cd $D/ws
CARGO_INCREMENTAL=0 CARGO_TARGET_DIR=$D/target timeout 280 cargo test -p {crate} --lib --offline -- --exact --test-threads 1 {name} > $D/log 2>&1
r=$?
tail -n 40 $D/log
grep -q '^test {name} ' $D/log || r=3
rm -rf /tmp/aq_demo_{id}
exit $r
"""
sh = lambda c, **k: subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
bugs = runpy.run_path(sys.argv[1])["BUGS"]
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
for b in bugs:
    if sys.argv[2:] and b["id"] not in sys.argv[2:]:
        continue
    d = f"{V}/seeded/{b['id']}"
    os.makedirs(d, exist_ok=True)
    assert sh("git -C /repo status --porcelain").stdout == "", "dirty"
    try:
        for f, old, new in b["edits"]:
            p = f"/repo/crates/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        open(f"{d}/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        if "demosh" in b:
            open(f"{d}/demo.sh", "w").write(b["demosh"].replace("{id}", b["id"]))
        else:
            open(f"{d}/demo.rs", "w").write(b["demo"])
            open(f"{d}/demo.sh", "w").write(DEMO.replace("{id}", b["id"]).replace("{crate}", b["crate"]).replace("{into}", b["into"]).replace("{name}", b["name"]))
        for n, t in b.get("files", {}).items():
            open(f"{d}/{n}", "w").write(t)
        os.chmod(f"{d}/demo.sh", 0o755)
        r = sh("bash /opt/vp/build.sh")
        if r.returncode:
            print(b["id"], "BUILD FAILS", r.stdout[-3000:])
            continue
        sh("bash /opt/vp/test.sh /tmp/t.json")
        failed = stable - set(json.load(open("/tmp/t.json"))["passed"])
        if failed:
            print(b["id"], "TESTS FAIL", sorted(failed)[:5])
            continue
        r = sh(f"bash {d}/demo.sh", cwd="/repo")
        print(b["id"], "demo with patch:", r.returncode, "" if r.returncode not in (0, 3) else r.stdout[-3000:])
        c = sh(f"python3 {V}/engine/run.py {b['prop']}")
        print(b["id"], "check:", c.returncode, [l[:300] for l in c.stdout.splitlines() if "VIOLATION" in l or l.startswith(b["prop"])][:4])
    finally:
        sh("git -C /repo checkout -- .")
    sh("bash /opt/vp/build.sh")
    r = sh(f"bash {d}/demo.sh", cwd="/repo")
    print(b["id"], "demo without:", r.returncode, "" if r.returncode == 0 else r.stdout[-3000:])
