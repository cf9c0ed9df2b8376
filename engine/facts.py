#!/usr/bin/env python3
"""Rebuilds the fact base: mirrors /repo's Rust workspace, type-checks it with the mirdump wrapper and
leaves one JSON file of MIR per crate in <work>/facts/<key>/.  The key is a hash of the mirrored sources, the
driver's sources and this file, so facts always describe the current working tree."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("AQ_REPO", "/repo")
WORK = os.environ.get("AQ_WORK") or os.path.join(VERIF, ".work")
TC = "nightly-2024-12-15"

OMIT = ("crates/aquascope/src/interpreter/",)
EDITS = {
    "crates/aquascope/Cargo.toml": [(r"(?m)^miri *=.*\n", "")],
    "crates/aquascope/src/lib.rs": [
        (r"(?m)^(#\[allow\(clippy::similar_names\)\]\n)?pub mod interpreter;\n", "")],
    "crates/aquascope/src/test_utils.rs": [
        (r"(?m)^  interpreter::\{self, MTrace\},\n", ""),
        (r"(?ms)^pub fn test_interpreter_in_file\(.*?^\}\n", ""),
        (r"crate::interpreter::override_queries", "borrowck_facts::override_queries")],
    "crates/aquascope_front/src/plugin.rs": [
        (r"(?ms)^      Interpreter \{ \.\. \} => \{.*?^      \}\n", "")],
}
EXPECT = ["aquascope-lib", "aquascope_front-lib", "aquascope_driver-bin", "cargo_aquascope-bin",
          "aquascope_serve-bin", "aquascope_workspace_utils-lib", "mdbook_aquascope-lib", "mdbook_aquascope-bin"]


def env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUSTC"))}
    e.pop("RUSTFLAGS", None)
    e["PATH"] = "/usr/local/bin:/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    sysroot = subprocess.check_output(["rustc", "+" + TC, "--print", "sysroot"], text=True, env=e).strip()
    e.update(RUSTUP_TOOLCHAIN=TC, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never",
             CARGO_PROFILE_DEV_DEBUG="0", CARGO_PROFILE_DEV_OVERFLOW_CHECKS="false",
             CARGO_PROFILE_DEV_DEBUG_ASSERTIONS="false",
             LD_LIBRARY_PATH=sysroot + "/lib" + (":" + e["LD_LIBRARY_PATH"] if e.get("LD_LIBRARY_PATH") else ""))
    return e


def sources():
    """rel path -> content of what is mirrored."""
    rels = [f for f in ("Cargo.toml", "Cargo.lock", "rust-toolchain.toml") if os.path.exists(f"{REPO}/{f}")]
    for root, dirs, files in os.walk(f"{REPO}/crates"):
        dirs[:] = sorted(d for d in dirs if d not in ("target", "bindings", "node_modules", "tests", "js"))
        for f in sorted(files):
            rels.append(os.path.relpath(os.path.join(root, f), REPO))
    out = {}
    for rel in rels:
        if rel.startswith(OMIT):
            continue
        p = f"{REPO}/{rel}"
        if os.path.islink(p) and not os.path.exists(p):
            continue
        data = open(p, "rb").read()
        for pat, repl in EDITS.get(rel, ()):
            data = re.sub(pat.encode(), repl.encode(), data)
        out[rel] = data
    out["crates/mdbook-aquascope/js/embed.iife.js"] = b"/* stand-in asset */\n"
    out["crates/mdbook-aquascope/js/style.css"] = b"/* stand-in asset */\n"
    return out


def put(path, data):
    try:
        if open(path, "rb").read() == data:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def build_driver(e):
    exe = f"{WORK}/driver/debug/mirdump"
    r = subprocess.run(["cargo", "build", "--offline", "--manifest-path", f"{VERIF}/driver/Cargo.toml",
                        "--target-dir", f"{WORK}/driver"], env=e, cwd=f"{VERIF}/driver",
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise SystemExit("mirdump does not build:\n" + r.stdout[-4000:])
    return exe


class BuildFailed(Exception):
    pass


def facts_dir():
    os.makedirs(WORK, exist_ok=True)
    src = sources()
    h = hashlib.sha256()
    for rel in sorted(src):
        h.update(rel.encode() + b"\0" + hashlib.sha256(src[rel]).digest())
    for p in ("driver/src/main.rs", "driver/src/dump.rs", "driver/src/json.rs", "engine/facts.py"):
        h.update(open(f"{VERIF}/{p}", "rb").read())
    key = h.hexdigest()[:24]
    out = f"{WORK}/facts/{key}"
    with open(f"{WORK}/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(f"{out}/OK"):
            return out
        e = env()
        exe = build_driver(e)
        ws = f"{WORK}/ws"
        lock = src.pop("Cargo.lock", None)
        for rel, data in src.items():
            put(f"{ws}/{rel}", data)
        if lock is not None:
            seen = f"{ws}/.Cargo.lock.repo"
            old = open(seen, "rb").read() if os.path.exists(seen) else None
            if old != lock or not os.path.exists(f"{ws}/Cargo.lock"):
                put(seen, lock)
                put(f"{ws}/Cargo.lock", lock)
        keep = set(src)
        for root, dirs, files in os.walk(f"{ws}/crates"):
            for f in files:
                p = os.path.join(root, f)
                if os.path.relpath(p, ws) not in keep and not p.endswith("Cargo.lock"):
                    os.remove(p)
        # the wrapper must run on every workspace crate, whatever cargo thinks of freshness
        tmp = f"{WORK}/facts/.tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        e2 = dict(e, RUSTC_WORKSPACE_WRAPPER=exe, MIRDUMP_OUT=tmp, CARGO_TARGET_DIR=f"{WORK}/target")
        members = ["aquascope", "aquascope_front", "aquascope_serve", "aquascope_workspace_utils", "mdbook-aquascope"]
        for m in members:
            for fn in ("src/lib.rs", "src/main.rs", "src/bin"):
                p = f"{ws}/crates/{m}/{fn}"
                if os.path.isdir(p):
                    for q in os.listdir(p):
                        os.utime(f"{p}/{q}")
                elif os.path.exists(p):
                    os.utime(p)
        r = subprocess.run(["cargo", "check", "--offline", "--workspace", "--lib", "--bins"], cwd=ws, env=e2,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildFailed(r.stdout[-6000:])
        have = {f[:-5] for f in os.listdir(tmp) if f.endswith(".json")}
        missing = [x for x in EXPECT if x not in have]
        if missing:
            raise BuildFailed("no facts for " + ", ".join(missing) + "\n" + r.stdout[-3000:])
        open(f"{tmp}/OK", "w").write("ok\n")
        for old in os.listdir(f"{WORK}/facts"):
            if old != ".tmp":
                shutil.rmtree(f"{WORK}/facts/{old}", ignore_errors=True)
        os.rename(tmp, out)
        return out


if __name__ == "__main__":
    t = time.time()
    d = facts_dir()
    print(d, f"{time.time()-t:.1f}s", sorted(os.listdir(d)))
