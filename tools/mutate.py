#!/usr/bin/env python3
"""Small edits to every analysed source line, each tried on its own (development only).
mutate.py list            print the mutants
mutate.py run N [REGEX]   N workers; results appended to /tmp/mut.log (name, verdict)"""
import json, os, re, subprocess, sys, random, multiprocessing
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/crates"
OPS = [
    (r"&&", "||"), (r"\|\|(?! *\{| *[a-z(]+[^|]*\|)", "&&"), (r"==", "!="), (r"!=", "=="), (r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "),
    (r" < ", " > "), (r"\+ 1\b", "+ 2"), (r"- 1\b", "- 2"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"is_some\(", "is_none("),
    (r"is_none\(", "is_some("), (r"is_empty\(", "len().gt(&0) || !self::std::convert::identity("), (r"\.any\(", ".all("), (r"\.all\(", ".any("),
    (r"\.min_by_key\(", ".max_by_key("), (r"\.max_by_key\(", ".min_by_key("), (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\.first\(", ".last("),
    (r"\.last\(", ".first("), (r"\.lo\b", ".hi"), (r"\.hi\b", ".lo"), (r"\.start\b", ".end"), (r"\.end\b", ".start"), (r"\.read\b", ".write"),
    (r"\.write\b(?!\()", ".drop"), (r"\.drop\b(?!\()", ".read"), (r"\bread:", "read: false && "), (r"\bif !", "if "), (r"\bif (?!let|!)", "if !"),
    (r"return (?!true|false|;)", "return Default::default(); return "), (r"start_index", "mid_index"), (r"entry_location", "exit_location"),
    (r"exit_location", "entry_location"), (r"get_node_entry", "get_node_exit"), (r"\bSome\(", "None::<()>.and("), (r"\bNot\b", "Mut"),
    (r"\.rev\(\)", ""), (r"\.skip\(1\)", ""), (r"\.skip\((.*?)\)", ".take(1)"), (r"\.flatten\(\)", ".take(1).flatten()"), (r"\.filter\(\|", ".filter(|_| true).filter(|"),
    (r"\.chain\(", ".zip("), (r"\.dedup\(\)", ".len()"), (r"\.unwrap_or\(", ".xor(None).unwrap_or("), (r"\?;", ".ok();"), (r"\bfrom\b", "to"), (r"\bto\b", "from"),
    (r"\bentry\b", "exit"), (r"\bexit\b", "entry"), (r"dominates", "post_dominates"), (r"post_dominates", "dominates"), (r"\bLow\b", "High"), (r"\bHigh\b", "Low"),
    (r"\+=", "-="), (r"\|=", "&="), (r"&=", "|="), (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"), (r"union", "intersect"), (r"insert\(", "remove(&"),
    (r"\.pop\(\)", ".last().cloned()"), (r"\b2\b", "3"), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\bread\b", "write"), (r"\bwrite\b", "drop"), (r"\bdrop\b", "read"),
    (r"\bbefore\b", "after"), (r"\bafter\b", "before"), (r'"([a-zA-Z][^"]*)"', '"x\\1"'), (r"\.clone\(\)", ".clone().clone().to_owned()"),
]
SKIPF = ("test_utils.rs", "export-ts", "/interpreter/", "build.rs", "/tests/")
SKIPL = re.compile(r"^\s*(//|log::|use |#\[|pub mod|mod |\*|debug_assert|assert)|log::|^\s*(pub )?(struct|enum|type|trait)\b|^\s*(pub(\([a-z]+\))? )?fn ")


def mutants():
    out = []
    for root, ds, fs in os.walk(SRC):
        ds[:] = sorted(d for d in ds if d not in ("target", "tests", "js", "bindings", "node_modules", "interpreter"))
        for f in sorted(fs):
            p = os.path.join(root, f)
            if not f.endswith(".rs") or any(x in p for x in SKIPF):
                continue
            rel = os.path.relpath(p, SRC)
            lines = open(p).read().split("\n")
            for i, l in enumerate(lines):
                if "cfg(test)" in l:
                    break
                if SKIPL.search(l) or not l.strip():
                    continue
                seen = {l}
                for pat, rep in OPS:
                    for m in re.finditer(pat, l):
                        n = l[:m.start()] + m.expand(rep) + l[m.end():]
                        if n not in seen:
                            seen.add(n)
                            out.append((rel, i, l, n))
                # drop a one-line statement
                if re.match(r"^\s*[a-z][\w.:]*.*\);\s*$", l) and not re.match(r"^\s*(let|return)\b", l) and l.count("(") == l.count(")"):
                    out.append((rel, i, l, re.match(r"\s*", l).group() + ";"))
                if re.match(r"^\s*[a-z][\w.]* [-+|&]?= .*;\s*$", l):
                    out.append((rel, i, l, re.match(r"\s*", l).group() + ";"))
    return out


def work(a):
    i, ms = a
    dst, wk = f"/tmp/mut/{i}", f"/tmp/mut/w{i}"
    os.makedirs(dst, exist_ok=True)
    if not os.path.exists(wk):
        subprocess.run(["cp", "-a", V + "/.work", wk])
        subprocess.run(["rm", "-rf", wk + "/facts"])
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", "node_modules", "--exclude", ".git", "/repo/", dst + "/"], check=True)
    for rel, ln, old, new in ms:
        p = f"{dst}/crates/{rel}"
        lines = open(p).read().split("\n")
        assert lines[ln] == old
        lines[ln] = new
        open(p, "w").write("\n".join(lines))
        r = subprocess.run([sys.executable, __file__, "one"], env=dict(os.environ, AQ_REPO=dst, AQ_WORK=wk), text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        lines[ln] = old
        open(p, "w").write("\n".join(lines))
        v = r.stdout.strip().splitlines()[-1:] or ["?"]
        with open("/tmp/mut.log", "a") as f:
            f.write(f"{v[0][:300]}\t{rel}:{ln+1}\t{old.strip()[:90]}\t=>\t{new.strip()[:90]}\n")


def one():
    sys.path.insert(0, V + "/engine")
    from facts import facts_dir, BuildFailed
    try:
        d = facts_dir()
    except BuildFailed:
        print("nocompile")
        return
    from mirfacts import Facts
    from summary import Index
    import anchors, run, rules, hashlib, glob
    h = hashlib.sha256()
    base = os.environ.get("AQ_BASE")
    F = Facts(d)
    ix = Index(F)
    known = {(k["property"], k["key"]) for k in json.load(open(V + "/known_findings.json"))["findings"]}
    caught, und = {}, []
    import signal
    for pid in anchors.parse():
        out = run.Out(pid)
        run.refs(out, pid, F, ix, "quick")
        signal.alarm(0)
        if hasattr(rules, pid):
            getattr(rules, pid)(rules.Ctx(F, ix, out, "quick"))
        for k, t in out.open:
            und.append(f"{pid}:{k}")
        for k, t in out.viol:
            if (pid, k) not in known:
                caught[pid] = k
    if caught:
        print("caught " + " ".join(caught))
    else:
        print("SURVIVED" + (" undecided " + " ".join(und) if und else ""))


if __name__ == "__main__":
    if sys.argv[1] == "one":
        one()
    else:
        ms = mutants()
        if sys.argv[1] == "list":
            for m in ms:
                print(*m, sep="\t")
            sys.exit()
        n = int(sys.argv[2])
        if len(sys.argv) > 3:
            ms = [m for m in ms if re.search(sys.argv[3], f"{m[0]}:{m[1]+1} {m[2]}")]
        random.Random(1).shuffle(ms)
        import itertools
        done = set(re.findall(r"\t(\S+:\d+)\t(.*?)\t=>\t(.*)", open("/tmp/mut.log").read())) if os.path.exists("/tmp/mut.log") else set()
        ms = [m for m in ms if (f"{m[0]}:{m[1]+1}", m[2].strip()[:90], m[3].strip()[:90]) not in done and "permissions/utils.rs" not in m[0]]
        ps = [multiprocessing.Process(target=work, args=((i, ms[i::n]),)) for i in range(n)]
        for p in ps:
            p.start()
        for p in ps:
            p.join()
