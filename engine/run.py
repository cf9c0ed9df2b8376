#!/usr/bin/env python3
"""Decide one property on /repo's current working tree: run.py ID [--tier quick|thorough]
exit 0: held on everything analysed; exit 1 with a VIOLATION line otherwise."""
import json, os, signal, sys, time, traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "engine"))
EVID = os.path.join(HERE, "evidence")


class Out:
    def __init__(self, pid):
        self.pid = pid
        self.viol = []          # (key, text)
        self.done = []          # obligations discharged
        self.cover = {}
        self.funcs = {}         # function -> number of contexts it was analysed in
        self.events = 0
        self.notes = []
        self.open = []          # (key, why): not decided on this tree

    def note(self, t):
        self.notes.append(t)

    def undecided(self, key, why):
        self.open.append((key, why))

    def ok(self, key, what=""):
        self.done.append((key, what))

    def bad(self, key, text):
        self.viol.append((key, text))

    def check(self, key, cond, text):
        (self.ok(key, text) if cond else self.bad(key, text))


def timeout(*a):
    raise TimeoutError("analysis budget exhausted")


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    t0 = time.time()
    out = Out(pid)
    try:
        from facts import facts_dir, BuildFailed
        try:
            d = facts_dir()
        except BuildFailed as e:
            out.bad("build", "the working tree does not type-check: " + str(e)[-1500:])
            d = None
        if d:
            from mirfacts import Facts
            from summary import Index
            F = Facts(d)
            ix = Index(F)
            refs(out, pid, F, ix, tier)
            import rules
            r = getattr(rules, pid, None)
            if r:
                signal.alarm(0)
                try:
                    r(rules.Ctx(F, ix, out, tier))
                except Exception as e:
                    out.undecided("rule", "a rule could not be decided: " + repr(e) + " " + traceback.format_exc(limit=-2))
            out.cover.setdefault("mir_bodies_loaded", len(F.fns))
    except SystemExit:
        raise
    except Exception as e:
        out.undecided("analysis", "could not be decided: " + repr(e) + "\n" + traceback.format_exc(limit=-4))
    sys.exit(report(out, tier, t0))


BUDGET = {"quick": (150, 600), "thorough": (400, 800)}     # seconds: one function, all of them


def refs(out, pid, F, ix, tier):
    import anchors, store, compare as cmpm
    from resolve import Resolver
    from summary import summarise
    R = Resolver(ix)
    stop = set()
    for k in anchors.stops():
        f = R.find(k)
        if f is not None:
            stop.add(f.id)
    keys = list(dict.fromkeys(k.lstrip("*") for k in anchors.parse().get(pid, [])))
    signal.signal(signal.SIGALRM, timeout)
    one, total = BUDGET.get(tier, BUDGET["quick"])
    t0, n = time.time(), 0
    for a, b in R.renamed:
        out.note(f"{a} is now {b}")
    for k in keys:
        fn = R.find(k)
        ref = store.load(k)
        if ref is None:
            out.bad(k, f"function {k}: no reference")
            continue
        if fn is None:
            # analysed in its callers, where its body now is
            out.undecided(k, "no such function any more: decided through its callers")
            continue
        left = total - (time.time() - t0)
        if left < 1:
            out.undecided(k, "time budget used up")
            continue
        signal.alarm(int(min(one, left)) + 1)
        try:
            s = summarise(F, fn, stop=stop - {fn.id}, keep=anchors.keep(k))
            ds = list(cmpm.compare(ref, s))
            if ds:
                lost = cmpm.kinds(cmpm.roots(s)) - cmpm.kinds(cmpm.roots(ref))
                moved = [c for c in cmpm.callnames(ref) if c in R.gone or c in R.changed]
                if R.base.get(k) and R.base[k][0][2] in R.changed:
                    moved.append(k)
                if lost or moved:
                    cs = cmpm.coarse(ref, s, R)
                    out.undecided(k, "compared coarsely: " + (", ".join(sorted(lost)) or "interface of " + ", ".join(moved) + " changed"))
                    ds = [("content", c) for c in cs]
        except Exception as e:
            out.undecided(k, f"cannot be analysed: {e!r} " + traceback.format_exc(limit=-1).strip().splitlines()[-2].strip())
            continue
        finally:
            signal.alarm(0)
        for fid, c in s.ev.visited.items():
            out.funcs[fid] = out.funcs.get(fid, 0) + c
        out.events += len(s.ev.events)
        if ds:
            for facet, why in ds[:4]:
                out.bad(f"{k}: {facet}", f"{k} ({fn.file}:{fn.line}): {facet}: {why}")
        else:
            out.ok(k, "result, final state, effects and completion agree with the reference")
        n += 1
    out.cover["reference_functions"] = n


def report(out, tier, t0):
    known = {}
    kf = os.path.join(HERE, "known_findings.json")
    if os.path.exists(kf):
        for e in json.load(open(kf)).get("findings", []):
            if e["property"] == out.pid:
                known[e["key"]] = e
    viol, seen = [], []
    for key, text in out.viol:
        if key in known:
            seen.append(known[key])
        else:
            viol.append((key, text))
    os.makedirs(EVID, exist_ok=True)
    replay = os.path.join(EVID, out.pid + ".violations.json")
    for e in seen:
        print(f"KNOWN-FINDING: property={out.pid} {e['what']}")
    n = len(out.done) + len(out.viol)
    cov = {
        "explanation": "Static decision from type-checked MIR of /repo's working tree: every listed function is evaluated "
                       "abstractly (guarded value terms, callees and closures in context, loops summarised, no execution and no solver) "
                       "and its result, final state, effects and completion condition are compared with the property's reference; "
                       "further rules are decided on the same facts.",
        "obligations": n, "discharged": len(out.done),
        "functions_analysed": len(out.funcs), "function_contexts": sum(out.funcs.values()), "call_events": out.events,
        "obligation_keys": [k for k, _ in out.done][:400],
    }
    cov.update(out.cover)
    if out.open:
        cov["undecided"] = [f"{k}: {w}" for k, w in out.open][:100]
    if out.notes:
        cov["notes"] = out.notes[:50]
    ev = {"property": out.pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
          "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "violations": [{"key": k, "text": t[:1500]} for k, t in viol]}
    with open(os.path.join(EVID, out.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k, w in out.open:
        print(f"UNDECIDED {k}: {w[:300]}")
    if viol:
        with open(replay, "w") as f:
            json.dump({"property": out.pid, "rerun": f"python3 {HERE}/engine/run.py {out.pid}",
                       "violations": [{"key": k, "text": t} for k, t in viol]}, f, indent=1)
        for k, t in viol[:20]:
            print("  " + t[:700])
        print(f"VIOLATION property={out.pid} replay={replay}")
        return 1
    if os.path.exists(replay):
        os.remove(replay)
    print(f"{out.pid}: {len(out.done)} obligations hold, {len(out.funcs)} functions analysed, {time.time()-t0:.1f}s")
    return 0


if __name__ == "__main__":
    main()
