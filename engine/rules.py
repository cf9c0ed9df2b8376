"""Rules stated directly (not by comparison with a reference summary)."""
import re
import wire


class Ctx:
    def __init__(self, F, ix, out, tier):
        self.F, self.ix, self.out, self.tier = F, ix, out, tier


def C25(ctx):
    import c25
    c25.decide(ctx)


def _consts(S, names):
    for b in S.b:
        c = wire.callee(b["t"]) if b is not None and b["t"]["k"] == "call" else None
        if c and c["name"] in names:
            for a in b["t"]["args"]:
                yield c["name"], S.const(a)


def _owner(ty, tr):
    m = re.search(r"<impl [^<>]*" + tr + r"(?:<[^<>]*>)? for ([\w:]+)", ty)
    return m.group(1).split("::")[-1] if m else None


CARGO = {"--bin", "--lib", "--name", "--quiet", "-q", "--verbose", "-v", "--offline", "--locked", "--frozen", "--color"}


def C17(ctx):
    """names agree on both sides of the two process boundaries the options cross"""
    F, out = ctx.F, ctx.out
    reads, writes = {}, {}
    for f in F.fns.values():
        if not f.body:
            continue
        if f.id.endswith("visit_str"):
            n = _owner(f.self_ty or "", "Deserialize")
            if n:
                got = {x for _, x in _consts(wire.Ser(F, f), {"eq"}) if x}
                reads.setdefault(n, []).append((f, got))
        elif f.of_trait and f.of_trait.endswith("Serialize>") and f.id.endswith("::serialize"):
            n = f.self_ty.split("<")[0].split("::")[-1]
            S = wire.Ser(F, f)
            writes[n] = {x for b in S.b if b is not None and b["t"]["k"] == "call" and wire.callee(b["t"])
                         for nm in [wire.callee(b["t"])["name"]] if nm.startswith("serialize_")
                         for i, a in enumerate(b["t"]["args"]) for x in [S.const(a)]
                         if x and ((nm == "serialize_field" and i == 1) or (nm.endswith("_variant") and i == 3))}
    lost = {}
    for f in F.fns.values():
        if f.body and f.of_trait and f.of_trait.endswith("Serialize>") and f.id.endswith("::serialize"):
            S = wire.Ser(F, f)
            adt = F.adts.get(f.self_ty.split("<")[0])
            if adt:
                k = sum(1 for b in S.b if b is not None and b["t"]["k"] == "call" and (wire.callee(b["t"]) or {}).get("name") in
                        ("serialize_field", "serialize_newtype_variant", "serialize_newtype_struct", "serialize_element"))
                lost[f.self_ty.split("<")[0].split("::")[-1]] = (k, sum(len(v["fields"]) for v in adt["variants"]))
    n = 0
    for ty, rs in sorted(reads.items()):
        if ty not in writes:
            continue
        n += 1
        r = set().union(*[g for _, g in rs])
        w = writes[ty]
        out.check("names of " + ty, w <= r, f"{rs[0][0].id}: {ty} is written with {sorted(w)} and read with {sorted(r)}")
        if ty in lost and lost[ty][0]:
            out.check("fields of " + ty, lost[ty][0] >= lost[ty][1], f"{ty}: {lost[ty][0]} of {lost[ty][1]} fields are written")
    # the flags other tools pass are ones the plugin has
    entry(ctx, "cargo_aquascope::main", "rustc_plugin::cli_main")
    entry(ctx, "aquascope_driver::main", "rustc_plugin::driver_main")
    flags, subs, uses = set(), set(), []
    for f in F.fns.values():
        if not f.body:
            continue
        if f.id.startswith("aquascope_front") and re.search(r"::augment_(args|subcommands)$", f.id):
            for nm, x in _consts(wire.Ser(F, f), {"long", "short", "alias"}):
                if x:
                    flags.add("--" + x)
        elif f.id.startswith(("mdbook_aquascope", "aquascope_serve")):
            S = wire.Ser(F, f)
            lits = [x for _, x in _consts(S, {"arg", "args"}) if x]
            raw = repr(f.promoted) + repr([b["s"] for b in f.body["blocks"] if b is not None])
            if "aquascope" in lits or "'str': 'aquascope'" in raw:
                every = set(lits) | set(re.findall(r"'str': '(--[\w-]+)'", raw))
                uses += [(f, x) for x in sorted(every) if x.startswith("--")]
    if flags:
        for f, x in uses:
            out.check(f"flag {x}", x in flags or x.split("=")[0] in CARGO, f"{f.id} passes {x}; the plugin accepts {sorted(flags)}")
    out.cover.update(types_crossing_processes=n, plugin_flags=len(flags), flags_passed=len(uses))


def _reaches(F, fid, names, seen):
    """does some call below this function go to one of the names"""
    if fid in seen or fid not in F.fns or not F.fns[fid].body:
        return False
    seen.add(fid)
    for b in F.fns[fid].body["blocks"]:
        c = wire.callee(b["t"]) if b is not None and b["t"]["k"] == "call" else None
        if c and (_is(c, names) or _reaches(F, c.get("rid") or c["id"], names, seen)):
            return True
    return False


def _is(c, names):
    p = c.get("rpath") or c.get("path") or ""
    return any(p.endswith(n) for n in names)


def entry(ctx, fid, *names):
    """every way through the program's entry point that returns has called one of the names"""
    F, out = ctx.F, ctx.out
    f = F.fns.get(fid)
    if f is None or not f.body:
        out.undecided("entry " + fid, "no such program any more")
        return
    blocks, seen, work = f.body["blocks"], set(), [0]
    while work:
        i = work.pop()
        if i in seen or blocks[i] is None:
            continue
        seen.add(i)
        t = blocks[i]["t"]
        c = wire.callee(t) if t["k"] == "call" else None
        if c and (_is(c, names) or _reaches(F, c.get("rid") or c["id"], names, {fid})):
            continue
        if t["k"] == "return":
            out.bad("entry " + fid, f"{fid} ({f.file}:{f.line}) can finish without a call to {' or '.join(names)}")
            return
        work += wire.succs(t)
    out.ok("entry " + fid, "always reaches " + " or ".join(names))


def C22(ctx):
    entry(ctx, "mdbook_aquascope::main", "mdbook_preprocessor_utils::main")


def C21(ctx):
    """what the key of a cached block is computed from: every field that can change the result"""
    from summary import summarise
    from val import T, A
    import anchors
    F, out = ctx.F, ctx.out
    key = "<AquascopeBlock as Hash>::hash"
    adt = [v for k, v in F.adts.items() if k.endswith("::AquascopeBlock")]
    fs = ctx.ix.find(key)
    if len(fs) != 1 or not adt:
        out.undecided("cache key", "blocks are not hashed by an implementation of their own any more")
        return
    s = summarise(F, fs[0], stop=anchors.stop_ids(ctx.ix) - {fs[0].id})
    used = set()

    def walk(x):
        if isinstance(x, T) and x.op == "f" and isinstance(x.args[0], T) and x.args[0].op == "param":
            used.add(str(x.args[-1]))
        elif isinstance(x, T) and x.op not in ("len", "eq", "exists", "is_empty"):
            for y in x.args:
                walk(y)
        elif isinstance(x, A):
            for _, y in x.fields:
                walk(y)
    for v in s.state.values():
        walk(v)
    for f in adt[0]["variants"][0]["fields"]:
        n = f["name"] if isinstance(f, dict) else f[0]
        if n == "annotations":
            continue       # marks drawn by the front end: the analysis never sees them
        out.check("cache key: " + n, n in used,
                  f"{fs[0].id} ({fs[0].file}:{fs[0].line}): blocks that differ in `{n}` get the same key")


def C23(ctx):
    entry(ctx, "aquascope_serve::main", "Runtime::block_on")


def C12(ctx):
    """an edge is artificial exactly when it is the imaginary one of the block it leaves"""
    from summary import summarise
    from val import T, subterms
    import anchors
    for key in ("<CleanedBody as Successors>::successors", "<CleanedBody as Predecessors>::predecessors"):
        fs = ctx.ix.find(key)
        if len(fs) != 1:
            ctx.out.undecided("artificial edges: " + key, "no such function any more")
            continue
        s = summarise(ctx.F, fs[0], stop=anchors.stop_ids(ctx.ix) - {fs[0].id})
        end = lambda x: any(t.op == "param" and t.args[0] == 1 for t in subterms(x).values() if isinstance(t, T)) and \
            not any(t.op == "elem" for t in subterms(x).values() if isinstance(t, T))
        # successors: the edge leaves the argument; predecessors: it leaves the element and enters the argument
        leaves_arg = key.endswith("successors")
        ok = False
        for t in subterms(s.ret).values():
            if isinstance(t, T) and t.op == "eq" and len(t.args) == 2:
                for a, b in (t.args, t.args[::-1]):
                    ix = [x for x in subterms(a).values() if isinstance(x, T) and x.op in ("call", "index") and "imaginary_target" in repr(a)]
                    src = [x.args[-1] for x in ix if x.op == "index"]
                    if src and "imaginary_target" in repr(a) and all(end(x) == leaves_arg for x in src) and end(b) != leaves_arg:
                        ok = True
        ctx.out.check("artificial edges: " + key, ok,
                      f"{fs[0].id} ({fs[0].file}:{fs[0].line}): the imaginary edge of a false edge's own block is not left out")


SAYS = ("log", "fmt", "Display", "Debug", "panic", "tracing")


def C11(ctx):
    """two changes of one place meeting on a line are both accounted for: neither is thrown away"""
    F, out, n = ctx.F, ctx.out, 0
    for fid, f in F.fns.items():
        if not f.body or "is_symmetric_diff" in fid:
            continue
        for i, b in enumerate(f.body["blocks"]):
            c = wire.callee(b["t"]) if b is not None and b["t"]["k"] == "call" else None
            if not c or not any((c.get(k) or "").endswith("PermissionsDataDiff::is_symmetric_diff") for k in ("path", "rpath")) \
                    and not ((c.get("path") or "").endswith("::is_symmetric_diff") and "PermissionsDataDiff" in repr(c)):
                continue
            arms = _arms(f, i)
            if arms is None:
                out.undecided("clashing steps", f"{fid}: the outcome of the comparison is not branched on")
                continue
            n += 1
            for val, start in arms:
                key = f"clashing steps: meeting {n}, {'undone' if val else 'not undone'}"
                out.check(key, _acts(F, f, start),
                          f"{fid} ({f.file}:{f.line}): a change of a place that meets another one on the same line, "
                          f"{'undoing' if val else 'not undoing'} it, is left out of the table without a trace in it")
    if not n:
        out.undecided("clashing steps", "no comparison of clashing steps any more")


def _arms(f, i):
    """[(outcome, block)] of the branch on the result of the call ending block i"""
    blocks = f.body["blocks"]
    dst = blocks[i]["t"].get("d") or {}
    sign = {} if dst.get("p") else {dst.get("l"): True}  # locals that hold the outcome (True) or its negation
    local = lambda o: o["p"]["l"] if o["k"] in ("copy", "move") and not o["p"]["p"] else None
    for _ in range(12):
        nx = [s for s in wire.succs(blocks[i]["t"]) if blocks[s] is not None and not blocks[s].get("cleanup")]
        i = nx[0] if len(nx) == 1 else None
        if i is None:
            return None
        for s in blocks[i]["s"]:
            if s["k"] != "assign" or s["p"]["p"]:
                continue
            r, to = s["r"], s["p"]["l"]
            src = local(r["o"]) if r["k"] == "use" else local(r["a"]) if r["k"] == "un" and r["op"] == "Not" else None
            sign.pop(to, None)
            if src in sign:
                sign[to] = sign[src] ^ (r["k"] == "un")
        t = blocks[i]["t"]
        if t["k"] == "switch":
            on = local(t["o"])
            if on not in sign or len(t["ts"]) != 1 or t["ts"][0][0] != 0:
                return None
            return [(not sign[on], t["ts"][0][1]), (sign[on], t["else"])]
    return None


def _acts(F, f, start):
    """before the next round or the end, some table is looked up to be changed, or changed"""
    blocks, seen, work = f.body["blocks"], set(), [start]
    while work:
        i = work.pop()
        if i in seen or blocks[i] is None:
            continue
        seen.add(i)
        t = blocks[i]["t"]
        c = wire.callee(t) if t["k"] == "call" else None
        if c:
            if c["name"] == "next":
                continue
            if c["name"] in ("remove", "remove_entry", "insert", "insert_entry", "push", "get_mut", "into_mut", "and_modify", "or_insert", "extend", "entry", "replace"):
                return True
            cid = c.get("rid") or c["id"]
            if cid in F.fns and not any(s in (c.get("path") or "") for s in SAYS):
                return True
        work += wire.succs(t)
    return False
