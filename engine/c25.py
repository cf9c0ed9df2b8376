"""C25: the front end is type-checked against the JSON shapes the Rust side writes."""
import json, os, re, shutil, subprocess, tempfile
import tys, wire, wire_src
from facts import REPO, WORK

PRIM = {"bool": "boolean", "String": "string", "str": "string", "char": "string", "f32": "number", "f64": "number", "()": "null"}
for _n in ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"):
    PRIM[_n] = "number"
SEQ = {"Vec", "VecDeque", "HashSet", "BTreeSet", "FxHashSet", "SmallVec", "IndexSet"}
MAP = {"HashMap", "BTreeMap", "FxHashMap", "IndexMap"}
PTR = {"Box", "Rc", "Arc", "Cow", "RefCell"}
# written by crates outside the repository
FOREIGN = {"CharPos": "{ line: number; column: number }", "CharRange": "{ start: CharPos; end: CharPos }", "Value": "any",
           "ByteRange": "{ start: number; end: number }"}


def last(s):
    return s.split("::")[-1]


def tstype(s, known, need):
    """TypeScript for a Rust type"""
    s = re.sub(r"'\w+\s*,?\s*", "", s.replace("& ", "&")).strip()
    s = re.sub(r"<\s*>", "", s)
    while s.startswith("&"):
        s = s[1:].strip()
        s = re.sub(r"^mut\s+", "", s)
    if s in PRIM:
        return PRIM[s]
    if s.startswith("(") and s.endswith(")"):
        return "[" + ", ".join(tstype(x, known, need) for x in args(s[1:-1])) + "]"
    if s.startswith("[") and s.endswith("]"):
        return "(" + tstype(s[1:-1].split(";")[0], known, need) + ")[]"
    m = re.match(r"^([\w:\s]+?)\s*(?:<(.*)>)?$", s, re.S)
    if not m:
        raise wire.Opaque("type " + s)
    n, a = last(m.group(1).replace(" ", "")), [tstype(x, known, need) for x in args(m.group(2) or "")]
    if n in PRIM:
        return PRIM[n]
    if n in SEQ:
        return "(" + a[0] + ")[]"
    if n in MAP:
        return f"Record<{a[0]}, {a[1]}>"
    if n in PTR:
        return a[-1]
    if n == "Option":
        return f"({a[0]} | null)"
    if n == "Result":
        return f"({{ Ok: {a[0]} }} | {{ Err: {a[1]} }})"
    if n in known or n in FOREIGN or (len(n) == 1):
        need.add(n)
        return n + ("<" + ", ".join(a) + ">" if a else "")
    raise wire.Opaque("type " + s)


def args(s):
    out, cur, d = [], "", 0
    for ch in s:
        if ch in "<([":
            d += 1
        elif ch in ">)]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def show(sh, known, need):
    k = sh[0]
    if k == "type":
        return tstype(sh[1], known, need)
    if k == "lit":
        return json.dumps(sh[1])
    if k == "null":
        return "null"
    if k == "tuple":
        return "[" + ", ".join(show(x, known, need) for x in sh[1]) + "]"
    if k == "wrap":
        return "{ " + json.dumps(sh[1]) + ": " + show(sh[2], known, need) + " }"
    if k == "obj":
        out = []
        for key, t, opt in sh[1]:
            x = show(t, known, need)
            if opt and x.endswith("| null)"):
                x = x[1:-len("| null)")]
            out.append(f"{json.dumps(key)}{'?' if opt else ''}: {x};")
        return "{ " + " ".join(out) + " }"
    if k == "or":
        return " | ".join(show(x, known, need) for x in sh[1]) or "never"
    raise wire.Opaque(k)


def shapes(ctx):
    """{name: (generics, shape)}, errors"""
    out, bad = {}, {}
    for f in ctx.F.fns.values():
        if f.of_trait and f.of_trait.endswith("Serialize>") and f.id.endswith("::serialize"):
            st = f.self_ty
            m = re.match(r"^([\w:]+)(?:<(.*)>)?$", st)
            if not m:
                continue
            n = last(m.group(1))
            gen = [g for g in args(m.group(2) or "") if not g.startswith("'")]
            try:
                out[n] = (gen, wire.Ser(ctx.F, f).shape())
            except Exception as e:
                bad[n] = str(e)
    for rel in ("mvalue.rs", "step.rs", "mod.rs", "mapper.rs", "miri_utils.rs"):
        p = f"{REPO}/crates/aquascope/src/interpreter/{rel}"
        if os.path.exists(p):
            try:
                for n, v in wire_src.shapes(open(p).read()).items():
                    out.setdefault(n, v)
            except Exception as e:
                bad[rel] = repr(e)
    return out, bad


STUBS = """declare module "*.scss";
declare namespace JSX { interface IntrinsicAttributes { key?: any } interface ElementChildrenAttribute { children: {} } interface Element {} interface IntrinsicElements { [k: string]: any } interface ElementClass {} }
"""
# an answer about a name or a shape; the rest (missing libraries and so on) says nothing about the property
CODES = {2339, 2551, 2367, 2305, 2724, 2353, 2741, 2739, 2740, 2322, 2345, 2678, 2493, 2559, 2820, 2769, 2614, 7053, 2307, 2531, 2532, 2533, 18047, 18048, 18049}

# the variant an `else` stands for where the front end tells the others apart by name
REST = {"ValueStep": {"High"}, "MResult": {"Success"}, "MMemorySegment": {"Stack"}, "Abbreviated": {"Only"},
        "PathMatcher": {"Regex"}, "MUndefinedBehavior": {"Other"}}


def calls(F, crate, name, where=""):
    for f in F.fns.values():
        if not f.body or (crate and not f.id.startswith(crate)):
            continue
        S = None
        for b in f.body["blocks"]:
            if b is None or b["t"]["k"] != "call":
                continue
            c = wire.callee(b["t"])
            if c and c["name"] == name and where in c["path"]:
                S = S or wire.Ser(F, f)
                yield f, c, [S.const(a) for a in b["t"]["args"]]


def camel(s):
    p = s.split("-")
    return p[0] + "".join(x.capitalize() for x in p[1:])


def layout(ctx, sh, d, plain):
    """the front end with its bindings next to it; plain: every binding is `any`"""
    front = f"{REPO}/frontend/packages"
    wanted = set()
    for root, dirs, files in os.walk(front):
        dirs[:] = [x for x in dirs if x not in ("node_modules", "dist", "bindings", "tests", "test")]
        for f in files:
            if f.endswith((".ts", ".tsx")) and ".test." not in f and "vite" not in f:
                p = os.path.join(root, f)
                q = os.path.join(d, os.path.relpath(p, front))
                os.makedirs(os.path.dirname(q), exist_ok=True)
                s = open(p).read()
                wanted |= set(re.findall(r"/bindings/(\w+)", s))
                if q.endswith("aquascope-editor/src/lib.tsx"):
                    s += ('\nlet __w1: ServerResponse = null as unknown as import("./bindings/wire").server_response;'
                          '\nlet __w2: Result<AnalysisOutput>[] = null as unknown as import("./bindings/wire").out_permissions;\n')
                open(q, "w").write(s)
    b = f"{d}/aquascope-editor/src/bindings"
    os.makedirs(b, exist_ok=True)
    w = {}
    for f, c, a in calls(ctx.F, "mdbook_aquascope", "data", "HtmlElementBuilder"):
        ty = [x["ty"] for x in c["targs"] if "ty" in x]
        if len(a) > 1 and a[1] and ty:
            w["data_" + camel(a[1])] = ty[-1]
    for f, c, a in calls(ctx.F, "aquascope_front", "postprocess"):
        ty = [x["ty"] for x in c["targs"] if "ty" in x]
        if ty:
            w["out_permissions"] = ty[0]
    w["server_response"] = "ServerResponse" if "ServerResponse" in sh else "serde_json::Value"
    if plain:
        for n in sorted(wanted | set(sh) | set(FOREIGN)):
            gen = sh[n][0] if n in sh else []
            g = "<" + ", ".join(x + " = any" for x in (gen or ["A"])) + ">"
            open(f"{b}/{n}.ts", "w").write(f"export type {n}{g} = any;\n")
        open(f"{b}/wire.ts", "w").write("".join(f"export type {k} = any;\n" for k in w))
        open(f"{d}/stubs.d.ts", "w").write(STUBS)
        return w
    for n, ts in FOREIGN.items():
        imp = 'import type { CharPos } from "./CharPos";\n' if n == "CharRange" else ""
        open(f"{b}/{n}.ts", "w").write(f"{imp}export type {n} = {ts};\n")
    for n, (gen, s) in sh.items():
        need = set()
        try:
            t = show(s, sh, need)
        except wire.Opaque as e:
            ctx.out.undecided("shape of " + n, str(e))
            t = "any"
        imps = "".join(f'import type {{ {m} }} from "./{m}";\n' for m in sorted(need) if m != n and m not in gen)
        g = "<" + ", ".join(gen) + ">" if gen else ""
        open(f"{b}/{n}.ts", "w").write(f"{imps}export type {n}{g} = {t};\n")
    need, body = set(), ""
    for k, ty in w.items():
        try:
            body += f"export type {k} = {tstype(ty, sh, need)};\n"
        except wire.Opaque as e:
            ctx.out.undecided(k, str(e))
            body += f"export type {k} = any;\n"
    open(f"{b}/wire.ts", "w").write("".join(f'import type {{ {m} }} from "./{m}";\n' for m in sorted(need)) + body)
    open(f"{d}/stubs.d.ts", "w").write(STUBS)
    return w


def run(d):
    here = os.path.dirname(os.path.abspath(__file__))
    r = subprocess.run(["node", f"{here}/ts/check.mjs", d], text=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    if r.returncode:
        raise RuntimeError("type checker failed: " + r.stderr[-600:])
    return json.loads(r.stdout)


def decide(ctx):
    out = ctx.out
    if not os.path.isdir(f"{REPO}/frontend/packages"):
        out.undecided("front end", "no sources")
        return
    sh, bad = shapes(ctx)
    for n, why in bad.items():
        out.undecided("shape of " + n, why)
    top = tempfile.mkdtemp(prefix="c25-", dir=WORK)
    try:
        w = layout(ctx, sh, top + "/real", False)
        layout(ctx, sh, top + "/plain", True)
        real, plain = run(top + "/real"), run(top + "/plain")
    finally:
        shutil.rmtree(top, ignore_errors=True)
    noise = {(x["file"], x["line"], x["code"]) for x in plain["diagnostics"]}
    diags = [x for x in real["diagnostics"] if x["code"] in CODES and (x["code"] != 2307 or "/bindings/" in x["text"])
             and (x["file"], x["line"], x["code"]) not in noise and "/bindings/" not in x["file"]]
    seen = set()
    for x in diags:
        x["text"] = re.sub(r'import\("[^"]*"\)\.', "", x["text"])
        k = f"{x['file']}:{x['line']}"
        if k not in seen:
            seen.add(k)
            out.bad("read " + re.sub(r"\W+", " ", x["text"])[:80], f"frontend/packages/{k}: {x['text'][:300]}")
    if not diags:
        out.ok("reads", f"{real['reads']} reads of bound values agree with the {len(sh)} shapes written")
    # dispatch
    names = {}
    for x in real["dispatch"]:
        for t in x["type"]:
            names.setdefault((t, x["prop"]), {}).setdefault(x["lit"], x)
    for (t, prop), lits in sorted(names.items()):
        tags = (real["tags"].get(t) or {}).get(prop)
        if not tags:
            continue
        # a union it is only part of
        if not set(lits) & set(tags):
            continue
        missing = set(tags) - set(lits)
        extra = missing - REST.get(t, set())
        where = next(iter(lits.values()))
        out.check("variants of " + t, not extra, f"frontend/packages/{where['file']}:{where['line']}: {t}: " +
                  ("every variant is told apart" if not extra else "never told apart: " + ", ".join(sorted(extra))))
    # block attributes
    reads = set(real["dataset"])
    keys = sorted(k[5:] for k in w if k.startswith("data_"))
    for k in keys:
        kebab = "data-" + re.sub(r"([A-Z])", lambda m: "-" + m.group(1).lower(), k)
        out.check("attribute " + k, k in reads or kebab in set(real["strings"]), f"data attribute {k} written by the preprocessor is " + ("read" if k in reads else "never read") + " by the front end")
    for x in real["parsed"]:
        out.check("attribute type " + x["key"], x["ok"], f"data attribute {x['key']} is read as {x['want'][:120]} and written as {x['got'][:160]}")
    cls = {a[2] for _, _, a in calls(ctx.F, "mdbook_aquascope", "attr", "HtmlElementBuilder") if len(a) > 2 and a[1] == "class" and a[2]}
    strings = set(real["strings"])
    for c in sorted(cls):
        for one in c.split():
            out.check("class " + one, one in strings, f"class {one} of an embedded block is " + ("looked up" if one in strings else "not looked up") + " by the front end")
    # server
    de, req = set(), set()
    for f in ctx.F.fns.values():
        if f.id.startswith("aquascope_serve") and "SingleFileRequest" in f"{f.id} {f.self_ty} {f.of_trait}" and f.body:
            S = wire.Ser(ctx.F, f)
            for b in f.body["blocks"]:
                c = wire.callee(b["t"]) if b and b["t"]["k"] == "call" else None
                if c and c["name"] == "eq" and f.id.endswith("visit_str"):
                    de |= {x for x in map(S.const, b["t"]["args"]) if x}
                if c and c["name"] == "missing_field":
                    if not c["targs"][0].get("ty", "").startswith("std::option::Option<"):
                        req |= {x for x in map(S.const, b["t"]["args"]) if x}
    for sent in real["request"]:
        if de:
            out.check("request fields", set(sent) <= de and req <= set(sent),
                      f"the front end sends {sorted(sent)}; the server reads {sorted(de)} and requires {sorted(req)}")
    routes = {a[1] for _, _, a in calls(ctx.F, "aquascope_serve", "route", "Router") if len(a) > 1}
    if None not in routes and routes:
        for op in sorted(set(real["operations"])):
            out.check("route " + op, "/" + op in routes, f"operation {op} of the front end; routes of the server are {sorted(routes)}")
    # a key that is also a field's name is written from that field
    for f in ctx.F.fns.values():
        if f.of_trait and f.of_trait.endswith("Serialize>") and f.id.endswith("::serialize"):
            S = wire.Ser(ctx.F, f)
            names = {}
            for b in S.b:
                if b is None or b["t"]["k"] != "call" or (wire.callee(b["t"]) or {}).get("name") != "serialize_field":
                    continue
                a = b["t"]["args"]
                key, fld = S.const(a[1]) if len(a) > 2 else None, S.field(a[-1])
                if key and fld:
                    names.setdefault(fld[1], []).append((key, fld[0]))
            for adt, ks in names.items():
                have = {x["name"] for v in (ctx.F.adts.get(adt) or {"variants": []})["variants"] for x in v["fields"]}
                wrong = [(k, x) for k, x in ks if k != x and k in have]
                out.check("fields of " + last(adt), not wrong, f"{f.loc() if hasattr(f, 'loc') else f.id}: " +
                          (", ".join(f"key {k} carries field {x}" for k, x in wrong) or f"{len(ks)} keys carry the fields of their names"))
    out.cover.update(shapes=len(sh), reads_of_bound_values=real["reads"], front_end_files=len(real["files"]),
                     dispatches=len(real["dispatch"]), attributes=len(keys), routes=len(routes))
