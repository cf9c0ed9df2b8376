"""Loads the fact base."""
import json, os


class Fn:
    __slots__ = ("d", "id", "path", "name", "crate", "file", "line", "promoted", "body", "kind", "self_ty",
                 "of_trait", "parent", "captures", "coroutine", "generics", "derived")

    def __init__(self, d, crate):
        self.d = d
        for k in ("id", "path", "name", "file", "line", "promoted", "body", "kind", "self_ty", "of_trait", "parent",
                  "captures", "coroutine", "generics", "derived"):
            setattr(self, k, d[k])
        self.crate = crate


class Facts:
    def __init__(self, d):
        self.fns, self.adts, self.impls, self.crates = {}, {}, [], []
        for f in sorted(os.listdir(d)):
            if not f.endswith(".json"):
                continue
            j = json.load(open(os.path.join(d, f)))
            self.crates.append((f[:-5], len(j["fns"])))
            for x in j["fns"]:
                fn = Fn(x, f[:-5])
                self.fns[fn.id] = fn
            for k, v in j["adts"].items():
                # paths are printed relative to the crate being compiled: qualify local ones
                if v["local"]:
                    self.adts.setdefault(k, v)
                    self.adts.setdefault(v["id"], v)
                else:
                    self.adts.setdefault(k, v)
            self.impls += j["impls"]


def fmt_place(p):
    s = f"_{p['l']}"
    for e in p["p"]:
        if e[0] == "*": s = f"(*{s})"
        elif e[0] == "f": s += "." + e[2]
        elif e[0] == "d": s += f" as {e[2]}"
        elif e[0] == "i": s += f"[_{e[1]}]"
        else: s += str(e)
    return s


def fmt_op(o):
    if o["k"] in ("copy", "move"):
        return (">" if o["k"] == "move" else "") + fmt_place(o["p"])
    if "fn" in o:
        f = o["fn"]
        return f.get("rpath") or f["path"]
    for k in ("int", "bool", "str", "char", "adtc", "bytes", "path", "static"):
        if k in o: return f"{k}:{o[k]!r}" + (f"<{o['path']}>" if k != "path" and "path" in o else "")
    if "promoted" in o: return f"promoted[{o['promoted']}]"
    return "const " + o["ty"]


def fmt_rv(r):
    k = r["k"]
    if k == "use": return fmt_op(r["o"])
    if k == "ref": return f"&{r['m']} " + fmt_place(r["p"])
    if k == "disc": return "disc " + fmt_place(r["p"]) + f" [{r['adt']}]"
    if k == "bin": return f"{r['op']}({fmt_op(r['a'])}, {fmt_op(r['b'])})"
    if k == "un": return f"{r['op']}({fmt_op(r['a'])})"
    if k == "cast": return f"{fmt_op(r['o'])} as {r['ty']} ({r['ck']})"
    if k == "agg":
        nm = r.get("adt", r.get("def", r["ak"]))
        v = r.get("variant")
        return f"{nm}::{v}" + "{" + ", ".join(
            (f"{n}: " if n else "") + fmt_op(o) for n, o in
            zip(list(r.get("fields", [])) + [None] * len(r["ops"]), r["ops"])) + "}"
    return str(r)


def dump(body, out=print):
    for i, l in enumerate(body["locals"]):
        out(f"  let _{i}: {l['ty']}" + (f" // {l['name']}" if "name" in l else ""))
    for i, b in enumerate(body["blocks"]):
        if b is None: continue
        out(f" bb{i}:")
        for s in b["s"]:
            if s["k"] == "assign": out(f"    {fmt_place(s['p'])} = {fmt_rv(s['r'])}")
            elif s["k"] != "dead": out(f"    {s}")
        t = b["t"]
        if t["k"] == "call":
            out(f"    {fmt_place(t['d'])} = {fmt_op(t['f'])}({', '.join(map(fmt_op, t['args']))}) -> {t['t']}")
        elif t["k"] == "switch":
            out(f"    switch {fmt_op(t['o'])} {t['ts']} else {t['else']}")
        else:
            out("    " + str({k: (fmt_place(v) if k == "p" else v) for k, v in t.items() if k not in ("ln", "ty", "mac")}))


if __name__ == "__main__":
    import sys
    from facts import facts_dir
    F = Facts(facts_dir())
    if len(sys.argv) < 2:
        for f in F.fns.values():
            print(f.crate, f.id, "|", f.path, "|", f.kind)
    else:
        for f in F.fns.values():
            if sys.argv[1] in f.id or sys.argv[1] in f.path:
                print(f"== {f.id} | {f.path} | {f.kind} {f.file}:{f.line} caps={f.captures} self={f.self_ty} tr={f.of_trait}")
                dump(f.body)
                for i, p in enumerate(f.promoted):
                    print("  promoted", i)
                    dump(p)
