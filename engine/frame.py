"""What a function can change through its `&mut` parameters: for every parameter the set of first-level fields that
may be written (None: anything).  Flow-insensitive, transitive over the functions of this code base."""

ALL = None


def _ops(r):
    k = r["k"]
    if k in ("use", "cast", "repeat"):
        return [r["o"]]
    if k == "agg":
        return r["ops"]
    return []


class Frames:
    def __init__(self, F):
        self.F = F
        self.tab = {}
        self.sums = {}
        for f in F.fns.values():
            if f.body is None or f.coroutine:
                continue
            ps = [i for i in range(1, f.body["argc"] + 1) if f.body["locals"][i]["ty"].startswith("&") and
                  _mutref(f.body["locals"][i]["ty"])] if "argc" in f.body else []
            if f.captures and "{closure" in f.body["locals"][1]["ty"]:
                # what it borrowed mutably from its surroundings
                ps += [-1 - j for j, c in enumerate(f.captures) if "ByRef(Mut" in c["by"] or "ByRef(Unique" in c["by"]]
            if ps:
                self.tab[f.id] = {p: set() for p in ps}
        work = True
        n = 0
        while work and n < 60:
            work = False
            n += 1
            for fid in self.tab:
                new = self.scan(F.fns[fid])
                if new != self.tab[fid]:
                    self.tab[fid] = new
                    work = True
        if work:
            self.tab = {}

    def get(self, fid, param):
        """fields written through the param-th parameter (1-based), or None"""
        return self.tab.get(fid, {}).get(param, ALL)

    def scan(self, f):
        body = f.body
        ps = self.tab[f.id]
        alias = {p: {(p, "*")} for p in ps if p > 0}     # local -> {(parameter, field or * for the whole)}
        out = {p: set() for p in ps}

        def hit(al):
            for p, fld in al:
                if fld == "*":
                    out[p] = ALL
                elif out[p] is not ALL:
                    out[p].add(fld)

        def base(pl):
            """the pointer a place goes through, and the rest of the way; captured pointers are fields of local 1"""
            if pl["l"] == 1 and any(p < 0 for p in ps):
                path = list(pl["p"])
                while path and path[0][0] == "*":
                    path = path[1:]
                if path and path[0][0] == "f":
                    j = -1 - int(path[0][1]) if str(path[0][1]).isdigit() else next((-1 - i for i, c in enumerate(f.captures) if c["name"] == path[0][2]), 0)
                    return ({(j, "*")} if j in ps else set()), path[1:]
                return {(p, "*") for p in ps if p < 0}, path
            return alias.get(pl["l"]) or set(), pl["p"]

        def through(pl):
            """what a place behind one of our pointers belongs to"""
            al, path = base(pl)
            if not al:
                return set(), False
            deref = any(e[0] == "*" for e in path)
            fld = None
            seen = False
            for e in path:
                if e[0] == "*":
                    if seen and fld is None:
                        continue
                    seen = True
                elif e[0] == "f" and seen:
                    fld = e[2]
                    break
                elif e[0] != "f":
                    break
            return {(p, (fld or "*") if x == "*" else x) for p, x in al}, deref

        changed = True
        while changed:
            changed = False

            def add(l, al):
                nonlocal changed
                cur = alias.setdefault(l, set())
                if not al <= cur:
                    cur |= al
                    changed = True

            for bb in filter(None, body["blocks"]):
                for s in bb["s"]:
                    if s["k"] != "assign":
                        continue
                    r = s["r"]
                    if r["k"] in ("ref", "rawptr"):
                        al, deref = through(r["p"])
                        if al and (r["k"] == "rawptr" or r["m"] == "mut"):
                            if deref:
                                add(s["p"]["l"], al)
                            else:
                                add(s["p"]["l"], al)        # a pointer to the pointer
                    for o in _ops(r):
                        if o["k"] in ("copy", "move"):
                            al, deref = through(o["p"])
                            lo, path = base(o["p"])
                            if not lo or r["k"] == "agg" and r.get("ak") == "closure" and not _mutin_ret(self.F, r["def"]):
                                continue
                            if not path:
                                add(s["p"]["l"], set(lo))
                            elif deref and _pointer(s, body):
                                add(s["p"]["l"], al)
                            elif not deref:
                                add(s["p"]["l"], set(lo))
                t = bb["t"]
                if t["k"] == "call":
                    al = set()
                    for a in t["args"]:
                        if a["k"] in ("copy", "move"):
                            x, deref = through(a["p"])
                            if x and (not deref or True):
                                al |= x
                    if al and _mutin(t.get("dty", "")):
                        add(t["d"]["l"], al)
        for bb in filter(None, body["blocks"]):
            for s in bb["s"]:
                if s["k"] == "assign":
                    al, deref = through(s["p"])
                    if al and deref:
                        hit(al)
                    r = s["r"]
                    if r["k"] == "agg" and r.get("ak") == "closure" and not _mutin_ret(self.F, r["def"]):
                        # whoever gets the closure may call it
                        for j, o in enumerate(r["ops"]):
                            al = through(o["p"])[0] if o["k"] in ("copy", "move") else None
                            if al:
                                m = self.tab.get(r["def"], {}).get(-1 - j, ALL)
                                for p, x in al:
                                    if m is ALL or x != "*" and m:
                                        hit({(p, x)})
                                    elif x == "*" and out[p] is not ALL:
                                        out[p] |= m
            t = bb["t"]
            if t["k"] == "call":
                al, deref = through(t["d"])
                if al and deref:
                    hit(al)
                fid = None
                fn = t["f"].get("fn") if isinstance(t["f"], dict) else None
                if fn:
                    fid = fn.get("rid") or (fn["id"] if "trait" not in fn else None)
                for i, a in enumerate(t["args"]):
                    if a["k"] not in ("copy", "move"):
                        continue
                    al, deref = through(a["p"])
                    if not al or deref and not base(a["p"])[1]:
                        continue
                    if deref:
                        # a value read from behind the pointer: only a pointer found there can be written through
                        if _mutin(_argty(a, body)):
                            hit(al)
                        continue
                    g = self.F.fns.get(fid) if fid else None
                    if g is not None and g.id in self.tab and (i + 1) in self.tab[g.id]:
                        m = self.tab[g.id][i + 1]
                        if m is ALL:
                            hit(al)
                        else:
                            for p, x in al:
                                if x == "*":
                                    if out[p] is not ALL:
                                        out[p] |= m
                                elif m:
                                    hit({(p, x)})
                    else:
                        hit(al)
            elif t["k"] == "drop":
                pass
        if _mutin(body["locals"][0]["ty"]) and alias.get(0):
            hit(alias[0])
        return out


def _mutin_ret(F, fid):
    f = F.fns.get(fid)
    return f is None or f.body is None or _mutin(f.body["locals"][0]["ty"])


def _mutref(ty):
    import re
    return re.match(r"^&('\w+ |\{[^}]*\} )?mut ", ty) is not None


def _mutin(ty):
    """can a value of this type hold a mutable reference (or hide one)?"""
    if ty in ("()", "bool", "usize", "u32", "u64", "i32", "char", "!") or ty.startswith("&") and not _mutref(ty) and "mut " not in ty:
        return False
    import re
    if re.match(r"^[A-Za-z_0-9:]+$", ty):
        return False            # a plain type without parameters
    if re.match(r"^rustc_middle::(ty::(TyCtxt|Ty|ParamEnv|TypingEnv)|mir::Place|hir::map::Map)(<'\w+>)?$", ty):
        return False            # shared handles of the compiler
    return "mut " in ty or "'" in ty or "{closure" in ty or "dyn" in ty or "impl" in ty


def _pointer(s, body):
    return _mutin(body["locals"][s["p"]["l"]]["ty"])


def _argty(a, body):
    return a.get("ty") or "mut "


def of(F):
    fr = getattr(F, "frames", None)
    if fr is None:
        fr = F.frames = Frames(F)
    return fr
