"""What the Rust side writes as JSON: the shape of every Serialize implementation, read off its MIR."""
import re
import tys


class Opaque(Exception):
    pass


def callee(t):
    f = t.get("f") or {}
    return f.get("fn") if f.get("k") == "const" else None


def succs(t):
    """successors on the way to success"""
    k = t["k"]
    if k in ("goto", "drop", "assert", "call"):
        return [t["t"]] if t.get("t") is not None else []
    if k == "switch":
        return [b for _, b in t["ts"]] + ([t["else"]] if t.get("else") is not None else [])
    return []


class Ser:
    """one implementation of Serialize::serialize"""

    def __init__(self, F, fn):
        self.F, self.fn = F, fn
        self.b = [x for x in fn.body["blocks"]]
        self.defs = {}
        for b in self.b:
            if b is None:
                continue
            for s in b["s"]:
                if s["k"] == "assign" and not s["p"]["p"]:
                    self.defs.setdefault(s["p"]["l"], []).append(s["r"])
            t = b["t"]
            if t["k"] == "call" and t.get("d") and not t["d"]["p"]:
                self.defs.setdefault(t["d"]["l"], []).append(t)

    def one(self, l):
        d = self.defs.get(l, [])
        return d[0] if len(d) == 1 else None

    def const(self, o, depth=0):
        """a string constant, through copies and references"""
        if o is None or depth > 12:
            return None
        if o.get("k") == "const":
            if "promoted" in o:
                strs = re.findall(r"'str': '((?:[^'\\\\]|\\\\.)*)'", repr(self.fn.promoted[o["promoted"]]["blocks"]))
                return strs[-1] if strs else None
            return o.get("str")
        if o.get("k") in ("copy", "move"):
            r = self.one(o["p"]["l"])
        else:
            r = o
        if r is None:
            return None
        if r["k"] == "use":
            return self.const(r["o"], depth + 1)
        if r["k"] in ("ref", "cast"):
            if r["k"] == "ref":
                return self.const({"k": "copy", "p": r["p"]}, depth + 1)
            return self.const(r["o"], depth + 1)
        if r["k"] == "agg":
            xs = [self.const(x, depth + 1) for x in r.get("ops", r.get("os", []))]
            xs = [x for x in xs if x is not None]
            return xs[-1] if xs else None
        return None

    def field(self, o):
        """(field, type) of `self` an operand is a reference to"""
        for _ in range(8):
            if o.get("k") not in ("copy", "move"):
                return None
            r = self.one(o["p"]["l"])
            if r is None:
                return None
            if r["k"] == "use":
                o = r["o"]
            elif r["k"] == "ref":
                fs = [x for x in r["p"]["p"] if x[0] == "f"]
                if fs and r["p"]["l"] == 1:
                    return (fs[0][2], fs[0][3]) if len(fs) == 1 else None
                o = {"k": "copy", "p": r["p"]}
            else:
                return None
        return None

    def edges(self, i):
        t = self.b[i]["t"]
        if t["k"] == "switch":
            # the failing side of `?` is not followed
            o = t["o"]
            r = self.one(o["p"]["l"]) if o.get("k") in ("copy", "move") else None
            if r is not None and r.get("k") == "disc" and r.get("adt", "").endswith("ControlFlow"):
                return [b for v, b in t["ts"] if v == 0]
            if r is not None and r.get("k") == "disc" and r.get("adt", "").endswith("result::Result"):
                return [b for v, b in t["ts"] if v == 0]
        return succs(t)

    def reach(self, start, avoid=None):
        seen, todo = set(), [start]
        while todo:
            i = todo.pop()
            if i in seen or i == avoid or self.b[i] is None:
                continue
            seen.add(i)
            todo += self.edges(i)
        return seen

    def variants(self):
        """[(variant or None, entry block)]"""
        i = 0
        for _ in range(50):
            b = self.b[i]
            t = b["t"]
            if t["k"] == "switch":
                o = t["o"]
                r = self.one(o["p"]["l"]) if o.get("k") in ("copy", "move") else None
                if r is not None and r.get("k") == "disc" and r["p"]["l"] == 1:
                    a = self.F.adts.get(r.get("adt"))
                    names = {v.get("discr", j): v["name"] for j, v in enumerate(a["variants"])} if a else {}
                    return [(names.get(v, "?%s" % v), x) for v, x in t["ts"] if x is not None]
                return [(None, 0)]
            s = succs(t)
            if t["k"] == "call" or len(s) != 1:
                return [(None, 0)]
            i = s[0]
        return [(None, 0)]

    def shape(self):
        vs = self.variants()
        out = []
        for v, e in vs:
            out.append(self.branch(v, e))
        return ("or", out) if len(out) != 1 or vs[0][0] is not None else out[0]

    def branch(self, v, entry):
        """('obj', [(key, type or ('lit', s), optional)]) | ('lit', s) | ('wrap', variant, type) | ('type', T) | ('tuple', [T]) | ('null',)"""
        rs = self.reach(entry)
        calls = []
        for i in sorted(rs):
            t = self.b[i]["t"]
            f = callee(t) if t["k"] == "call" else None
            if not f:
                continue
            tr, n = f.get("trait", "") or "", f["name"]
            tr = tr.split("::")[-1].split("<")[0]
            if tr in ("Serializer", "SerializeStruct", "SerializeTuple", "SerializeTupleStruct", "SerializeStructVariant",
                      "SerializeTupleVariant", "SerializeMap", "SerializeSeq", "Serialize"):
                calls.append((i, tr, n, t, f))
        heads = [c for c in calls if c[1] in ("Serializer", "Serialize")]
        if len({(c[2]) for c in heads}) != 1:
            raise Opaque(f"{self.fn.id}: several shapes for one value")
        i, tr, n, t, f = heads[0]
        args = t["args"]
        ts = [x.get("ty") for x in f.get("targs", []) if "ty" in x]

        def opt(j):
            ends = [x for x in self.reach(entry, avoid=j) if self.b[x]["t"]["k"] == "return"]
            return bool(ends)

        def fields(kinds):
            r = []
            for j, tr2, n2, t2, f2 in calls:
                if tr2 in kinds and n2 in ("serialize_field", "serialize_element"):
                    tt = [x.get("ty") for x in f2.get("targs", []) if "ty" in x][-1]
                    key = self.const(t2["args"][1]) if n2 == "serialize_field" and tr2 in ("SerializeStruct", "SerializeStructVariant") else None
                    lit = self.const(t2["args"][-1]) if tt in ("str", "&str") or tt.endswith("AdjacentlyTaggedEnumVariant") else None
                    r.append((key, ("lit", lit) if lit is not None else ("type", tt), opt(j)))
                elif tr2 in kinds and n2 not in ("end", "skip_field"):
                    raise Opaque(f"{self.fn.id}: {n2}")
            return r
        if n == "serialize_struct":
            return ("obj", fields(("SerializeStruct",)))
        if n == "serialize_unit_variant":
            return ("lit", self.const(args[3]))
        if n == "serialize_newtype_variant":
            return ("wrap", self.const(args[3]), ("type", ts[-1]))
        if n == "serialize_struct_variant":
            return ("wrap", self.const(args[3]), ("obj", fields(("SerializeStructVariant",))))
        if n == "serialize_tuple_variant":
            return ("wrap", self.const(args[3]), ("tuple", [x[1] for x in fields(("SerializeTupleVariant",))]))
        if n == "serialize_newtype_struct":
            return ("type", ts[-1])
        if n in ("serialize_tuple_struct", "serialize_tuple"):
            return ("tuple", [x[1] for x in fields(("SerializeTupleStruct", "SerializeTuple"))])
        if n == "serialize" and tr == "Serialize":
            return ("type", ts[0])
        if n in ("serialize_unit", "serialize_none", "serialize_unit_struct"):
            return ("null",)
        if n in ("serialize_str", "collect_str", "serialize_char"):
            return ("type", "str")
        if n == "serialize_bool":
            return ("type", "bool")
        if re.match(r"serialize_[iuf]\d+$", n):
            return ("type", n[10:])
        raise Opaque(f"{self.fn.id}: {n}")
