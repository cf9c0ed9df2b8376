"""Abstract evaluation of MIR functions to guarded values and guarded effect events.

Forward dataflow over each function's control-flow graph in topological order; states are merged at joins under
their path guards; local callees and closures are analysed in the caller's context; loops are summarised
(comprehensions, quantified guards, folds), never unrolled."""
import os, re
from hashlib import blake2b
from val import *
import tys

UNSIGNED = re.compile(r"(u8|u16|u32|u64|u128|usize)$")

OPTION = "std::option::Option"
RESULT = "std::result::Result"
CFLOW = "std::ops::ControlFlow"
POLL = "std::task::Poll"
DOM = {OPTION: ("None", "Some"), RESULT: ("Ok", "Err"), CFLOW: ("Continue", "Break"), POLL: ("Ready", "Pending"),
       "serde_json::Value": ("Null", "Bool", "Number", "String", "Array", "Object")}


CMD = {"arg": 0, "env": 1, "current_dir": 2, "stdin": 3, "stdout": 4, "stderr": 5, "kill_on_drop": 6}


def cmd_op(t):
    """(rank, key) of one step of building a command"""
    if isinstance(t, T) and t.op == "call" and isinstance(t.args[0], str) and t.args[0].startswith("mut:") and "Command::" in t.args[0]:
        n = t.args[0].split("::")[-1]
        if n == "env" and len(t.args) == 4:
            k = t.args[2]
            return (1, k.args[0]) if isinstance(k, T) and k.op == "str" else None
        if n in CMD and len(t.args) == 3:
            return CMD[n], ""
    return None


def ncall(path, *ls):
    """a call, in its normal form"""
    if path.startswith("mut:") and "Command::" in path:
        t = mk("call", path, *ls)
        me, x = cmd_op(t), ls[0]
        if me:
            it = cmd_op(x)
            if it and it == me and me[0] > 0:
                return ncall(path, x.args[1], *ls[1:])  # the later setting holds
            if it and it > me:
                return ncall(x.args[0], ncall(path, x.args[1], *ls[1:]), *x.args[2:])
        return t
    if path.endswith("Path::join") and len(ls) == 2 and isinstance(ls[1], T) and ls[1].op == "str" and "/" in ls[1].args[0]:
        cs = ls[1].args[0].split("/")
        if all(cs):
            r = ls[0]
            for c in cs:
                r = mk("call", path, r, mk("str", c))
            return r
    return mk("call", path, *ls)


class Unsupported(Exception):
    pass


class NotSimple(Exception):
    pass


class Event:
    __slots__ = ("kind", "path", "args", "res", "guard", "ctx", "fn", "line", "n", "extra")

    def __repr__(self):
        c = "".join(f" @{show(b[1]) if isinstance(b, tuple) else b}" for b in self.ctx)
        g = "" if self.guard is TRUE else " when " + show(self.guard)
        return f"{self.kind} {self.path}({', '.join(map(show, self.args))}){c}{g}"



class Cx:
    """current abstract state: memory and path guard"""
    __slots__ = ("st", "g")

    def __init__(self, st, g):
        self.st, self.g = st, g


def norm_path(p):
    """drop generic arguments: a::B::<T>::c -> a::B::c ; <X as a::Tr>::m -> a::Tr::m"""
    m = re.match(r"^<(.*) as (.*)>::(\w+)$", p)
    if m and m.group(1).count("<") == m.group(1).count(">"):
        p = m.group(2) + "::" + m.group(3)
    out, d, i = "", 0, 0
    while i < len(p):
        c = p[i]
        if c == "<":
            if d == 0 and out.endswith("::"):
                out = out[:-2]
            d += 1
        elif c == ">" and p[i - 1] != "-":
            d -= 1
        elif d == 0:
            out += c
        i += 1
    return out


class Ev:
    def __init__(self, facts, stop=(), max_steps=400000, inline=True):
        self.F = facts
        self.stop = set(stop)
        self.events = []
        self.frames = 0
        self.stack = []
        self.binders = []       # active loop/lambda binders
        self.lamdepth = 0
        self.dry = 0
        self.fnrefs = {}
        self.nopen = 0
        self.lvinit = {}
        self.order = ()
        self.steps = 0
        self.max_steps = max_steps
        self.inline = inline
        self.visited = {}       # fn id -> times analysed
        self.unmodelled = {}
        self._impl_idx = None
        from models import MODELS, PREFIX
        self.models, self.prefix_models = MODELS, PREFIX
        REBUILD.update({
            "f": lambda t, v, n: self.field(t, n, v),
            "index": self.index, "eq": self.eq, "lt": self.lt,
            "add": lambda *xs: self.fold2("Add", xs), "mul": lambda *xs: self.fold2("Mul", xs),
            "sub": lambda x, y: self.binop("Sub", x, y),
            "exists": lambda b, g: self.exists(b, g),
            "fold": mkfold,
            "call": lambda p, *xs: self.mkcall(p, list(xs)) if isinstance(p, str) else mk("call", p, *xs),
        })

    def fold2(self, op, xs):
        r = xs[0]
        for x in xs[1:]:
            r = self.binop(op, r, x)
        return r

    # ---------------------------------------------------------------- memory
    def read_loc(self, st, loc, path):
        v = st.get(loc)
        if v is None:
            if loc[0] == "cell":
                v = mk("cellval", loc[1])
            else:
                return BOT
        return self.proj(st, v, path)

    def proj(self, st, v, path):
        for e in path:
            if e[0] == "f":
                v = self.field(v, e[2], e[1])
            elif e[0] == "*":
                v = self.deref(st, v)
            elif e[0] == "i":
                v = self.index(v, e[1])
            elif e[0] == "each":
                def each(t, e=e):
                    if isinstance(t, T) and t.op == "eachset" and t.args[1] is e[1]:
                        return t.args[2]
                    return e[1]
                v = mapv(each, v)
            elif e[0] == "key":
                def key(t, e=e):
                    if isinstance(t, T) and t.op == "kset" and t.args[1] is e[1]:
                        return t.args[2]
                    return mk("entry", t, e[1], e[2])
                v = mapv(key, v)
            else:
                raise Unsupported("projection %r" % (e,))
        return v

    def deref(self, st, v):
        def leaf(t):
            if isinstance(t, T) and t.op == "ref":
                return self.read_loc(st, t.args[0], t.args[1])
            return t
        return mapv(leaf, v)

    def full(self, st, v, depth=0):
        """v with &mut references replaced by the values they point to now"""
        if depth > 6:
            return v

        def f(t):
            if t.op == "ref":
                return self.full(st, self.read_loc(st, t.args[0], t.args[1]), depth + 1)
            return None
        return subst(v, f)

    def field(self, v, name, variant=None):
        def leaf(t):
            if isinstance(t, A):
                if variant is not None and t.ctor[1] != variant:
                    return BOT
                r = t.get(name)
                return r if r is not None else mk("f", t, variant, name)
            if t.op == "upd":
                if t.args[1] == fkey(variant, name):
                    return t.args[2]
                return self.field(t.args[0], name, variant)
            if t.op == "ref":
                return mk("ref", t.args[0], t.args[1] + (("f", variant, name),))
            return mk("f", t, variant, name)
        return mapv(leaf, v)

    def index(self, v, i):
        def leaf(t, j):
            if isinstance(t, A) and t.ctor[0] == "array" and isinstance(j, T) and j.op == "int":
                r = t.get(str(j.args[0]))
                if r is not None:
                    return r
            if isinstance(t, T) and t.op == "seq" and not t.args[1] and isinstance(j, T) and j.op == "int":
                ys = t.args[0][:j.args[0] + 1]
                if 0 <= j.args[0] < len(ys) and all(not y.args[0] and y.args[1] is TRUE for y in ys):
                    return ys[-1].args[2]
            if isinstance(t, T) and t.op == "store":
                if t.args[1] is j:
                    return t.args[2]
            return mk("index", t, j)
        return apply(leaf, [v, i])

    def upd(self, old, path, val):
        if not path:
            return val
        e, rest = path[0], path[1:]
        if e[0] == "f":
            name, variant = e[2], e[1]

            def leaf(t):
                if isinstance(t, A):
                    if variant is not None and t.ctor[1] != variant:
                        return t
                    fs = [(n, self.upd(x, rest, val) if n == name else x) for n, x in t.fields]
                    if all(n != name for n, _ in t.fields):
                        fs.append((name, self.upd(BOT, rest, val)))
                    return agg(t.ctor, fs)
                inner = self.upd(self.field(t, name, variant), rest, val)
                return mkupd(t, fkey(variant, name), inner)
            if old is BOT:
                return agg(("?", variant or ""), [(name, self.upd(BOT, rest, val))])
            return mapv(leaf, old)
        if e[0] == "i":
            return apply(lambda t, j: mkstore(t, j, self.upd(self.index(t, j), rest, val)), [old, e[1]])
        if e[0] == "each":
            cur = self.proj({}, old, (e,))
            new = self.upd(cur, rest, val)

            def leaf(t):
                base = t.args[0] if isinstance(t, T) and t.op == "eachset" and t.args[1] is e[1] else t
                return mk("eachset", base, e[1], new)
            return mapv(leaf, old)
        if e[0] == "key":
            cur = self.proj({}, old, (e,))
            new = self.upd(cur, rest, val)

            def leaf(t):
                base = t.args[0] if isinstance(t, T) and t.op == "kset" and t.args[1] is e[1] else t
                return mk("kset", base, e[1], new)
            return mapv(leaf, old)
        if e[0] == "*":
            return self.upd(old, rest, val)
        raise Unsupported("update through %r" % (e,))

    def write(self, cx, loc, path, val, g=TRUE):
        old = cx.st.get(loc)
        if old is None:
            old = mk("cellval", loc[1]) if loc[0] == "cell" else BOT
        new = self.upd(old, path, val) if path else val
        if g is not TRUE:
            new = ite(g, new, old)
        cx.st[loc] = new

    def resolve(self, cx, fr, p):
        """place -> [(guard, loc, path)]"""
        alts = [(TRUE, (fr["n"], p["l"]), ())]
        variant = None
        for e in p["p"]:
            if e[0] == "*":
                out = []
                for g, loc, path in alts:
                    v = self.read_loc(cx.st, loc, path)
                    ls = leaves(v)
                    if any(isinstance(t, T) and t.op == "ref" for _, t in ls):
                        for lg, t in ls:
                            if isinstance(t, T) and t.op == "ref":
                                out.append((and_(g, lg), t.args[0], t.args[1]))
                    else:
                        out.append((g, loc, path + (("*",),)))
                alts = out
            elif e[0] == "f":
                alts = [(g, l, pa + (("f", variant, e[2]),)) for g, l, pa in alts]
                variant = None
            elif e[0] == "d":
                variant = e[2]
            elif e[0] == "i":
                i = self.read_loc(cx.st, (fr["n"], e[1]), ())
                alts = [(g, l, pa + (("i", i),)) for g, l, pa in alts]
            elif e[0] in ("ci", "sub"):
                alts = [(g, l, pa + (("i", self.cidx(e)),)) for g, l, pa in alts]
        return alts

    def cidx(self, e):
        if e[0] == "ci":
            return mk("fromend", intv(e[1])) if e[3] else intv(e[1])
        return mk("slice", intv(e[1]), intv(e[2]))

    def read_place(self, cx, fr, p):
        v = cx.st.get((fr["n"], p["l"]), BOT)
        variant = None
        for e in p["p"]:
            if e[0] == "*":
                v = self.deref(cx.st, v)
            elif e[0] == "f":
                v = self.field(v, e[2], variant)
                variant = None
            elif e[0] == "d":
                variant = e[2]
            elif e[0] == "i":
                v = self.index(v, cx.st.get((fr["n"], e[1]), BOT))
            else:
                v = self.index(v, self.cidx(e))
        return v

    def write_place(self, cx, fr, p, val):
        if not p["p"]:
            ty = fr["body"]["locals"][p["l"]]["ty"]
            if ty == "bool" and val is not BOT:
                val = as_bool(val)
            cx.st[(fr["n"], p["l"])] = val
            return
        for g, loc, path in self.resolve(cx, fr, p):
            # a store through a pointer this analysis knows nothing about
            if any(e[0] == "*" for e in path):
                i = [k for k, e in enumerate(path) if e[0] == "*"][-1]
                ptr = self.read_loc(cx.st, loc, path[:i])
                if isinstance(ptr, T) and ptr.op in ("call", "f", "index", "elem", "entry"):
                    self.event(cx, "store", "store", [ptr, mk("path", *[x for e in path[i + 1:] for x in (e[0], e[-1])]), val], UNIT, fr)
            self.write(cx, loc, tuple(e for e in path if e[0] != "*"), val, g)

    # ---------------------------------------------------------------- operands
    def operand(self, cx, fr, o):
        if o["k"] == "const":
            return self.const(cx, fr, o)
        v = self.read_place(cx, fr, o["p"])
        if o["k"] == "move" and not o["p"]["p"]:
            cx.st[(fr["n"], o["p"]["l"])] = MOVED
        return v

    def const(self, cx, fr, o):
        if "fn" in o:
            return self.fnref(o["fn"])
        if "bool" in o:
            r = boolv(o["bool"])
        elif "adtc" in o:
            a = o["adtc"]
            r = agg((a["adt"], a["variant"]),
                    [(n, boolv(v) if isinstance(v, bool) else intv(v)) for n, v in a["fields"]])
        elif "int" in o:
            r = intv(o["int"])
        elif "str" in o:
            r = strv(o["str"])
        elif "bytes" in o:
            r = mk("bytes", o["bytes"])
        elif "char" in o:
            r = mk("char", o["char"])
        elif "promoted" in o:
            owner = self.F.fns.get(o["owner"])
            if owner is None:
                return mk("const", o["ty"])
            return self.eval_const_body(owner, owner.promoted[o["promoted"]], ("prom", o["promoted"]))
        elif o["ty"] == "()":
            r = UNIT
        elif "static" in o:
            r = mk("static", norm_path(o["static"]))
        elif "cid" in o and o["cid"] in self.F.fns:
            f = self.F.fns[o["cid"]]
            return self.eval_const_body(f, f.body, ("const",))
        elif "path" in o:
            r = mk("const", norm_path(o["path"]), *[a for a in o.get("cargs", [])])
        elif o.get("zst"):
            r = self.zst(o["ty"])
        else:
            r = mk("const", o.get("cty") or o["ty"])
        return r

    def zst(self, ty):
        return agg((ty, tys.parse(ty)[0].split("::")[-1]), ())

    _cc = {}

    def eval_const_body(self, owner, body, key):
        k = (id(self.F), owner.id, key)
        if k in Ev._cc:
            return Ev._cc[k]
        ev = Ev(self.F, self.stop)
        try:
            v, st = ev.run_body(owner, body, [], TRUE, {}, {})[:2]
            v = ev.full(st, v)
        except Unsupported:
            v = mk("const", owner.id, str(key))
        if v is BOT or v is None:
            v = mk("const", owner.id, str(key))
        Ev._cc[k] = v
        return v

    def fnref(self, c):
        key = c["id"] + "|" + ",".join(g["ty"] for g in c["targs"])
        self.fnrefs[key] = c
        return mk("fn", key)

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, cx, fr, r):
        k = r["k"]
        if k == "use":
            return self.operand(cx, fr, r["o"])
        if k == "ref":
            if r["m"] == "mut":
                alts = self.resolve(cx, fr, r["p"])
                v = BOT
                for g, loc, path in alts:
                    i = [n for n, e in enumerate(path) if e[0] == "*"]
                    if i:
                        # reborrow through a pointer value that is not one of our references
                        ptr = self.read_loc(cx.st, loc, path[:i[-1]])
                        if isinstance(ptr, T) and ptr.op in ("bot",):
                            pass
                        path = tuple(e for e in path if e[0] != "*")
                    t = mk("ref", loc, path)
                    v = t if v is BOT else ite(g, t, v)
                return v
            return self.read_place(cx, fr, r["p"])
        if k == "rawptr":
            return self.read_place(cx, fr, r["p"])
        if k == "disc":
            return self.discriminant(self.read_place(cx, fr, r["p"]), r["adt"])
        if k == "bin":
            a, b = self.operand(cx, fr, r["a"]), self.operand(cx, fr, r["b"])
            if r["op"] in ("Lt", "Le", "Gt", "Ge") and any(UNSIGNED.match(r[k].get("ty") or "") for k in "ab"):
                return self.binop(r["op"], a, b, True)
            return self.binop(r["op"], a, b)
        if k == "un":
            a = self.operand(cx, fr, r["a"])
            if r["op"] == "Not":
                return not_(as_bool(a)) if self.boolish(a) else mapv(lambda t: mk("bitnot", t), a)
            if r["op"] == "PtrMetadata":
                from models import length
                return length(self, a)
            return mapv(lambda t: intv(-t.args[0]) if isinstance(t, T) and t.op == "int" else mk("neg", t), a)
        if k == "cast":
            return self.operand(cx, fr, r["o"])
        if k == "agg":
            ops = [self.operand(cx, fr, o) for o in r["ops"]]
            ak = r["ak"]
            if ak == "tuple":
                return agg(("tuple", ""), [(str(i), v) for i, v in enumerate(ops)])
            if ak == "array":
                return agg(("array", ""), [(str(i), v) for i, v in enumerate(ops)])
            if ak == "adt":
                return agg((r["adt"], r["variant"]), list(zip(r["fields"], ops)))
            if ak in ("closure", "coroutine"):
                names = list(r["fields"]) + [str(i) for i in range(len(r["fields"]), len(ops))]
                return agg((ak, r["def"]), list(zip(names, ops)))
            return mk("rawagg", *ops)
        if k == "len":
            from models import length
            return length(self, self.read_place(cx, fr, r["p"]))
        if k == "repeat":
            return mapv(lambda t: mk("repeat", t, r["n"]), self.operand(cx, fr, r["o"]))
        if k == "tls":
            return mk("static", norm_path(r["path"]))
        if k == "nullary":
            return mk("nullary", r["op"], r["ty"])
        return mk("rv", str(r.get("d", k)))

    def boolish(self, v):
        for _, t in leaves(v):
            if not (t is TRUE or t is FALSE):
                return False
        return True

    def variants(self, adt):
        if adt in DOM:
            return DOM[adt]
        a = self.F.adts.get(adt)
        return tuple(v["name"] for v in a["variants"]) if a else None

    def disc_name(self, v, adt):
        """value whose leaves are T('v', name)"""
        dom = self.variants(adt)

        def leaf(t):
            if isinstance(t, A):
                return mk("v", t.ctor[1])
            if t.op == "upd":
                return self.disc_name(t.args[0], adt)
            vr = var("d", t, dom)
            return node(vr, [mk("v", n) for n in dom])
        return mapv(leaf, v)

    def is_variant(self, v, adt, *names):
        return mapv(lambda t: boolv(t.args[0] in names), self.disc_name(v, adt))

    def discriminant(self, v, adt):
        if adt is None:
            return mapv(lambda t: mk("discr", t), v)
        a = self.F.adts.get(adt)
        tab = {x["name"]: x["discr"] for x in a["variants"]}
        if adt in DOM:
            self._check_dom(adt, a)

        return mapv(lambda t: intv(tab[t.args[0]]) if t.args[0] in tab else BOT, self.disc_name(v, adt))

    def _check_dom(self, adt, a):
        assert tuple(x["name"] for x in a["variants"]) == DOM[adt], (adt, a)

    def binop(self, op, a, b, natural=False):
        if op.endswith("WithOverflow"):
            return agg(("tuple", ""), [("0", self.binop(op[:-12], a, b)), ("1", FALSE)])
        if op.endswith("Unchecked"):
            op = op[:-9]
        if op in ("BitAnd", "BitOr", "BitXor") and (self.boolish(a) or self.boolish(b)):
            a, b = as_bool(a), as_bool(b)
            return and_(a, b) if op == "BitAnd" else or_(a, b) if op == "BitOr" else not_(iff(a, b))
        if op in ("Eq", "Ne"):
            r = self.eq(a, b)
            return r if op == "Eq" else not_(r)
        if op in ("Lt", "Le", "Gt", "Ge"):
            if op == "Lt": return self.lt(a, b, natural)
            if op == "Gt": return self.lt(b, a, natural)
            if op == "Le": return not_(self.lt(b, a, natural))
            return not_(self.lt(a, b, natural))
        return apply(lambda x, y: self.arith(op, x, y), [a, b])

    def arith(self, op, x, y):
        xi = isinstance(x, T) and x.op == "int"
        yi = isinstance(y, T) and y.op == "int"
        if xi and yi:
            p, q = x.args[0], y.args[0]
            if op == "Add": return intv(p + q)
            if op == "Sub": return intv(p - q)
            if op == "Mul": return intv(p * q)
            if op == "BitAnd": return intv(p & q)
            if op == "BitOr": return intv(p | q)
        if op == "Sub" and yi:
            op, y = "Add", intv(-y.args[0])
        if op in ("Add", "Mul"):
            parts = []
            for z in (x, y):
                if isinstance(z, T) and z.op == op.lower():
                    parts += list(z.args)
                else:
                    parts.append(z)
            consts = [z for z in parts if isinstance(z, T) and z.op == "int"]
            rest = [z for z in parts if not (isinstance(z, T) and z.op == "int")]
            c = 0 if op == "Add" else 1
            for z in consts:
                c = c + z.args[0] if op == "Add" else c * z.args[0]
            if (op == "Add" and c != 0) or (op == "Mul" and c != 1):
                rest.append(intv(c))
            rest.sort(key=lambda z: z.h)
            if not rest:
                return intv(c)
            return rest[0] if len(rest) == 1 else mk(op.lower(), *rest)
        return mk(op.lower(), x, y)

    def lt(self, a, b, natural=False):
        def leaf(x, y):
            xi = isinstance(x, T) and x.op == "int"
            yi = isinstance(y, T) and y.op == "int"
            if xi and yi:
                return boolv(x.args[0] < y.args[0])
            if x is y:
                return FALSE
            if xi:
                # c < y  <=>  not (y < c+1)
                return not_(leaf(y, intv(x.args[0] + 1)))
            if yi and isinstance(x, T) and x.op == "len":
                if y.args[0] <= 0:
                    return FALSE
                if y.args[0] == 1:
                    from models import is_empty
                    return is_empty(self, x.args[0])
            if yi and natural and y.args[0] <= 1:
                return FALSE if y.args[0] < 1 else self.eq(x, intv(0))
            return as_bool(mk("lt", x, y))
        return apply(leaf, [a, b])

    def eq(self, a, b):
        def leaf(x, y):
            if x is y:
                return TRUE
            if isinstance(x, A) and isinstance(y, A):
                if x.ctor[1] != y.ctor[1]:
                    return FALSE
                r = TRUE
                for (n, p), (_, q) in zip(x.fields, y.fields):
                    r = and_(r, self.eq(p, q))
                return r
            if isinstance(y, A) or (isinstance(x, T) and x.op in ("int", "str", "char", "bool")):
                x, y = y, x
            if isinstance(x, A):
                dom = self.variants(x.ctor[0])
                if dom and len(dom) > 1:
                    r = self.is_variant(y, x.ctor[0], x.ctor[1])
                    variant = x.ctor[1]
                elif x.ctor[0] in ("array", "closure"):
                    return as_bool(mk("eq", *sorted((x, y), key=lambda z: z.h)))
                else:
                    r, variant = TRUE, (x.ctor[1] if x.ctor[0] not in ("tuple",) else None)
                    variant = None
                for n, p in x.fields:
                    r = and_(r, self.eq(p, self.field(y, n, variant)))
                return r
            if x is TRUE or x is FALSE or y is TRUE or y is FALSE:
                return iff(as_bool(x), as_bool(y))
            cs = ("int", "str", "char", "bytes")
            if isinstance(x, T) and isinstance(y, T) and x.op in cs and y.op in cs:
                return boolv(x.args == y.args and x.op == y.op)
            if y.op == "str" and y.args[0] == "":
                from models import is_empty
                return is_empty(self, x)
            if y.op == "int" and x.op == "len":
                n = y.args[0]
                if n == 0:
                    from models import is_empty
                    return is_empty(self, x.args[0])
                return and_(not_(self.lt(x, y)), self.lt(x, intv(n + 1))) if n > 0 else FALSE
            return as_bool(mk("eq", *sorted((x, y), key=lambda z: z.h)))
        if self.boolish(a) and self.boolish(b):
            return iff(as_bool(a), as_bool(b))
        return apply(leaf, [a, b])

    # ---------------------------------------------------------------- events
    def event(self, cx, kind, path, args, res, fr, line=0, extra=None):
        if self.dry:
            return
        e = Event()
        e.kind, e.path, e.args, e.res, e.guard = kind, path, list(args), res, cx.g
        e.ctx = tuple(self.binders)
        e.fn = fr["fn"].id if fr else None
        e.line = line
        e.extra = extra
        e.n = len(self.events)
        self.events.append(e)

    def panic(self, cx, what, cond, fr, line=0, args=()):
        """the program stops here when cond holds"""
        g = and_(cx.g, cond)
        if g is FALSE:
            return
        c2 = Cx(cx.st, g)
        self.event(c2, "panic", what, list(args), UNIT, fr, line)
        cx.g = and_(cx.g, not_(cond))

    # ---------------------------------------------------------------- functions
    def run(self, fn, args=None, g=TRUE, st=None):
        """analyse fn with symbolic (or given) arguments; returns (ret, state, guard, params)"""
        body = fn.body
        st = {} if st is None else dict(st)
        params = []
        for i in range(body["argc"]):
            l = body["locals"][i + 1]
            name = l.get("name") or ("arg%d" % i)
            if args is not None and i < len(args) and args[i] is not None:
                params.append(args[i])
                continue
            base = mk("param", name)
            if l["ty"].startswith("&mut ") or (l["ty"].startswith("&'") and " mut " in l["ty"][:12]):
                loc = ("heap", "*" + name)
                st[loc] = base
                params.append(mk("ref", loc, ()))
            elif l["ty"] == "bool":
                params.append(as_bool(base))
            else:
                params.append(base)
        ret, st2, g2 = self.run_body(fn, body, params, g, st, {})
        return ret, st2, g2, params

    def run_body(self, fn, body, args, g, st, tsub):
        self.frames += 1
        fr = {"n": self.frames, "fn": fn, "body": body, "tsub": tsub}
        n = self.frames
        self.visited[fn.id] = self.visited.get(fn.id, 0) + 1
        st = dict(st)
        for i, a in enumerate(args):
            if body["locals"][i + 1]["ty"] == "bool" and a is not BOT:
                a = as_bool(a)
            st[(n, i + 1)] = a
        if "cfg" not in body:
            body["cfg"] = Cfg(body)
        rets = []
        exits = self.region(fr, body["cfg"].top, {0: [(g, st)]}, rets)
        if not rets:
            return BOT, st, FALSE
        gt = or_(*[r[0] for r in rets])
        stt = self.merge([(r[0], r[1]) for r in rets])
        ret = stt.get((n, 0), BOT)
        if body["locals"][0]["ty"] == "()" and ret is BOT:
            ret = UNIT
        for k in [k for k in stt if k[0] == n]:
            del stt[k]
        return ret, stt, gt

    def merge(self, parts):
        parts = [(g, s) for g, s in parts if g is not FALSE]
        if not parts:
            return {}
        if len(parts) == 1:
            return dict(parts[0][1])
        gt = or_(*[g for g, _ in parts])
        keys = set()
        for _, s in parts:
            keys |= s.keys()
        out = {}
        s0 = parts[0][1]
        for k in keys:
            v0 = s0.get(k)
            if v0 is not None and all(s.get(k) is v0 for _, s in parts[1:]):
                out[k] = v0
                continue
            v = None
            for g, s in reversed(parts):
                x = s.get(k)
                if x is None:
                    x = mk("cellval", k[1]) if k[0] == "cell" else BOT
                v = x if v is None else ite(g, x, v)
            out[k] = restrict(v, gt)
        return out

    def region(self, fr, order, inc, rets):
        """process a list of blocks / loops in topological order; inc: block -> [(guard, state)].
        Returns edges leaving the region: [(target, guard, state)]"""
        inside = set()
        for it in order:
            inside |= it.nodes if isinstance(it, LoopNode) else {it}
        out = []

        def send(t, g, s):
            if g is FALSE:
                return
            if t in inside:
                inc.setdefault(t, []).append((g, s))
            else:
                out.append((t, g, s))
        for it in order:
            head = it.header if isinstance(it, LoopNode) else it
            parts = inc.pop(head, [])
            if not parts:
                continue
            g = or_(*[p[0] for p in parts])
            if g is FALSE:
                continue
            st = self.merge(parts)
            if isinstance(it, LoopNode):
                for t, eg, es in self.loop(fr, it, g, st, rets):
                    send(t, eg, es)
            else:
                for t, eg, es in self.block(fr, it, g, st, rets):
                    send(t, eg, es)
        return out

    def block(self, fr, b, g, st, rets):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported("analysis budget exhausted in " + fr["fn"].id)
        bb = fr["body"]["blocks"][b]
        cx = Cx(st, g)
        n = fr["n"]
        for s in bb["s"]:
            if s["k"] == "assign":
                v = self.rvalue(cx, fr, s["r"])
                self.write_place(cx, fr, s["p"], v)
            elif s["k"] == "dead":
                pass
        t = bb["t"]
        k = t["k"]
        if k == "goto":
            return [(t["t"], cx.g, cx.st)]
        if k == "return":
            rets.append((cx.g, cx.st))
            return []
        if k == "switch":
            v = self.operand(cx, fr, t["o"])
            out = []
            rest = TRUE
            for val, tgt in t["ts"]:
                if t["ty"] == "bool":
                    c = as_bool(v)
                    c = c if val else not_(c)
                elif t["ty"] == "char":
                    c = self.eq(v, mk("char", chr(val)))
                else:
                    if t["ty"] in ("isize", "i8", "i16", "i32", "i64", "i128") and val >= 1 << 63:
                        bits = {"i8": 8, "i16": 16, "i32": 32}.get(t["ty"], 64 if val < 1 << 64 else 128)
                        val -= 1 << bits
                    c = self.eq(v, intv(val))
                if c is BOT:
                    c = FALSE
                out.append((tgt, and_(cx.g, rest, c), cx.st))
                rest = and_(rest, not_(c))
            out.append((t["else"], and_(cx.g, rest), cx.st))
            return out
        if k == "drop":
            v = self.read_place(cx, fr, t["p"])
            for lg, leaf in leaves(v):
                if leaf is not MOVED and leaf is not BOT:
                    self.event(Cx(cx.st, and_(cx.g, lg)), "drop", t["ty"], [leaf], UNIT, fr, t["ln"])
            return [(t["t"], cx.g, cx.st)]
        if k == "assert":
            c = as_bool(self.operand(cx, fr, t["o"]))
            c = c if t["exp"] else not_(c)
            self.panic(cx, "assert:" + t["mk"], not_(c), fr, t["ln"])
            return [(t["t"], cx.g, cx.st)]
        if k == "call":
            st0 = cx.st
            args = [self.operand(cx, fr, a) for a in t["args"]]
            f = t["f"]
            if "fn" in f:
                c = f["fn"]
                r = self.call(cx, fr, c, args, t)
            else:
                fv = self.operand(cx, fr, f)
                r = self.call_value(cx, fr, fv, args, t)
            if t["t"] is None or cx.g is FALSE:
                return []
            self.write_place(cx, fr, t["d"], r)
            return [(t["t"], cx.g, cx.st)]
        if k == "yield":
            self.event(cx, "yield", "yield", [self.operand(cx, fr, t["v"])], UNIT, fr, t["ln"])
            self.write_place(cx, fr, t["d"], mk("resume"))
            return [(t["t"], cx.g, cx.st)]
        if k == "unreachable":
            return []
        raise Unsupported("terminator " + k)

    # ---------------------------------------------------------------- calls
    def tstr(self, fr, s):
        if not fr["tsub"]:
            return tys.parse(s)
        return tys.substitute(tys.parse(s), fr["tsub"])

    def impl_index(self):
        if self._impl_idx is None:
            d = {}
            for f in self.F.fns.values():
                if f.of_trait and f.self_ty and f.self_ty != "Self" and f.name:
                    tr = norm_path(tys.parse(f.of_trait)[0] if not f.of_trait.startswith("<") else re.sub(r"^<.*? as (.*)>$", r"\1", f.of_trait).split("<")[0])
                    d.setdefault((tr.split("::")[-1].split("<")[0], f.name), []).append(f)
            self._impl_idx = d
        return self._impl_idx

    def find_impl(self, trait, name, selfty):
        for f in self.impl_index().get((trait.split("::")[-1], name), ()):
            b = {}
            ps = set(f.generics)
            if tys.unify(tys.parse(f.self_ty), selfty, ps, b):
                return f, b
        return None, None

    def find_from(self, to, frm):
        """the local `impl From<frm> for to`, if there is one"""
        odd = []
        for f in self.impl_index().get(("From", "from"), ()):
            b = {}
            if not tys.unify(tys.parse(f.self_ty), to, set(f.generics), b):
                continue
            m = re.match(r"^<.* as std::convert::From<(.*)>>$", f.of_trait)
            try:
                src = tys.parse(m.group(1))
                if tys.unify(src, frm, set(f.generics), b):
                    return f, b
                if "<" in m.group(1)[:2]:
                    odd.append((f, b))
            except Exception:
                odd.append((f, b))
        return odd[0] if len(odd) == 1 else (None, None)

    def local_target(self, fr, c):
        """(fn, tsub) of a callee with a body here, else (None, None)"""
        targs = [self.tstr(fr, g["ty"]) for g in c["targs"]]
        if "rid" in c and c["rid"] in self.F.fns:
            fn = self.F.fns[c["rid"]]
            b = {}
            if fn.self_ty and fn.self_ty != "Self" and targs:
                tys.unify(tys.parse(fn.self_ty), targs[0], set(fn.generics), b)
            elif fn.self_ty == "Self":
                b = dict(zip(fn.generics, targs))
            return fn, b
        if c["id"] in self.F.fns and "rid" not in c:
            fn = self.F.fns[c["id"]]
            if "trait" in c and c.get("inst") != "item" and targs:
                f2, b = self.find_impl(c["trait"], c["name"], targs[0])
                if f2 is not None:
                    return f2, b
                if fn.self_ty == "Self" and c.get("inst") is None:
                    pass
            return fn, dict(zip(fn.generics, targs))
        if "trait" in c and "rid" not in c and targs:
            f2, b = self.find_impl(c["trait"], c["name"], targs[0])
            if f2 is not None:
                return f2, b
        return None, None

    def call(self, cx, fr, c, args, t):
        if "ctor" in c:
            a = self.F.adts.get(c["ctor"][0])
            names = None
            for v in a["variants"]:
                if v["name"] == c["ctor"][1]:
                    names = [x["name"] for x in v["fields"]]
            return agg((c["ctor"][0], c["ctor"][1]), list(zip(names, args)))
        path = norm_path(c["path"])
        fn, b = self.local_target(fr, c)
        if path.startswith("std::cmp::PartialEq::"):
            if fn is not None and fn.derived:
                return self.models[path](self, cx, fr, c, args, t)
            if fn is None:
                r = self.eq_behind(cx, fr, c, args, t)
                if r is not None:
                    return r if path.endswith("eq") else not_(r)
        if fn is not None and fn.kind not in ("Fn", "AssocFn") and path.startswith("std::ops::Fn") and path.split("::")[-1].startswith("call"):
            fn = None           # a closure called by its trait: the arguments come as one tuple
        if fn is not None and fn.coroutine and path.endswith("Future::poll"):
            fn = None           # polling an async body: see the model
        if fn is None and path == "std::convert::Into::into" and len(c["targs"]) == 2:
            fn, b = self.find_from(self.tstr(fr, c["targs"][1]["ty"]), self.tstr(fr, c["targs"][0]["ty"]))
        hook = getattr(self, "hook", None)
        if hook:
            r = hook(self, cx, fr, c, path, fn, args, t)
            if r is not None:
                return r
        if fn is not None and not self.stopped(fn):
            return self.inline_call(cx, fr, fn, args, b, t, path)
        m = self.models.get(path)
        if m is None and "rpath" in c and not c.get("rlocal"):
            m = self.models.get(norm_path(c["rpath"]))
        if m is None:
            for pre, pm in self.prefix_models:
                if path.startswith(pre):
                    m = pm
                    break
        if m is not None and fn is None:
            r = m(self, cx, fr, c, args, t)
            if r is not NotImplemented:
                if t.get("dty") == "bool" and r is not BOT:
                    r = as_bool(r)
                return r
        if fn is not None:
            path = self.fname(fn)
        return self.opaque(cx, fr, path, args, t, c, fn)

    def eq_behind(self, cx, fr, c, args, t):
        """== between references uses the == of what they refer to"""
        if len(c["targs"]) != 2:
            return None
        a, b = (self.tstr(fr, g["ty"]) for g in c["targs"])
        args = list(args)
        n = 0
        while a[0] in ("&", "&mut") and b[0] in ("&", "&mut"):
            a, b = a[1], b[1]
            args = [self.deref(cx.st, x) for x in args]
            n += 1
        if not n:
            return None
        fn, sub = self.find_impl("std::cmp::PartialEq", "eq", a)
        if fn is None or fn.derived or self.stopped(fn):
            return None
        return as_bool(self.inline_call(cx, fr, fn, args, sub, t, "std::cmp::PartialEq::eq"))

    def fname(self, fn):
        return norm_path(fn.path)

    def stopped(self, fn):
        return fn.id in self.stop

    def inline_call(self, cx, fr, fn, args, tsub, t, path):
        if fn.id in self.stack or len(self.stack) > 40 or not self.inline:
            return self.opaque(cx, fr, self.fname(fn), args, t, None, fn)
        if fn.coroutine and len(args) == 0:
            pass
        self.stack.append(fn.id)
        try:
            ret, st, g = self.run_body(fn, fn.body, args, cx.g, cx.st, tsub)
        finally:
            self.stack.pop()
        if g is FALSE:
            cx.g = FALSE
            return BOT
        cx.st, cx.g = st, g
        return ret

    def call_value(self, cx, fr, fv, args, t=None):
        """call a closure / function value with already separated arguments"""
        ls = leaves(fv)
        if len(ls) == 1:
            return self._call_leaf(cx, fr, ls[0][1], args, t)
        # a choice of callees: run each under its guard
        outs = []
        for lg, leaf in ls:
            g = and_(cx.g, lg)
            if g is FALSE:
                continue
            c2 = Cx(dict(cx.st), g)
            r = self._call_leaf(c2, fr, leaf, args, t)
            if c2.g is not FALSE:
                s = dict(c2.st)
                s[("tmp", 0)] = r
                outs.append((c2.g, s))
        if not outs:
            cx.g = FALSE
            return BOT
        cx.g = or_(*[o[0] for o in outs])
        st = self.merge(outs)
        r = st.pop(("tmp", 0))
        cx.st = st
        return r

    def _call_leaf(self, cx, fr, f, args, t):
        if isinstance(f, T) and f.op == "ref":
            f = self.deref(cx.st, f)
            return self.call_value(cx, fr, f, args, t)
        if isinstance(f, A) and f.ctor[0] == "closure":
            fn = self.F.fns.get(f.ctor[1])
            if fn is not None:
                if fn.id in self.stack:
                    return self.opaque(cx, fr, "closure:" + fn.id, args, t, None)
                tsub = fr["tsub"] if fr else {}
                self.stack.append(fn.id)
                # the closure itself may mutate by-value captures: give it a location
                self.frames += 1
                loc = ("clo", self.frames)
                st = dict(cx.st)
                by_ref = fn.body["locals"][1]["ty"].startswith("&mut")
                self_arg = f
                if by_ref:
                    st[loc] = f
                    self_arg = mk("ref", loc, ())
                try:
                    ret, st, g = self.run_body(fn, fn.body, [self_arg] + list(args), cx.g, st, tsub)
                finally:
                    self.stack.pop()
                st.pop(loc, None)
                if g is FALSE:
                    cx.g = FALSE
                    return BOT
                cx.st, cx.g = st, g
                return ret
        if isinstance(f, T) and f.op == "fn":
            c = self.fnrefs[f.args[0]]
            return self.call(cx, fr, c, list(args), dict(t or {}, dty=c.get("out", ""), aty=c.get("ins", [])))
        if isinstance(f, T) and f.op == "lam":
            n = f.args[0]

            def rep(x):
                if x.op == "lp" and x.args[0] == f.args[3]:
                    return args[x.args[1]] if x.args[1] < len(args) else None
                return None
            return subst(f.args[1], rep)
        if isinstance(f, T) and f.op == "call" and f.args[0] == "nom::combinator::map" and len(f.args) == 3 and len(args) == 1:
            # a parser whose output is mapped: run the parser, then map what it produced
            from models import branch, res, ok, err
            r = self.call_value(cx, fr, f.args[1], args, None)
            s, x, e = res(self, r)
            x = restrict(x, s)
            return branch(self, cx, s, lambda k: ok(agg(("tuple", ""), [("0", self.field(x, "0")), ("1", self.call_value(k, fr, f.args[2], [self.field(x, "1")], None))])),
                          lambda k: err(restrict(e, not_(s))))
        return self.opaque(cx, fr, "callval", [f] + list(args), t, None)

    def lam(self, cx, fr, f, n, what="lam", types=None):
        """the closure value f as a term: its result for symbolic arguments. Events inside are recorded."""
        d = self.lamdepth
        ps = [mk("lp", d, i) for i in range(n)]
        return self.lam_with(cx, fr, f, ps, what)

    def lam_with(self, cx, fr, f, ps, what="lam"):
        d = self.lamdepth
        self.lamdepth += 1
        self.binders.append("λ" + what.split("::")[-1])
        st0 = cx.st
        try:
            c2 = Cx(dict(st0), cx.g)
            r = self.call_value(c2, fr, f, ps, None)
            r = self.full(c2.st, restrict(r, c2.g) if c2.g is not FALSE else BOT)
            changed = {}
            for k, v in c2.st.items():
                if k in st0 and st0[k] is not v:
                    changed[k] = v
                elif k not in st0 and k[0] == "cell":
                    changed[k] = v
        finally:
            self.binders.pop()
            self.lamdepth -= 1
        for k, v in changed.items():
            old = st0.get(k)
            if old is None:
                old = mk("cellval", k[1])
            cx.st[k] = mk("lamfx", what, old, v)
        g = restrict(c2.g, cx.g) if c2.g is not FALSE else FALSE
        if g is BOT:
            g = FALSE
        return mk("lam", len(ps), r, g, d)

    def arity(self, f):
        for _, l in leaves(f):
            if isinstance(l, A) and l.ctor[0] == "closure":
                fn = self.F.fns.get(l.ctor[1])
                if fn:
                    return fn.body["argc"] - 1
        return None

    def frames_of(self, fn, i, arg):
        """fields of what the i-th argument points to that fn may write; None: anything"""
        if fn is None or not all(isinstance(l, T) and l.op == "ref" or l is BOT for _, l in leaves(arg)):
            return None
        import frame
        m = frame.of(self.F).get(fn.id, i + 1)
        return m if m is None or len(m) <= 6 else None

    def only(self, old, new, fields):
        """old, with some fields as in new"""
        for n in sorted(fields):
            old = self.upd(old, (("f", None, n),), self.field(new, n))
        return old

    def opaque(self, cx, fr, path, args, t, c, fn=None):
        """a call this analysis does not look into: an event, and a term for its result"""
        vals = []
        refs = []
        for i, a in enumerate(args):
            a = restrict(a, cx.g)
            if a is BOT:
                a = args[i]
            for lg, l in leaves(a):
                self.collect_refs(cx, l, refs, lg, i)
            n = self.arity(a)
            if n is not None:
                a = mapv(lambda l: self.lam(cx, fr, l, n, path) if isinstance(l, A) and l.ctor[0] == "closure" else l, a)
            if any(isinstance(l, A) and l.ctor[0] == "coroutine" for _, l in leaves(a)):
                a = mapv(lambda l: mk("fut", self.await_(cx, fr, l, path)) if isinstance(l, A) and l.ctor[0] == "coroutine" else l, a)
            vals.append(self.full(cx.st, a))
        targs = ()
        if c is not None and path.split("::")[-1] in ("parse", "collect", "sum", "into", "default", "size_of", "from", "type_id", "downcast_ref", "deserialize", "from_reader", "from_str"):
            # (reading through a reference to a reader is reading from the reader)
            targs = (mk("ty", *[tys.show(tys.peel(self.tstr(fr, g["ty"]))) for g in c["targs"]]),)

        res = self.mkcall(path, vals + list(targs))
        line = t.get("ln", 0) if t else 0
        self.unmodelled[path] = self.unmodelled.get(path, 0) + 1
        dty = t.get("dty") if t else None
        if dty == "bool":
            res = as_bool(res)
        elif dty == "()":
            res = UNIT
        chained = self.chain(c, fn, args, t, refs)
        if chained is None:
            self.event(cx, "call", path, vals, res, fr, line, extra=(t.get("mac") if t else None))
        for lg, ref, i in refs:
            old = self.read_loc(cx.st, ref.args[0], ref.args[1])
            fields = self.frames_of(fn, i, args[i])
            if fields is not None and not fields:
                continue
            old = self.full(cx.st, old)
            new = self.mkcall("mut:" + path, [old] + [v for j, v in enumerate(vals) if j != i])
            if fields is not None:
                new = self.only(old, new, fields)
            self.write(cx, ref.args[0], ref.args[1], new, lg)
        if t is not None and t.get("t", 0) is None:
            self.panic(cx, path, TRUE, fr, line, vals)
        if chained == "ref":
            return args[0]
        if chained:
            ok = self.is_variant(res, RESULT, "Ok")
            return ite(ok, agg((RESULT, "Ok"), [("0", args[0])]), agg((RESULT, "Err"), [("0", self.field(res, "0", "Err"))]))
        return res

    def chain(self, c, fn, args, t, refs):
        """builder methods: fn(&mut T, ..) -> &mut T (or Result<&mut T, _>) hands back its receiver, and what it did is in T"""
        if fn is not None or c is None or not t or not t.get("dty") or not t.get("aty") or not refs:
            return None
        try:
            d, a0 = tys.parse(t["dty"]), tys.parse(t["aty"][0])
        except Exception:
            return None
        if a0[0] != "&mut" or any(i != 0 for _, _, i in refs) or any(lg is not TRUE for lg, _, _ in refs[:1]) and len(refs) == 1:
            return None
        if d == a0:
            return "ref"
        if d[0] == RESULT and len(d) == 3 and d[1] == a0:
            return "result"
        return None

    def collect_refs(self, cx, v, acc, g, i, depth=0):
        if depth > 3:
            return
        if isinstance(v, T):
            if v.op == "ref":
                acc.append((g, v, i))
        elif isinstance(v, A):
            if v.ctor[0] in ("closure", "coroutine"):
                return
            for _, x in v.fields:
                for lg, l in leaves(x):
                    self.collect_refs(cx, l, acc, and_(g, lg), i, depth + 1)

    def mkcall(self, path, vals):
        vs = set()
        for v in vals:
            vs.update(support(v))
        if not vs or len(vs) > 8:
            return ncall(path, *vals)
        flat = [self.lift(v) for v in vals]
        return apply(lambda *ls: ncall(path, *ls), flat)

    def lift(self, v):
        """decisions inside aggregates brought to the top"""
        if isinstance(v, N):
            memo = {}

            def go(x):
                if x is BOT:
                    return BOT
                if isinstance(x, N):
                    if x.id not in memo:
                        memo[x.id] = lcase(x.var, [go(k) for k in x.kids])
                    return memo[x.id]
                return self.lift(x)
            return go(v)
        if isinstance(v, A) and v.fields and support(v):
            fs = [self.lift(x) for _, x in v.fields]
            names = [n for n, _ in v.fields]
            return lapply(lambda *ls: agg(v.ctor, list(zip(names, ls))), fs)
        return v

    # ---------------------------------------------------------------- async
    def await_(self, cx, fr, fut, what="await"):
        def leaf(l):
            if isinstance(l, A) and l.ctor[0] == "coroutine":
                fn = self.F.fns.get(l.ctor[1])
                if fn is not None and fn.id not in self.stack:
                    self.stack.append(fn.id)
                    try:
                        ret, st, g = self.run_body(fn, fn.body, [l, mk("resume")], cx.g, cx.st, fr["tsub"])
                    finally:
                        self.stack.pop()
                    if g is FALSE:
                        cx.g = FALSE
                        return BOT
                    cx.st, cx.g = st, g
                    return ret
            if isinstance(l, T) and l.op == "fut":
                return l.args[0]
            return mk("await", l)
        ls = leaves(fut)
        if len(ls) == 1:
            return leaf(ls[0][1])
        return mapv(lambda l: mk("await", l), fut)

    # ---------------------------------------------------------------- loops
    def fresh_elem(self, coll):
        d = sum(1 for b in self.binders if isinstance(b, tuple) and b[0] is coll)
        return mk("elem", coll, d)

    def loop(self, fr, ln, g, st, rets):
        # 1. which locations change? (iterate, because knowing more variables can reveal more)
        self.nopen += 1
        try:
            return self.loop_(fr, ln, g, st, rets)
        finally:
            self.nopen -= 1

    def newlv(self, lid, st, k, mod):
        """a loop variable; its name depends only on what it starts from"""
        init = self.lget(st, k)
        h = init.h.hex()[:12]
        n = sum(1 for v in mod.values() if v.args[1] == h)
        v = mk("lv", lid, h, n)
        self.lvinit[v.id] = init
        return v

    # a loop variable stands for a location or for a field of one: key = (location, field names)
    def lget(self, st, k):
        v = st.get(k[0])
        if v is None:
            return mk("cellval", k[0][1]) if k[0][0] == "cell" else BOT
        for n in k[1]:
            v = self.field(v, n)
        return v

    def lput(self, st, k, val):
        if not k[1]:
            st[k[0]] = val
        else:
            st[k[0]] = self.upd(st[k[0]], tuple(("f", None, n) for n in k[1]), val)

    def changed(self, old, new, path=()):
        """where do they differ? [field names]"""
        if old is new:
            return []
        if len(path) < 4:
            if isinstance(old, A) and isinstance(new, A) and old.ctor == new.ctor and [n for n, _ in old.fields] == [n for n, _ in new.fields] \
                    and old.ctor[0] not in ("array", "closure", "coroutine") and old.fields:
                return [p for (n, x), (_, y) in zip(old.fields, new.fields) for p in self.changed(x, y, path + (n,))]
            if isinstance(old, T) and isinstance(new, T) and "upd" in (old.op, new.op):
                names, bs = {}, []
                for t in (old, new):
                    while t.op == "upd":
                        names[t.args[1]] = 1
                        t = t.args[0]
                        if not isinstance(t, T):
                            break
                    bs.append(t)
                if bs[0] is bs[1] and bs[0].op != "lv":
                    if any("\t" in n for n in names):
                        return [path]
                    return [p for n in names for p in self.changed(self.field(old, n), self.field(new, n), path + (n,))]
        return [path]

    def grow(self, lid, st, before, after, mod):
        """new loop variables for what an iteration changed; (state with cells it created, any new?)"""
        new = False
        for k, v in after.items():
            if v is MOVED:
                continue
            if k in before:
                for path in self.changed(before[k], v):
                    key = (k, path)
                    if any(m[0] == k and m[1] == path[:len(m[1])] for m in mod):
                        continue
                    for m in [m for m in mod if m[0] == k and path == m[1][:len(path)]]:
                        del mod[m]
                    mod[key] = self.newlv(lid, st, key, mod)
                    new = True
            elif k[0] == "cell":
                st = dict(st)
                st[k] = mk("cellval", k[1])
                mod[(k, ())] = self.newlv(lid, st, (k, ()), mod)
                new = True
        return st, new

    def multi(self, fr, ln, g, st, rets, src, ys):
        """a loop over a sequence given in pieces: one piece after the other"""
        outs = []
        for y in ys:
            bs, yg, yv = y.args
            if not bs:
                g1 = and_(g, yg)
                if g1 is FALSE:
                    continue
                back, exits, rr = self.iterate(fr, ln, g1, {**st, src: mkseq([yld((), TRUE, yv)])}, None)
                outs += exits
                rets += rr
                parts = ([back] if back else []) + [(and_(g, not_(yg)), st)]
                parts = [p for p in parts if p[0] is not FALSE]
            else:
                parts = []
                outs += self.loop_(fr, ln, g, {**st, src: mk("seq", (y,), ())}, rets, parts)
                if not parts:
                    raise NotSimple()
                parts = [p for p in parts if p[0] is not FALSE]
            if not parts:
                return outs
            g = or_(*[p[0] for p in parts])
            st = self.merge(parts)
        back, exits, rr = self.iterate(fr, ln, g, {**st, src: mkseq([])}, None)
        rets += rr
        if back:
            raise NotSimple()
        return outs + exits

    def pieces(self, st, mod, back, g):
        """(location of the iterator, its pieces) if the loop runs over a sequence of several known pieces"""
        from models import as_seq
        for k, lv in mod.items():
            nv = self.lget(back[1], k)
            if isinstance(nv, T) and nv.op == "adv" and nv.args[0] is lv:
                if k[1]:
                    return None, None
                seq = as_seq(self, restrict(self.lget(st, k), g))
                if isinstance(seq, T) and seq.op == "seq" and not seq.args[1] and len(seq.args[0]) <= 6:
                    if len(seq.args[0]) != 1 or not seq.args[0][0].args[0]:
                        return k[0], seq.args[0]
                return None, None
        return None, None

    def loop_(self, fr, ln, g, st, rets, hdr=None):
        lid = mk("loop", self.nopen)
        mod = {}
        for _ in range(8):
            self.dry += 1
            nb = list(self.binders)
            self.binders.append(("loop", lid))
            before = self.havoc(st, mod, lid)
            try:
                back, exits, rr = self.iterate(fr, ln, g, before, lid)
            finally:
                self.dry -= 1
                self.binders = nb
            if not back:
                break
            st, new = self.grow(lid, st, before, back[1], mod)
            if not new:
                break
        else:
            raise Unsupported("loop does not stabilise in " + fr["fn"].id)
        for k, lv in mod.items():
            self.lvinit[lv.id] = self.lget(st, k)
        if back:
            src, ys = self.pieces(st, mod, back, g)
            if src is not None:
                nev, nr = len(self.events), len(rets)
                try:
                    return self.multi(fr, ln, g, st, rets, src, ys)
                except NotSimple:
                    del self.events[nev:]
                    del rets[nr:]
        if not back:
            if hdr is not None:
                raise NotSimple()
            # never iterates (e.g. the polling loop of an await): straight-line code
            back, exits, rr = self.iterate(fr, ln, g, st, lid)
            rets.extend(rr)
            return exits
        nev = len(self.events)
        nb = list(self.binders)
        self.binders.append(("loop", lid))
        back, exits, rr = self.iterate(fr, ln, g, self.havoc(st, mod, lid), lid)
        self.binders = nb
        return self.close_loop(fr, ln, lid, g, st, mod, back, exits, rr, rets, nev, hdr)

    def havoc(self, st, mod, lid):
        s = dict(st)
        for k, v in mod.items():
            self.lput(s, k, v)
        return s

    def iterate(self, fr, ln, g, st, lid):
        """one abstract iteration: ((back guard, back state) or None, exits, returns)"""
        rr = []
        inc = {}
        outs = []
        for t, eg, es in self.block(fr, ln.header, g, st, rr):
            if t == ln.header:
                outs.append((t, eg, es))
            elif t in ln.nodes:
                inc.setdefault(t, []).append((eg, es))
            else:
                outs.append((t, eg, es))
        outs = [o for o in outs if o[1] is not FALSE]
        outs += self.region(fr, ln.order, inc, rr)
        back = [(eg, es) for t, eg, es in outs if t == ln.header and eg is not FALSE]
        exits = [(t, eg, es) for t, eg, es in outs if t != ln.header and eg is not FALSE]
        if not back:
            return None, exits, rr
        return (or_(*[b[0] for b in back]), self.merge(back)), exits, rr

    def close_loop(self, fr, ln, lid, g, st, mod, back, exits, rr, rets, nev, hdr=None):
        lvs = {v.id: k for k, v in mod.items()}
        is_lv = lambda x: x.op == "lv" and x.args[0] is lid
        bg, bs = back
        # several ways out to one place are one exit
        byt = {}
        for t, eg, es in exits:
            byt.setdefault(t, []).append((eg, es))
        exits = [(t, or_(*[x[0] for x in xs]), self.merge(xs) if len(xs) > 1 else xs[0][1]) for t, xs in byt.items()]
        if len(rr) > 1:
            rr = [(or_(*[x[0] for x in rr]), self.merge(rr))]
        # iteration source: a location whose next value is "adv(lv)"
        src = None
        for k, lv in mod.items():
            nv = self.lget(bs, k)
            if isinstance(nv, T) and nv.op == "adv" and nv.args[0] is lv:
                src = (k, lv)
                break
        more = var("d", mk("more", src[1]), ("None", "Some")) if src else None
        el = mk("cur", src[1]) if src else None
        if src:
            from models import as_seq
            coll = self.lvinit[src[1].id]
            coll = restrict(coll, g)
            seq = as_seq(self, coll)
            ys = seq.args[0] if isinstance(seq, T) and seq.op == "seq" else ()
            if len(ys) == 1:
                bnds, yg, yv = ys[0].args
                bnds = mark(bnds, seq.args[1])
                # avoid capture by loops over the same collection that are still open
                bnds, yg, yv = self.rename(bnds, yg, yv)
            else:
                c = seq if not isinstance(coll, N) else coll
                e = self.fresh_elem(c)
                bnds, yg, yv = ((c, e),), TRUE, e
            # ... and by loops inside this one that are closed already
            inner = {}
            for v in [bg] + list(bs.values()) + [e[1] for e in exits] + [v for e in exits for v in e[2].values()] \
                    + [v for e in rr for v in (e[0],) + tuple(e[1].values())] + [v for e in self.events[nev:] for v in e.args + [e.guard]]:
                subterms(v, inner)
            if any(e.id in inner for _, e in bnds):
                bnds, yg, yv = self.rename(bnds, yg, yv, inner)

            def rep(x):
                return yv if x is el else None

            def close(v):
                """view of v inside an iteration"""
                v = cofactor_deep(v, more, 1)
                return subst(v, rep)
            if each_of(seq) is not None:
                yv = bnds[-1][1]
            it_g = yg
            # rewrite events recorded inside the loop
            if not self.dry:
                for e in self.events[nev:]:
                    e.guard = and_(close(e.guard), it_g)
                    e.args = [close(a) for a in e.args]
                    e.res = close(e.res)
                    e.ctx = tuple(x for b in e.ctx for x in (bnds if (isinstance(b, tuple) and b[0] == "loop" and b[1] is lid) else (b,)))
                    e.ctx = mapctx(close, e.ctx)
            normal = [(t, eg, es) for t, eg, es in exits if cofactor(eg, more, 0) is not FALSE]
            early = []
            for t, eg, es in exits:
                e1 = cofactor_deep(eg, more, 1)
                if e1 is not FALSE:
                    early.append((t, and_(subst(e1, rep), it_g), {k: close(v) for k, v in es.items()} , es))
            for eg, es in rr:
                e1 = cofactor_deep(eg, more, 1)
                if e1 is not FALSE:
                    early.append((None, and_(subst(e1, rep), it_g), {k: close(v) for k, v in es.items()}, es))
            loopg = and_(close(bg), it_g)
            brk = or_(*[e[1] for e in early]) if early else FALSE
            nxt = {}
            for k, lv in mod.items():
                if lv is src[1]:
                    continue
                # elements rejected by the source's filter leave the state alone
                nxt[k] = restrict(close(self.lget(bs, k)), restrict_g(loopg, g))
            summ = self.solve(nxt, mod, st, bnds, it_g, is_lv, g)
            simple = all(k in summ for k in nxt)
            summ[src[0]] = mk("exhausted", restrict(coll, g))
            if simple:
                def sofar(x):
                    if is_lv(x):
                        k = lvs[x.id]
                        return self.lget(st, k) if summ[k] is self.lget(st, k) else mk("sofar", summ[k])
                    return None
                early = [(t, subst(eg, sofar), es, raw) for t, eg, es, raw in early]
                brk = or_(*[e[1] for e in early]) if early else FALSE
                h_brk = restrict(brk, g) if brk is not FALSE else FALSE
            if simple:
                if not self.dry:
                    for e in self.events[nev:]:
                        e.guard = subst(e.guard, sofar)
                        e.args = [subst(a, sofar) for a in e.args]
                        e.res = subst(e.res, sofar)
                        e.ctx = mapctx(lambda v: subst(v, sofar), e.ctx)
                outs = []
                ex = self.exists(bnds, h_brk) if early else FALSE
                ones = {}
                if len(early) > 1:
                    # which exit is taken is decided by the first element that leaves the loop
                    rest = ex
                    es_ = sorted(early, key=lambda e: restrict(restrict(e[1], g), h_brk).h)
                    for e in es_[:-1]:
                        ones[id(e)] = and_(ex, self.first_guard(bnds, h_brk, restrict(e[1], g)))
                        rest = and_(rest, not_(ones[id(e)]))
                    ones[id(es_[-1])] = rest
                for e_ in early:
                    t, eg, es, raw = e_
                    one = ones[id(e_)] if ones else self.exists(bnds, restrict(eg, g))
                    gg = and_(g, one)
                    s2 = {}
                    for k, v in es.items():
                        if src[0] == (k, ()):
                            s2[k] = mk("rest", restrict(coll, g))
                            continue
                        v = subst(v, lambda x: self.prefix_of(x, is_lv, st, mod, lvs, nxt, bnds, h_brk, summ))
                        s2[k] = self.first(bnds, h_brk, v)
                    if t is None:
                        rets.append((gg, s2))
                    else:
                        outs.append((t, gg, s2))
                if hdr is not None:
                    s2 = dict(st)
                    for k in mod:
                        self.lput(s2, k, summ[k])
                    hdr.append((and_(g, not_(ex)), s2))
                    return outs
                for t, eg, es in normal:
                    gg = and_(g, not_(ex), cofactor_deep(restrict_g(eg, g), more, 0))
                    s2 = {k: subst(cofactor_deep(v, more, 0), lambda x: summ[lvs[x.id]] if is_lv(x) else None) for k, v in es.items()}
                    for k in mod:
                        if not k[1] and k[0] in s2:
                            s2[k[0]] = summ[k]
                    outs.append((t, gg, s2))
                return outs
        if hdr is not None:
            raise NotSimple()
        # general case: an opaque fixpoint, described by its one-iteration summary
        if src:
            view = lambda v: case(more, [cofactor_deep(v, more, 0), close(v)])
            step = close
        else:
            view = step = lambda v: v
        order = list(mod.items())
        inits = {lv.id: restrict_g(self.lget(st, k), g) for k, lv in order}
        nexts = {lv.id: (step(restrict_g(self.lget(bs, k), bg)) if bs[k[0]] is not MOVED else MOVED) for k, lv in order}
        exg = tuple(view(restrict_g(eg, g)) for t, eg, es in exits) + tuple(view(restrict_g(eg, g)) for eg, es in rr)
        needs = {}

        def closure(vs):
            need, todo = {}, list(vs)
            while todo:
                v = todo.pop()
                if v.id not in needs:
                    needs[v.id] = [x for x in subterms(v).values() if isinstance(x, T) and is_lv(x)]
                for x in needs[v.id]:
                    if x.id not in need:
                        need[x.id] = x
                        todo.append(nexts[x.id])
            return [lv for k, lv in order if lv.id in need]
        descs = {}

        def describe(lv):
            i = lv.id if lv is not None else 0
            if i not in descs:
                need = closure(exg + ((lv,) if lv is not None else ()))
                descs[i] = normdesc(lv, [(v, inits[v.id], nexts[v.id]) for v in need], exg)
            return descs[i]
        desc = describe(None)

        def after(x):
            if is_lv(x):
                return mk("fix", describe(x))
            if x is el:
                return mk("lastcur", desc)
            if x.op == "more" and src and x.args[0] is src[1]:
                return mk("lastmore", desc)
            return None

        def inside(x):
            return mk("during", describe(x)) if is_lv(x) else None
        if not self.dry:
            look = (lambda v: subst(close(v), inside)) if src else (lambda v: subst(v, inside))
            for e in self.events[nev:]:
                e.guard = look(e.guard)
                e.args = [look(a) for a in e.args]
                e.res = look(e.res)
                e.ctx = tuple(("loop", desc) if isinstance(b, tuple) and b[0] == "loop" and b[1] is lid else b for b in e.ctx)
                e.ctx = mapctx(look, e.ctx)
        outs = []
        single = len(exits) + len(rr) == 1
        for t, eg, es in exits:
            gg = g if single else and_(g, subst(view(restrict_g(eg, g)), after))
            outs.append((t, gg, {k: subst(view(restrict_g(v, eg)), after) for k, v in es.items()}))
        for eg, es in rr:
            gg = g if single else and_(g, subst(view(restrict_g(eg, g)), after))
            rets.append((gg, {k: subst(view(restrict_g(v, eg)), after) for k, v in es.items()}))
        return outs

    def solve(self, nxt, mod, st, bnds, it_g, is_lv, g):
        """loop variables that have a closed form: {location: value after all iterations}"""
        summ, pending = {}, dict(nxt)
        byid = {mod[k].id: k for k in nxt}
        while pending:
            progress = False
            for k in list(pending):
                def known(x):
                    if is_lv(x) and byid.get(x.id) in summ:
                        j = byid[x.id]
                        return self.lget(st, j) if summ[j] is self.lget(st, j) else mk("sofar", summ[j])
                    return None
                s = self.summarise(self.lget(st, k), mod[k], subst(pending[k], known), bnds, it_g, is_lv, g, FALSE)
                if s is not None:
                    summ[k] = s
                    del pending[k]
                    progress = True
            if not progress:
                break
        return summ

    def rename(self, bnds, yg, yv, avoid=()):
        m = {}
        nb = []
        for c, e in bnds:
            c2 = subst(c, lambda x: m.get(x.id))
            ne = e
            c0 = c2.args[0] if isinstance(c2, T) and c2.op == "ordered" else c2
            if isinstance(e, T) and e.op == "elem":
                same = lambda b: isinstance(b, tuple) and (b[0] is c0 or isinstance(b[0], T) and b[0].op == "ordered" and b[0].args[0] is c0)
                d = sum(1 for b in self.binders if same(b)) + sum(1 for b in nb if same(b))
                ne = mk("elem", c0, d)
                while ne.id in avoid:
                    d += 1
                    ne = mk("elem", c0, d)
            if ne is not e:
                m[e.id] = ne
            nb.append((c2, ne))
        if m:
            yg = subst(yg, lambda x: m.get(x.id))
            yv = subst(yv, lambda x: m.get(x.id))
        return tuple(nb), yg, yv

    def exists(self, bnds, g):
        """does some element satisfy g?  Parts of g that do not mention the elements are pulled out."""
        if g is FALSE or g is BOT:
            return FALSE
        if not bnds:
            return g
        return exists(self, bnds, g)

    def first_guard(self, bnds, brk, g):
        if restrict(g, brk) is TRUE:
            return TRUE
        g2 = restrict(g, brk)
        if not any(e.id in subterms(g2) for _, e in bnds):
            return as_bool(g2) if g2 is not BOT else FALSE
        return as_bool(self.first(bnds, brk, g2))

    def first(self, bnds, brk, v):
        """v evaluated at the first element satisfying brk"""
        v = restrict(v, brk)
        plain = brk is TRUE and len(bnds) == 1 and not (isinstance(bnds[0][0], T) and bnds[0][0].op == "ordered")
        at = {e.id: (self.index(bnds[0][0], intv(0)) if plain else mk("first", bnds, brk, e)) for _, e in bnds}
        return subst(v, lambda x: at.get(x.id))

    def prefix_of(self, x, is_lv, st, mod, lvs, nxt, bnds, brk, summ):
        if is_lv(x):
            k = lvs[x.id]
            if summ[k] is self.lget(st, k):
                return self.lget(st, k)
            return mk("upto", summ[k], bnds, brk)
        return None

    def summarise(self, init, lv, nv, bnds, it_g, is_lv, g, brk):
        """value of a loop variable after all iterations, or None"""
        init = restrict(init, g) if restrict(init, g) is not BOT else init
        if nv is lv or nv is BOT:
            return init
        h_all = it_g
        nb = not_(brk)
        deps = lambda v: any(isinstance(x, T) and is_lv(x) for x in subterms(v).values())
        edep = lambda v: any(e.id in subterms(v) for _, e in bnds)
        if isinstance(nv, T) and nv.op == "cat" and nv.args[0] is lv and not any(deps(y) for y in nv.args[1]):
            from models import as_seq
            ys = []
            for y in nv.args[1]:
                b2, g2, v2 = y.args
                gg = and_(it_g, g2)
                ys.append(yld(tuple(bnds) + b2, gg, v2))
            ys = [y for y in ys if y.args[1] is not FALSE]
            return mapv(lambda i: mkcat_any(self, i, ys), init)
        if len(bnds) == 1 and not deps(bnds[0][1]):
            e = bnds[0][1]
            one = lambda l: l is lv or isinstance(l, T) and l.op == "eachset" and l.args[0] is lv and l.args[1] is e
            ls = [l for _, l in leaves(nv)]
            if all(one(l) for l in ls) and any(l is not lv for l in ls):
                # the elements of a collection are overwritten where they are
                new = ite(it_g, mapv(lambda l: e if l is lv else l.args[2], nv), e)
                if not deps(new):
                    return mkseq([yld(bnds, TRUE, new)])
        # conditional overwrite: leaves are lv (kept) or values free of loop variables
        if isinstance(nv, N) or not deps(nv):
            if self.boolish(init) and all(l is lv or l is TRUE or l is FALSE or True for _, l in leaves(nv)):
                # boolean accumulators show up as decisions on lv itself
                vb = var("b", lv, (False, True))
                if vb.id in support(nv) or not deps(nv):
                    try:
                        nb_ = as_bool(nv)
                    except ValueError:
                        nb_ = None
                    if nb_ is not None:
                        t1, f1 = cofactor(nb_, vb, 1), cofactor(nb_, vb, 0)
                        if not deps(t1) and not deps(f1):
                            if t1 is TRUE:
                                return or_(as_bool(init), self.exists(bnds, and_(it_g, f1)))
                            if f1 is FALSE:
                                return and_(as_bool(init), not_(self.exists(bnds, and_(it_g, not_(t1)))))
            ls = leaves(nv)
            keep = [x for x in ls if x[1] is lv]
            other = [x for x in ls if x[1] is not lv]
            if other and not any(deps(x[1]) or deps(x[0]) for x in other):
                h = and_(it_g, or_(*[x[0] for x in other]))
                val = restrict(nv, h)
                ex = self.exists(bnds, h)
                if not edep(val):
                    return ite(ex, val, init)
                return ite(ex, mapv(lambda l: mk("last", bnds, h, l) if edep(l) else l, val) if not edep_vars(val, bnds) else mk("last", bnds, h, val), init)
        if isinstance(nv, T) and nv.op == "add" and lv in nv.args and sum(1 for a in nv.args if a is lv) == 1:
            rest = [a for a in nv.args if a is not lv]
            if not any(deps(a) for a in rest):
                inc = rest[0] if len(rest) == 1 else mk("add", *rest)
                return mk("sum", init, bnds, it_g, inc)
        # a fold over this variable alone
        others = [x for x in subterms(nv).values() if isinstance(x, T) and is_lv(x) and x is not lv]
        if not others and brk is FALSE:
            acc = mk("acc", self.nopen)
            body = subst(nv, lambda x: acc if x is lv else None)
            return mkfold(restrict(init, g), bnds, it_g, body, acc)
        return None


MOVED = mk("moved")
_nd = {}
_raw = [0]


def normdesc(subject, items, exits):
    """description of an opaque loop: its variables are bound in it, under names that depend only on what they
    start from and become; `subject` is the variable it describes (or None)"""
    if not items:
        return mk("loopdesc", "", (), tuple(exits))
    key = (subject.id if subject is not None else 0, tuple((a.id, b.id, c.id) for a, b, c in items), tuple(x.id for x in exits))
    r = _nd.get(key)
    if r is not None:
        return r
    col = {v.id: blake2b(i.h + b"init", digest_size=8).hexdigest() for v, i, n in items}
    _raw[0] += 1
    for _ in range(2):
        memo = {}
        f = lambda x: mk("lvar", col[x.id], "") if x.id in col else None
        new = {}
        for v, i, n in items:
            new[v.id] = blake2b(i.h + subst(n, f, memo).h, digest_size=8).hexdigest()
        col = new
    _raw[0] -= 1
    seen, name = {}, {}
    for v, i, n in items:
        k = seen[col[v.id]] = seen.get(col[v.id], -1) + 1
        name[v.id] = mk("lvar", col[v.id], k)
    memo = {}
    f = lambda x: name.get(x.id)
    vs = sorted(((name[v.id], i, subst(n, f, memo)) for v, i, n in items), key=lambda t: (t[0].args[0], t[0].args[1]))
    r = mk("loopdesc", name[subject.id].args[0] + ":%d" % name[subject.id].args[1] if subject is not None else "",
           tuple(mk("lvdef", *t) for t in vs), tuple(subst(x, f, memo) for x in exits))
    _nd[key] = r
    return r


def rebuild_desc(subject, vs, exits):
    if _raw[0]:
        return mk("loopdesc", subject, vs, exits)
    sub = None
    for d in vs:
        if "%s:%d" % (d.args[0].args[0], d.args[0].args[1]) == subject:
            sub = d.args[0]
    return normdesc(sub, [d.args for d in vs], exits)


REBUILD["loopdesc"] = rebuild_desc


def mapctx(f, ctx):
    return tuple(((b[0] if isinstance(b[0], str) else f(b[0])), f(b[1])) if isinstance(b, tuple) else b for b in ctx)


def restrict_g(v, g):
    r = restrict(v, g)
    return v if r is BOT else r


def edep_vars(v, bnds):
    return any(any(e.id in subterms(x.term) for _, e in bnds) for x in support(v).values())


def lcase(vr, kids):
    """like case, but never pushes decisions into aggregates"""
    top = vr
    for k in kids:
        if isinstance(k, N) and k.var.id < top.id:
            top = k.var
    if top is vr:
        ks = [cof(k, vr, i) for i, k in enumerate(kids)]
        real = [k for k in ks if k is not BOT]
        if not real:
            return BOT
        if all(k is real[0] for k in real):
            return real[0]
        return rawnode(vr, ks)
    return rawnode_merge(top, [lcase(vr, [cof(k, top, i) for k in kids]) for i in range(len(top.dom))])


def rawnode_merge(vr, ks):
    real = [k for k in ks if k is not BOT]
    if not real:
        return BOT
    if all(k is real[0] for k in real):
        return real[0]
    return rawnode(vr, ks)


def rawnode(vr, kids):
    import val
    k = ("N", vr.id, tuple(x.id for x in kids))
    r = val._tab.get(k)
    if r is None:
        r = N()
        r.var, r.kids = vr, tuple(kids)
        val._next[0] += 1
        r.id = val._next[0]
        r.h, r.sz = val._hs(("N", vr.kind, vr.term) + r.kids)
        val._tab[k] = r
    return r


def lapply(f, vs):
    top = None
    for v in vs:
        if isinstance(v, N) and (top is None or v.var.id < top.id):
            top = v.var
    if top is None:
        return f(*vs)
    return rawnode_merge(top, [lapply(f, [cof(v, top, i) for v in vs]) for i in range(len(top.dom))])


def cofactor_deep(v, vr, i):
    """fix vr everywhere, also in the guards inside terms"""
    r = cofactor(v, vr, i)
    if any(isinstance(x, N) and x.var is vr for x in subterms(r).values()):
        def f(t):
            return None
        memo = {}

        def go(x):
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            if not isinstance(x, (T, A, N)):
                return x
            if x.id in memo:
                return memo[x.id]
            if isinstance(x, N):
                y = go(x.kids[i]) if x.var is vr else case(x.var, [go(k) for k in x.kids])
            elif isinstance(x, A):
                y = agg(x.ctor, [(n, go(z)) for n, z in x.fields])
            else:
                a = tuple(go(z) for z in x.args)
                y = x if all(p is q for p, q in zip(a, x.args)) else rebuild(x.op, a)
            memo[x.id] = y
            return y
        r = go(r)
    return r


def mkcat_any(ev, init, ys):
    if init is mk("seq", (), ()) and ys:
        os_ = {y.args[0][0][0].args[1] if y.args[0] and isinstance(y.args[0][0][0], T) and y.args[0][0][0].op == "ordered" else () for y in ys}
        if len(os_) == 1 and os_ != {()}:
            return mkseq([yld(unmark(y.args[0]), y.args[1], y.args[2]) for y in ys], os_.pop())
    if isinstance(init, T):
        return mkcat(init, tuple(ys))
    from models import as_seq
    return mkcat(as_seq(ev, init), tuple(ys))


def mark(bnds, order):
    """binders visited in an order other than the collection's own"""
    if not order or not bnds:
        return bnds
    return ((mk("ordered", bnds[0][0], order), bnds[0][1]),) + tuple(bnds[1:])


def unmark(bnds):
    return tuple((c.args[0] if isinstance(c, T) and c.op == "ordered" else c, e) for c, e in bnds)


def each_of(seq):
    """the element whose place in its collection the only value of seq refers to"""
    ys = seq.args[0] if isinstance(seq, T) and seq.op == "seq" else ()
    hit = [x.args[1] for y in ys for x in subterms(y.args[2]).values() if isinstance(x, T) and x.op == "ref"]
    es = {p[1].id: p[1] for path in hit for p in path if p[0] == "each" and isinstance(p[1], T) and p[1].op == "elem"}
    if not es:
        return None
    if len(ys) == 1 and len(ys[0].args[0]) == 1 and list(es) == [ys[0].args[0][0][1].id]:
        return ys[0].args[0][0][1]
    raise Unsupported("iteration over places of several collections")


def mkfold(init, bnds, g, body, acc):
    """iterate body from init over the elements with g; decisions about neither elements nor the value so far are outside"""
    if g is FALSE or g is BOT or body is acc:
        return init
    body = exactly(body, g)
    if body is acc:
        return init
    if not bnds:
        return ite(g, subst(body, lambda x: init if x is acc else None), init)
    own = {e.id for _, e in bnds} | {acc.id}
    vs = {}
    for v in (init, g, body):
        support(v, vs, set())
    ind = [v for v in vs.values() if not any(i in own for i in subterms(v.term))]
    if ind and len(ind) <= 8:
        v = min(ind, key=lambda x: x.id)
        return case(v, [mkfold(cofactor(init, v, i), bnds, cofactor(g, v, i), cofactor(body, v, i), acc) for i in range(len(v.dom))])
    full = ite(g, body, acc)
    inner = [(lg, l) for lg, l in leaves(full) if l is not acc]
    if len(inner) == 1 and isinstance(inner[0][1], T) and inner[0][1].op == "fold":
        # a loop in a loop is one loop over the pairs
        lg, f = inner[0]
        i2, b2, g2, v2, acc2 = f.args
        if i2 is acc and g2 is TRUE and not any(acc.id in subterms(x) for x in (lg, v2) + tuple(c for c, _ in b2)):
            return mkfold(init, tuple(bnds) + tuple(b2), lg, subst(v2, lambda x: acc if x is acc2 else None), acc)
    return mk("fold", init, bnds, TRUE, full, acc)


def exists(ev, bnds, g):
    """∃ elements of the binders. g. Independent disjuncts/conjuncts are separated."""
    bnds = unmark(bnds)
    es = [e for _, e in bnds]
    # collections that depend on an outer binder of the same group must stay together
    if not any(e.id in subterms(g) for e in es):
        r = g
        nonempty = TRUE
        for c, e in bnds:
            nonempty = and_(nonempty, as_bool(mk("exists", (((c, e)),), TRUE)))
        return and_(r, nonempty)
    ind = [v for v in support(g).values() if not any(e.id in subterms(v.term) for e in es)]
    if ind:
        v = min(ind, key=lambda x: x.id)
        return case(v, [exists(ev, bnds, cofactor(g, v, i)) if cofactor(g, v, i) is not FALSE else FALSE
                        for i in range(len(v.dom))])
    return as_bool(mk("exists", tuple(bnds), g))


class LoopNode:
    __slots__ = ("header", "nodes", "order")


class Cfg:
    """blocks in topological order with natural loops nested (reducible graphs)"""

    def __init__(self, body):
        self.blocks = body["blocks"]
        self.succ = {}
        for i, b in enumerate(self.blocks):
            if b is None:
                continue
            self.succ[i] = self.succs(b["t"])
        self.reach = set()
        st = [0]
        while st:
            x = st.pop()
            if x in self.reach:
                continue
            self.reach.add(x)
            st += self.succ.get(x, [])
        self.top = self.build(self.reach, 0, None)

    @staticmethod
    def succs(t):
        k = t["k"]
        if k == "switch":
            return [x[1] for x in t["ts"]] + [t["else"]]
        if k in ("return", "unreachable"):
            return []
        return [t["t"]] if t.get("t") is not None else []

    def build(self, nodes, entry, removed_header):
        """topological order of SCCs of `nodes` (edges to removed_header dropped)"""
        succ = {n: [s for s in self.succ[n] if s in nodes and s != removed_header] for n in nodes}
        comps = self.sccs(nodes, succ)
        order = []
        comp_of = {}
        for i, c in enumerate(comps):
            for n in c:
                comp_of[n] = i
        # Tarjan yields reverse topological order
        for c in reversed(comps):
            if len(c) == 1 and next(iter(c)) not in succ[next(iter(c))]:
                order.append(next(iter(c)))
                continue
            # header: the node entered from outside
            cs = set(c)
            ents = [n for n in c if n == entry or any(n in self.succ[m] for m in self.reach if m not in cs)]
            if len(ents) != 1:
                raise Unsupported("irreducible control flow")
            L = LoopNode()
            L.header, L.nodes = ents[0], cs
            inner = cs - {ents[0]}
            L.order = self.build(inner, None, ents[0]) if inner else []
            order.append(L)
        return order

    def sccs(self, nodes, succ):
        idx, low, on, stack, out = {}, {}, set(), [], []
        cnt = [0]

        def strong(v):
            work = [(v, iter(succ[v]))]
            idx[v] = low[v] = cnt[0]
            cnt[0] += 1
            stack.append(v)
            on.add(v)
            while work:
                u, itr = work[-1]
                adv = False
                for w in itr:
                    if w not in idx:
                        idx[w] = low[w] = cnt[0]
                        cnt[0] += 1
                        stack.append(w)
                        on.add(w)
                        work.append((w, iter(succ[w])))
                        adv = True
                        break
                    elif w in on:
                        low[u] = min(low[u], idx[w])
                if adv:
                    continue
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[u])
                if low[u] == idx[u]:
                    c = []
                    while True:
                        w = stack.pop()
                        on.discard(w)
                        c.append(w)
                        if w == u:
                            break
                    out.append(c)
        for n in sorted(nodes):
            if n not in idx:
                strong(n)
        return out
