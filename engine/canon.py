"""Canonical vocabulary for values: names without module paths, no numbering of locals, commutative arguments
in one order.  Values can be stored and read back (decision diagrams are rebuilt in the order of this process),
so two canonical values are equal iff they are the same object."""
import re
from val import *
import val as V

_p = {}
ALIAS = {}      # present name -> name in the references, for functions that were renamed (see resolve.py)


def cpath(p):
    """aquascope::x::Type::m -> Type::m ; a::b::f -> f"""
    r = _p.get(p)
    if r is not None:
        return r
    pre = ""
    q = p
    while True:
        m = re.match(r"^(mut|closure|callval):", q)
        if not m:
            break
        pre += m.group(0)
        q = q[m.end():]
    if q.startswith("closure") or pre == "closure:":
        r = "closure"
    else:
        segs = [s for s in strip_generics(q).split("::") if s and not s.startswith("{")]
        if len(segs) >= 2 and segs[-2][:1].isupper():
            r = pre + segs[-2] + "::" + segs[-1]
        else:
            r = pre + (segs[-1] if segs else q)
    r = pre + ALIAS.get(r[len(pre):], r[len(pre):])
    _p[p] = r
    return r


def strip_generics(p):
    out, d = "", 0
    for i, c in enumerate(p):
        if c == "<":
            d += 1
        elif c == ">" and p[i - 1] != "-":
            d -= 1
        elif d == 0:
            out += c
    return out


_t = {}


def ctype(s):
    """type string without module paths and lifetimes"""
    r = _t.get(s)
    if r is None:
        r = re.sub(r"\{(closure|async)[^{}]*\}", "{closure}", re.sub(r"'\w+ ?", "", s))
        r = re.sub(r"\b(\w+::)+", "", r).replace("<>", "").replace("<, ", "<")
        _t[s] = r
    return r


COMM = {"eq", "add", "mul"}
# what the permissions context of a body hands on unchanged (its own reference says that it does)
HANDED = {"body_id": 2, "body_with_facts": 3}
OBSERVERS = ("clone", "to_owned")


class Canon:
    def __init__(self, tcx=()):
        self.memo = {}
        self.tcx = tcx        # parameters that hold the compiler's context, of which there is only one
        self.notes = set()

    def __call__(self, v):
        if isinstance(v, tuple):
            return tuple(self(x) for x in v)
        if isinstance(v, Var):
            return mk("var", v.kind, self(v.term))
        if not isinstance(v, (T, A, N)):
            return v
        r = self.memo.get(v.id)
        if r is None:
            r = self.go(v)
            self.memo[v.id] = r
            self.memo[r.id] = r
        return r

    def go(self, v):
        if isinstance(v, N):
            kids = [self(k) for k in v.kids]
            t = self(v.var.term)
            if v.var.kind == "b":
                return ite(as_bool(t), kids[1], kids[0])
            return test(t, v.var.dom, kids)
        if isinstance(v, A):
            ty, var_ = v.ctor
            if ty in ("closure", "coroutine"):
                return agg((ty, ""), [(str(i), self(x)) for i, (n, x) in enumerate(v.fields)])
            fs = [(n, self(x)) for n, x in v.fields]
            if len(fs) > 1 and (not var_ or ty == "tuple" or var_ == cpath(ty)):
                # a value taken apart and put together again
                b = fs[0][1].args[0] if isinstance(fs[0][1], T) and fs[0][1].op == "f" else None
                if b is not None and all(isinstance(x, T) and x.op == "f" and x.args[0] is b and not x.args[1] and x.args[2] == n for n, x in fs):
                    return b
            # the order in which a type declares its fields is not part of the value
            fs.sort(key=lambda f: (0, int(f[0]), "") if str(f[0]).isdigit() else (1, 0, str(f[0])))
            return agg((cpath(ty), var_ if var_ != "?" else ""), fs)
        op, a = v.op, v.args
        if op == "param" and a[0] in self.tcx or op == "f" and a[2] == "tcx":
            return mk("static", "tcx")
        if op == "f" and a[2] in HANDED and isinstance(a[0], T) and a[0].op == "call" and \
                cpath(a[0].args[0]).split("::")[-1] == "compute_permissions" and len(a[0].args) == 4:
            return self(a[0].args[HANDED[a[2]]])
        if op == "call":
            return mk("call", cpath(a[0]), *[self(x) for x in a[1:]])
        if op == "ty":
            return mk("ty", *[ctype(x) for x in a])
        if op == "fn":
            return mk("fn", cpath(fnname(a[0])))
        if op == "static":
            return mk("static", cpath(a[0]))
        if op == "ref":
            self.notes.add("unresolved reference")
            return mk("ref", a[0][1] if a[0][0] == "heap" else "", tuple((e[0], e[-1] if isinstance(e[-1], (str, int)) else self(e[-1])) for e in a[1]))
        if op == "cell":
            return mk("cell", self(a[0]))
        if op in ("seq", "cat"):
            base = None if op == "seq" else self(a[0])
            ys = [yld(self(y.args[0]), self(y.args[1]), self(y.args[2])) for y in (a[0] if op == "seq" else a[1])]
            ys = tidy(spread(ys))
            order = self(a[1]) if op == "seq" else ()
            if base is None and not order and len(ys) > 1:  # all of one collection, and more
                b, g, x = ys[0].args[:3]
                if len(b) == 1 and g is TRUE and x is b[0][1]:
                    return mkcat(b[0][0], ys[1:])
            return mkseq(ys, order) if base is None else mkcat(base, ys)
        if op in ("lv", "loop"):
            self.notes.add("open loop variable")
            return mk(op)
        args = tuple(self(x) for x in a)
        if op in COMM:
            return mk(op, *sorted(args, key=lambda x: x.h))
        if op == "const":
            return mk("const", *[ctype(x) if isinstance(x, str) else x for x in args])
        return mk(op, *args)


def fnname(a):
    return a if isinstance(a, str) else str(a)


def test(t, dom, kids):
    def leaf(l):
        if isinstance(l, A):
            for d, k in zip(dom, kids):
                if d == l.ctor[1]:
                    return k
            return BOT
        if set(dom) == {"None", "Some"}:
            # where it is known, what it holds is spelled out
            one = {v: agg((cpath("std::option::Option"), v), [("0", mk("f", l, "Some", "0"))] if v == "Some" else []) for v in dom}
            if all(k is one[v] or k is l for v, k in zip(dom, kids)):
                return l
            return case(var("d", l, dom), [spell(k, l, one[v]) for v, k in zip(dom, kids)])
        return case(var("d", l, dom), kids)
    return mapv(leaf, t)


_a = {}


def spell(v, t, x):
    """v where t is known to be x"""
    if v is t:
        return x
    if not isinstance(v, (A, N)):
        return v
    k = (v.id, t.id, x.id)
    r = _a.get(k)
    if r is None:
        if isinstance(v, A):
            r = agg(v.ctor, [(n, spell(y, t, x)) for n, y in v.fields])
        elif all(y is TRUE or y is FALSE for y in v.kids):
            r = v
        elif v.var.kind == "b":
            r = ite(as_bool(v.var.term), spell(v.kids[1], t, x), spell(v.kids[0], t, x))
        else:
            r = case(v.var, [spell(y, t, x) for y in v.kids])
        _a[k] = r
    return r


def spread(ys):
    """what is yielded for each element of a list that is written out is written out too"""
    out = []
    for y in ys:
        b = y.args[0]
        at = next((i for i, (c, e) in enumerate(b) if isinstance(c, T) and c.op == "seq" and not c.args[1]
                   and all(not z.args[0] for z in c.args[0])), None)
        if at is None:
            out.append(y)
            continue
        c, e = b[at]
        more = []
        for z in c.args[0]:
            f = lambda v: subst(v, lambda x: z.args[2] if x is e else None)
            more.append(yld(tuple(b[:at]) + tuple((f(cc), f(ee)) for cc, ee in b[at + 1:]), and_(z.args[1], f(y.args[1])), f(y.args[2])))
        out += spread(more)
    return out


def tidy(ys):
    """yields over the same elements with disjoint guards: one yield"""
    out = []
    for y in ys:
        bs, g, v = y.args
        if g is FALSE:
            continue
        done = False
        for i in range(len(out) - 1, -1, -1):
            b0, g0, v0 = out[i].args
            if b0 != bs:
                break
            if and_(g0, g) is FALSE:
                out[i] = yld(b0, or_(g0, g), v0 if v0 is v else ite(g0, v0, v))
                done = True
                break
            if not (v0 is v):
                break
        if not done:
            out.append(y)
    return out


# ------------------------------------------------------------------ storage
class Enc:
    def __init__(self):
        self.nodes, self.idx = [], {}

    def put(self, v):
        if isinstance(v, tuple):
            return ["t"] + [self.put(x) for x in v]
        if isinstance(v, (T, A, N)):
            i = self.idx.get(v.id)
            if i is None:
                if isinstance(v, T):
                    n = ["T", v.op] + [self.put(x) for x in v.args]
                elif isinstance(v, A):
                    n = ["A", list(v.ctor)] + [[f, self.put(x)] for f, x in v.fields]
                else:
                    n = ["N", v.var.kind, self.put(v.var.term), list(v.var.dom) if v.var.kind == "d" else 0] + [self.put(x) for x in v.kids]
                i = len(self.nodes)
                self.nodes.append(n)
                self.idx[v.id] = i
            return {"r": i}
        return v


def decode(nodes):
    """list of stored nodes -> list of values (canonical in this process)"""
    out = []

    def get(x):
        if isinstance(x, dict):
            return out[x["r"]]
        if isinstance(x, list):
            return tuple(get(y) for y in x[1:])
        return x
    for n in nodes:
        if n[0] == "T":
            args = tuple(get(x) for x in n[2:])
            if n[1] in COMM:
                args = tuple(sorted(args, key=lambda x: x.h))
            if n[1] == "seq":
                v = mkseq(tidy(args[0]), args[1])
            elif n[1] == "cat":
                v = mkcat(args[0], tidy(args[1]))
            else:
                v = mk(n[1], *args)
        elif n[0] == "A":
            v = agg(tuple(n[1]), [(f, get(x)) for f, x in n[2:]])
        else:
            t = get(n[2])
            kids = [get(x) for x in n[4:]]
            if n[1] == "b":
                v = ite(as_bool(t), kids[1], kids[0])
            else:
                v = case(var("d", t, tuple(n[3])), kids)
        out.append(v)
    return out
