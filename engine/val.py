"""Value domain of the analysis: hash-consed terms and guarded (multi-valued decision diagram) values.

 T(op, args)       a term; constants are T('bool',b), T('int',n), T('str',s) ...
 A(ctor, fields)   an aggregate: ctor = (type, variant), fields = tuple of (name, value)
 N(var, kids)      a decision: `var` is a Var (boolean term or variant test), kids aligned with var.dom
 BOT               no value (unreachable / uninitialised): a don't-care

Values are immutable and unique, so `is` is structural equality.  Boolean functions (leaves TRUE/FALSE) are
canonical (ordered, reduced), so equivalence of guards is identity.
"""
import sys
from hashlib import blake2b
sys.setrecursionlimit(100000)
_tab = {}
CAP = 1 << 48


def _hs(parts):
    """content hash and size: the same in every process, whatever was created before"""
    b, n = [], 1
    for a in parts:
        if isinstance(a, (T, A, N)):
            b.append(a.h)
            n += a.sz
        elif isinstance(a, tuple):
            h, m = _hs(a)
            b.append(b"(" + h)
            n += m
        else:
            b.append(str(a).encode())
    return blake2b(b"\0".join(b), digest_size=12).digest(), min(n, CAP)


class T:
    __slots__ = ("op", "args", "id", "h", "sz")

    def __repr__(self):
        return show(self)


class A:
    __slots__ = ("ctor", "fields", "id", "h", "sz")

    def __repr__(self):
        return show(self)

    def get(self, name):
        for n, v in self.fields:
            if n == name:
                return v
        return None


class Var:
    __slots__ = ("kind", "term", "dom", "id", "rel")


class N:
    __slots__ = ("var", "kids", "id", "h", "sz")

    def __repr__(self):
        return show(self)


_next = [0]


def _key(a):
    if isinstance(a, (T, A, N)):
        return ("#", a.id)
    if isinstance(a, tuple):
        return tuple(_key(x) for x in a)
    return (type(a).__name__, a)


def mk(op, *args):
    k = ("T", op, _key(args))
    r = _tab.get(k)
    if r is None:
        r = T()
        r.op, r.args = op, args
        _next[0] += 1
        r.id = _next[0]
        r.h, r.sz = _hs((op,) + args)
        _tab[k] = r
    return r


def agg(ctor, fields):
    fields = tuple(fields)
    k = ("A", ctor, _key(fields))
    r = _tab.get(k)
    if r is None:
        r = A()
        r.ctor, r.fields = ctor, fields
        _next[0] += 1
        r.id = _next[0]
        r.h, r.sz = _hs(("A", ctor, fields))
        _tab[k] = r
    return r


BOT = mk("bot")
TRUE = mk("bool", True)
FALSE = mk("bool", False)
UNIT = agg(("tuple", ""), ())


def boolv(b):
    return TRUE if b else FALSE


def intv(n):
    return mk("int", n)


def strv(s):
    return mk("str", s)


_vars = {}


def var(kind, term, dom):
    k = (kind, term.id, tuple(dom))
    v = _vars.get(k)
    if v is None:
        v = Var()
        v.kind, v.term, v.dom = kind, term, tuple(dom)
        v.id = (term.sz, term.h, kind, v.dom if kind == "d" else ())
        _vars[k] = v
        v.rel = relation(term) if kind == "b" else None
        if v.rel is not None:
            _related.setdefault(v.rel[0], {})[v.id] = v
    return v


_related = {}       # number -> its comparisons with constants


def relation(t):
    """(number, comparison, constant, polarity) of a decision that compares a number with a constant"""
    a = t.args
    if t.op == "lt" and isinstance(a[1], T) and a[1].op == "int":
        return a[0].id, "lt", a[1].args[0], True
    if t.op == "eq":
        for x, y in (a, a[::-1]):
            if isinstance(y, T) and y.op == "int":
                return x.id, "eq", y.args[0], True
            if isinstance(y, T) and y.op in ("str", "char", "bytes") and not (isinstance(x, T) and x.op == y.op):
                return (x.id, y.op), "eq", y.args, True
    if t.op == "exists" and a[1] is TRUE and len(a[0]) == 1:
        return mk("len", a[0][0][0]).id, "lt", 1, False
    return None


def implied(r, out, q):
    """outcome of q, given that r has outcome out; None if open"""
    _, op, c, pol = r
    _, op2, c2, pol2 = q
    res = None
    if op == "lt":
        if out == pol:          # x < c
            if op2 == "lt" and c2 >= c: res = True
            if op2 == "eq" and c2 >= c: res = False
        else:                   # x >= c
            if op2 == "lt" and c2 <= c: res = False
            if op2 == "eq" and c2 < c: res = False
    elif out:                   # x = c
        res = c < c2 if op2 == "lt" else c == c2
    return None if res is None else (res if pol2 else not res)


def assume(v, vr, i):
    """v where the comparison vr has outcome i: related comparisons are decided"""
    for vid, q in _related[vr.rel[0]].items():
        if q is not vr and vid in sup(v):
            r = implied(vr.rel, bool(i), q.rel)
            if r is not None:
                v = cofactor(v, q, int(r))
    return v


_left = {}


def outer(g, es):
    """can the guard hold, whatever the elements are?  (decisions about the elements quantified away)"""
    def go(x, memo):
        if not isinstance(x, N):
            return x
        r = memo.get(x.id)
        if r is None:
            kids = [go(k, memo) for k in x.kids]
            if any(e in subterms(x.var.term) for e in es):
                r = or_(*kids)
            else:
                r = node(x.var, kids)
            memo[x.id] = r
        return r
    return go(g, {})


def left(ys):
    """the same sequence with alternatives of exclusive branches side by side: position by position"""
    if len(ys) < 2 or len(ys) > 12 or all(y.args[1] is TRUE for y in ys):
        return ys
    k = tuple(y.id for y in ys)
    r = _left.get(k)
    if r is not None:
        return r
    outs = [y.args[1] if not y.args[0] else outer(y.args[1], {e.id for _, e in y.args[0]}) for y in ys]
    if not any(and_(outs[i], outs[j]) is FALSE for i in range(len(ys)) for j in range(i)):
        _left[k] = ys
        return ys
    cnt = [TRUE]                # cnt[k]: exactly k blocks so far
    pos = []                    # pos[k]: alternatives at position k
    for y, o in zip(ys, outs):
        if o is FALSE:
            continue
        nxt = [FALSE] * (len(cnt) + 1)
        for i, c in enumerate(cnt):
            here = and_(c, o)
            nxt[i] = or_(nxt[i], and_(c, not_(o)))
            nxt[i + 1] = or_(nxt[i + 1], here)
            if here is not FALSE:
                while len(pos) <= i:
                    pos.append([])
                pos[i].append((here, y))
        while nxt[-1] is FALSE:
            nxt.pop()
        cnt = nxt
    out = []
    for alts in pos:
        groups = {}
        for h, y in alts:
            bs, g, v = y.args
            groups.setdefault(_key(bs), []).append((bs, and_(h, g), v))
        parts = []
        for xs in groups.values():
            bs, g, v = xs[0]
            for _, g2, v2 in xs[1:]:
                v = v if v is v2 else ite(g, v, v2)
                g = or_(g, g2)
            parts.append(yld(bs, g, exactly(v, g)))
        out += sorted(parts, key=lambda y: y.args[0] and _hs(y.args[0])[0] or b"")
    out = tuple(out)
    if sum(y.sz for y in out) > 40 * sum(y.sz for y in ys) + 2000:
        out = ys
    _left[k] = out
    return out


def exactly(v, g):
    """v where g holds, chosen elsewhere in a way that only depends on v where g holds"""
    if g is TRUE or v is BOT or not (isinstance(v, (N, A)) or _inside(v) and sup(v)):
        return v if g is not FALSE else BOT
    if g is FALSE:
        return BOT
    m = _ops["exactly"]
    k = (v.id, g.id)
    r = m.get(k)
    if r is None:
        if isinstance(v, A):
            r = agg(v.ctor, [(n, exactly(x, g)) for n, x in v.fields])
        elif isinstance(v, T):
            r = _remake(v, lambda x: exactly(x, g))
        else:
            top = v.var if v.var.id <= g.var.id else g.var
            r = node(top, [exactly(cof(v, top, i), cof(g, top, i)) for i in range(len(top.dom))])
        m[k] = r
    return r


def mkseq(ys, order=()):
    ys = tuple(ys)
    if not order:
        ys = left(ys)
    if len(ys) == 1 and not order:
        bs, g, v = ys[0].args
        if len(bs) == 1 and g is TRUE and v is bs[0][1]:
            return bs[0][0]
    return mk("seq", ys, order)


def is_seq(v):
    return isinstance(v, T) and v.op in ("seq", "cat")


def mkcat(base, ys):
    """base: an opaque collection; ys: further yields"""
    if not ys:
        return base
    if isinstance(base, T) and base.op == "seq":
        return mkseq(base.args[0] + tuple(ys), ())
    if isinstance(base, T) and base.op == "cat":
        return mk("cat", base.args[0], left(base.args[1] + tuple(ys)))
    return mk("cat", base, left(tuple(ys)))


def yld(binders, guard, value):
    if guard is not TRUE:
        value = exactly(value, guard)
    return mk("y", tuple(binders), guard, value)


def _seq_parts(v):
    """(base or None, yields, order) of a collection-like value"""
    if isinstance(v, T):
        if v.op == "seq":
            return None, v.args[0], v.args[1]
        if v.op == "cat":
            return v.args[0], v.args[1], ()
    return v, (), ()


def _merge_seqs(vr, kids):
    """kids that are sequences with a common prefix become one guarded sequence"""
    if not any(is_seq(k) for k in kids):
        return None
    parts = []
    for k in kids:
        if k is BOT:
            parts.append(None)
            continue
        if not isinstance(k, T):
            return None
        parts.append(_seq_parts(k))
    real = [p for p in parts if p is not None]
    if len({(p[0].id if p[0] is not None else None) for p in real}) != 1:
        return None
    if len({p[2] for p in real}) != 1:
        return None
    base = real[0][0]
    pre = []
    n = min(len(p[1]) for p in real)
    i = 0
    while i < n and all(p[1][i] is real[0][1][i] for p in real):
        pre.append(real[0][1][i])
        i += 1
    out = list(pre)
    for d, p in enumerate(parts):
        if p is None:
            continue
        g = node(vr, [TRUE if e == d else FALSE for e in range(len(kids))])
        for y in p[1][i:]:
            bs, yg, v = y.args
            out.append(yld(bs, and_(g, yg), v))
    out = _coalesce(out, len(pre))
    if base is None:
        return mkseq(out, real[0][2])
    return mkcat(base, out)


def updchain(t):
    """(root, {field: value}) of a structure with some fields overwritten"""
    out = {}
    while isinstance(t, T) and t.op == "upd":
        out.setdefault(t.args[1], t.args[2])
        t = t.args[0]
    return t, out


def fkey(variant, name):
    return name if variant is None else variant + "\t" + name


def mkupd(t, key, val):
    """t with one field overwritten; the fields are kept in one order"""
    t, chain = updchain(t)
    chain[key] = val
    return _updall(t, chain)


def _updall(t, chain):
    r = t
    for n in sorted(chain):
        v = chain[n]
        if isinstance(v, T) and v.op == "f" and v.args[0] is t and fkey(v.args[1], v.args[2]) == n:
            continue
        r = mk("upd", r, n, v)
    return r


def _rootfield(t, key):
    variant, name = key.split("\t") if "\t" in key else (None, key)
    return mk("f", t, variant, name)


def mkstore(t, j, val):
    while isinstance(t, T) and t.op == "store" and t.args[1] is j:
        t = t.args[0]
    if isinstance(val, T) and val.op == "index" and val.args[0] is t and val.args[1] is j:
        return t
    return mk("store", t, j, val)


def _merge_upds(vr, kids):
    """kids that overwrite fields of one structure (or one element of one collection): the decision moves into the fields"""
    real = [k for k in kids if k is not BOT]
    if not all(isinstance(k, T) for k in real):
        return None
    if any(k.op == "upd" for k in real):
        cs = [None if k is BOT else updchain(k) for k in kids]
        if len({c[0].id for c in cs if c}) != 1 or not isinstance(updchain(real[0])[0], T):
            return None
        root = updchain(real[0])[0]
        names = sorted({n for c in cs if c for n in c[1]})
        return _updall(root, {n: case(vr, [BOT if c is None else c[1][n] if n in c[1] else _rootfield(root, n) for c in cs])
                              for n in names})
    if any(k.op == "store" for k in real):
        j = next(k.args[1] for k in real if k.op == "store")
        cs = [None if k is BOT else (k.args[0], k.args[2]) if k.op == "store" and k.args[1] is j else (k, mk("index", k, j)) for k in kids]
        if len({c[0].id for c in cs if c}) != 1:
            return None
        root = next(c[0] for c in cs if c)
        return mkstore(root, j, case(vr, [BOT if c is None else c[1] for c in cs]))
    return None


def _inside(v):
    """is v a structure whose parts may hold decisions?"""
    return v.op in ("upd", "store")


def _remake(v, f):
    """v (an overwritten structure) with f applied to its parts"""
    if v.op == "upd":
        return mapv2(lambda a, b: mkupd(a, v.args[1], b) if isinstance(a, T) else mk("upd", a, v.args[1], b), f(v.args[0]), f(v.args[2]))
    return mapv2(lambda a, b: mkstore(a, v.args[1], b), f(v.args[0]), f(v.args[2]))


def mapv2(g, a, b):
    """decisions of the structure itself stay outside"""
    return mapv(lambda x: g(x, b), a)


def _coalesce(ys, start):
    """yields with equal binders and value at adjacent positions: or their guards"""
    res = list(ys[:start])
    for y in ys[start:]:
        if len(res) > start:
            b0, g0, v0 = res[-1].args
            b1, g1, v1 = y.args
            if b0 == b1 and v0 is v1:
                res[-1] = yld(b0, or_(g0, g1), v0)
                continue
        res.append(y)
    return res


_sup = {}
_nosup = frozenset()


def sup(v):
    """decision variables of v, inside aggregates and sequences too (ids)"""
    if not isinstance(v, (T, A, N)):
        return _nosup
    r = _sup.get(v.id)
    if r is None:
        if isinstance(v, N):
            r = frozenset([v.var.id]).union(*[sup(k) for k in v.kids])
        elif isinstance(v, A):
            r = _nosup.union(*[sup(x) for _, x in v.fields])
        elif v.op in ("seq", "cat"):
            ys = v.args[0] if v.op == "seq" else v.args[1]
            r = _nosup.union(*[sup(y.args[1]) | sup(y.args[2]) for y in ys])
        elif _inside(v):
            r = sup(v.args[0]) | sup(v.args[2])
        else:
            r = _nosup
        _sup[v.id] = r
    return r


def _merge_entry(vr, kids):
    """a map's value replaced when it has one, put there when it has none, is its entry replaced"""
    t = vr.term
    if vr.kind != "d" or vr.dom != ("None", "Some") or not (isinstance(t, T) and t.op == "call" and t.args[0] == "get" and len(t.args) == 3):
        return None
    m, k = t.args[1:]
    no, yes = kids
    if not (isinstance(yes, T) and yes.op == "kset" and yes.args[0] is m and yes.args[1] is k and isinstance(no, T)):
        return None
    if no.op == "kset" and no.args[0] is m and no.args[1] is k:
        v0 = no.args[2]
    elif no.op == "cat" and no.args[0] is m and len(no.args[1]) == 1 and not no.args[1][0].args[0] and no.args[1][0].args[1] is TRUE:
        p = no.args[1][0].args[2]
        if not (isinstance(p, A) and len(p.fields) == 2 and p.fields[0][1] is k):
            return None
        v0 = p.fields[1][1]
    else:
        return None
    v1, e = yes.args[2], mk("entry", m, k, "get")
    if isinstance(v0, A) and v0.ctor[0] == "array":
        v0 = mkseq([yld((), TRUE, x) for _, x in v0.fields])
    for d in (mkseq([]), mk("int", 0)):
        at_d = mkcat(d, v1.args[1]) if isinstance(v1, T) and v1.op == "cat" and v1.args[0] is e else subst(v1, lambda x: d if x is e else None)
        if at_d is v0:
            new = mk("entry", m, k, mk("ins", d))
            return mk("kset", m, k, subst(v1, lambda x: new if x is e else None))
    return None


def node(vr, kids):
    """decision without reordering (kids must only contain later variables at top)"""
    kids = [cofactor(k, vr, i) if vr.id in sup(k) else k for i, k in enumerate(kids)]
    if vr.rel is not None and len(_related[vr.rel[0]]) > 1:
        kids = [assume(k, vr, i) for i, k in enumerate(kids)]
        lo, hi = kids
        if lo is not hi and lo is not BOT and hi is not BOT:
            if assume(hi, vr, 0) is lo:
                return hi
            if assume(lo, vr, 1) is hi:
                return lo
    first = None
    same = True
    for k in kids:
        if k is BOT:
            continue
        if first is None:
            first = k
        elif k is not first:
            same = False
            break
    if first is None:
        return BOT
    if same:
        return first
    # push decisions into aggregates of one constructor
    if all(isinstance(k, A) or k is BOT for k in kids):
        cs = {k.ctor for k in kids if k is not BOT}
        if len(cs) == 1:
            real = [k for k in kids if k is not BOT]
            if all(len(k.fields) == len(real[0].fields) for k in real):
                fs = []
                for i, (n, _) in enumerate(real[0].fields):
                    fs.append((n, case(vr, [BOT if k is BOT else k.fields[i][1] for k in kids])))
                return agg(real[0].ctor, fs)
    m = _merge_entry(vr, kids)
    if m is None:
        m = _merge_seqs(vr, kids)
    if m is None:
        m = _merge_upds(vr, kids)
    if m is not None:
        return m
    k = ("N", vr.id, tuple(x.id for x in kids))
    r = _tab.get(k)
    if r is None:
        r = N()
        r.var, r.kids = vr, tuple(kids)
        _next[0] += 1
        r.id = _next[0]
        r.h, r.sz = _hs(("N", vr.kind, vr.term) + r.kids)
        _tab[k] = r
    return r


_case_memo = {}


def cof(v, vr, i):
    return v.kids[i] if isinstance(v, N) and v.var is vr else v


def case(vr, kids):
    key = (vr.id, tuple(k.id for k in kids))
    r = _case_memo.get(key)
    if r is not None:
        return r
    top = vr
    for k in kids:
        if isinstance(k, N) and k.var.id < top.id:
            top = k.var
    if top is vr:
        r = node(vr, [cof(k, vr, i) for i, k in enumerate(kids)])
    else:
        r = node(top, [case(vr, [cof(k, top, i) for k in kids]) for i in range(len(top.dom))])
    _case_memo[key] = r
    return r


_map_memo = {}


def mapv(f, v, memo=None):
    """apply f to every leaf (T or A), recombining decisions"""
    if not isinstance(v, N):
        return BOT if v is BOT else f(v)
    if memo is None:
        memo = {}
    r = memo.get(v.id)
    if r is None:
        r = case(v.var, [mapv(f, k, memo) for k in v.kids])
        memo[v.id] = r
    return r


def apply(f, vs, memo=None):
    """apply the leaf function f to the product of decisions of vs"""
    if memo is None:
        memo = {}
    key = tuple(v.id for v in vs)
    r = memo.get(key)
    if r is not None:
        return r
    top = None
    for v in vs:
        if isinstance(v, N) and (top is None or v.var.id < top.id):
            top = v.var
    if top is None:
        r = BOT if any(v is BOT for v in vs) else f(*vs)
    else:
        r = case(top, [apply(f, [cof(v, top, i) for v in vs], memo) for i in range(len(top.dom))])
    memo[key] = r
    return r


def as_bool(v):
    def leaf(t):
        if t is TRUE or t is FALSE:
            return t
        if isinstance(t, T) and t.op == "not":
            return not_(as_bool(t.args[0]))
        if isinstance(t, T) and t.op == "int":
            return boolv(t.args[0] != 0)
        if isinstance(t, A):
            raise ValueError("aggregate used as a boolean: %r" % (t,))
        return node(var("b", t, (False, True)), [FALSE, TRUE])
    return mapv(leaf, v)


_ops = {"exactly": {}, "and": {}, "or": {}, "not": {}, "ite": {}, "restrict": {}}


def and_(*vs):
    r = TRUE
    for v in vs:
        r = _and2(r, v)
    return r


def _and2(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE or a is b:
        return b if a is not BOT else FALSE
    if b is TRUE:
        return a
    if a is BOT or b is BOT:
        return FALSE
    k = (a.id, b.id) if a.id < b.id else (b.id, a.id)
    m = _ops["and"]
    r = m.get(k)
    if r is None:
        top = a.var if not isinstance(b, N) or (isinstance(a, N) and a.var.id <= b.var.id) else b.var
        r = node(top, [_and2(cof(a, top, i), cof(b, top, i)) for i in range(len(top.dom))])
        m[k] = r
    return r


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a is BOT:
        return BOT
    m = _ops["not"]
    r = m.get(a.id)
    if r is None:
        r = node(a.var, [not_(k) for k in a.kids])
        m[a.id] = r
    return r


def or_(*vs):
    r = FALSE
    for v in vs:
        r = not_(_and2(not_(r), not_(v))) if r is not FALSE else v
    return r


def implies(a, b):
    return and_(a, not_(b)) is FALSE


def iff(a, b):
    return or_(and_(a, b), and_(not_(a), not_(b)))


def ite(g, a, b):
    """g boolean, a b arbitrary"""
    if g is TRUE:
        return a
    if g is FALSE or g is BOT:
        return b
    if a is b:
        return a
    m = _ops["ite"]
    k = (g.id, a.id, b.id)
    r = m.get(k)
    if r is None:
        top = g.var
        for v in (a, b):
            if isinstance(v, N) and v.var.id < top.id:
                top = v.var
        r = node(top, [ite(cof(g, top, i), cof(a, top, i), cof(b, top, i)) for i in range(len(top.dom))])
        m[k] = r
    return r


def restrict(v, g):
    """v, where only assignments satisfying g matter (others become don't-cares)"""
    if g is TRUE or v is BOT:
        return v
    if g is FALSE:
        return BOT
    m = _ops["restrict"]
    k = (v.id, g.id)
    r = m.get(k)
    if r is not None:
        return r
    if isinstance(v, N):
        if v.var.id < g.var.id:
            r = node(v.var, [restrict(x, g) for x in v.kids])
        elif v.var is g.var:
            r = node(v.var, [restrict(x, gk) for x, gk in zip(v.kids, g.kids)])
        else:
            r = node(g.var, [restrict(v, gk) for gk in g.kids])
    elif isinstance(v, A):
        r = agg(v.ctor, [(n, restrict(x, g)) for n, x in v.fields])
    elif v.op == "seq":
        r = mkseq(restrict_ys(v.args[0], g), v.args[1])
    elif v.op == "cat":
        r = mkcat(v.args[0], restrict_ys(v.args[1], g))
    elif _inside(v) and sup(v):
        r = _remake(v, lambda x: restrict(x, g))
    else:
        r = v
    m[k] = r
    return r


def restrict_ys(ys, g):
    out = []
    for y in ys:
        bs, yg, v = y.args
        h = restrict(yg, g)
        if h is FALSE or h is BOT:
            continue
        out.append(yld(bs, h, restrict(v, and_(g, yg))))
    return tuple(out)


def under(v, g):
    """v simplified by the assumption g; boolean results keep no don't-cares"""
    return restrict(v, g)


def cofactor(v, vr, i, memo=None):
    """v with vr fixed to its i-th outcome (inside aggregates too)"""
    if memo is None:
        memo = {}
    r = memo.get(v.id)
    if r is not None:
        return r
    if isinstance(v, N):
        if v.var is vr:
            r = cofactor(v.kids[i], vr, i, memo)
        else:
            r = case(v.var, [cofactor(k, vr, i, memo) for k in v.kids])
    elif isinstance(v, A):
        r = agg(v.ctor, [(n, cofactor(x, vr, i, memo)) for n, x in v.fields])
    elif v.op == "seq":
        r = mkseq([yld(y.args[0], cofactor(y.args[1], vr, i, memo), cofactor(y.args[2], vr, i, memo))
                   for y in v.args[0]], v.args[1])
    elif v.op == "cat":
        r = mkcat(v.args[0], tuple(yld(y.args[0], cofactor(y.args[1], vr, i, memo), cofactor(y.args[2], vr, i, memo))
                                   for y in v.args[1]))
    elif _inside(v):
        r = _remake(v, lambda x: cofactor(x, vr, i, memo)) if vr.id in sup(v) else v
    else:
        r = v
    memo[v.id] = r
    return r


def leaves(v):
    """[(guard, leaf)]"""
    out = {}
    order = []

    def go(x, g):
        if isinstance(x, N):
            for i, k in enumerate(x.kids):
                go(k, and_(g, node(x.var, [TRUE if j == i else FALSE for j in range(len(x.kids))])))
        elif x is not BOT:
            if x.id in out:
                out[x.id] = (or_(out[x.id][0], g), x)
            else:
                out[x.id] = (g, x)
                order.append(x.id)
    go(v, TRUE)
    return [out[i] for i in order]


def support(v, acc=None, seen=None):
    """decision variables occurring in v at the top level (not inside terms)"""
    if acc is None:
        acc, seen = {}, set()
    if v.id in seen:
        return acc
    seen.add(v.id)
    if isinstance(v, N):
        acc[v.var.id] = v.var
        for k in v.kids:
            support(k, acc, seen)
    elif isinstance(v, A):
        for _, x in v.fields:
            support(x, acc, seen)
    return acc


_subs_cache = {}


def subterms(v, seen=None):
    """all terms reachable from v, decisions and arguments included"""
    if seen is None:
        seen = {}
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, (tuple, list)):
            stack.extend(x)
            continue
        if not isinstance(x, (T, A, N)):
            continue
        if x.id in seen:
            continue
        seen[x.id] = x
        if isinstance(x, T):
            stack.extend(x.args)
        elif isinstance(x, A):
            stack.extend(f for _, f in x.fields)
        else:
            stack.append(x.var.term)
            stack.extend(x.kids)
    return seen


def mentions(v, pred):
    return any(isinstance(x, T) and pred(x) for x in subterms(v).values())


def subst(v, f, memo=None):
    """rebuild v bottom-up; f(term) returns a replacement or None. Decisions are rebuilt from replaced terms."""
    if memo is None:
        memo = {}
    if isinstance(v, tuple):
        return tuple(subst(x, f, memo) for x in v)
    if not isinstance(v, (T, A, N)):
        return v
    r = memo.get(v.id)
    if r is not None:
        return r
    if isinstance(v, T):
        r = f(v)
        if r is None:
            args = tuple(subst(a, f, memo) for a in v.args)
            if all(x is y for x, y in zip(args, v.args)):
                r = v
            else:
                r = rebuild(v.op, args)
    elif isinstance(v, A):
        r = agg(v.ctor, [(n, subst(x, f, memo)) for n, x in v.fields])
    else:
        t = subst(v.var.term, f, memo)
        kids = [subst(k, f, memo) for k in v.kids]
        if t is v.var.term:
            r = case(v.var, kids)
        else:
            if v.var.kind == "b":
                g = as_bool(t)
                r = ite(g, kids[1], kids[0])
            else:
                def leaf(l, v=v, kids=kids):
                    if isinstance(l, A):
                        for d, k in zip(v.var.dom, kids):
                            if d == l.ctor[1]:
                                return k
                        return BOT
                    return case(var("d", l, v.var.dom), kids)
                r = mapv(leaf, t)
    memo[v.id] = r
    return r


REBUILD = {"upd": lambda t, n, v: mapv(lambda x: mkupd(x, n, v) if isinstance(x, T) else mk("upd", x, n, v), t),
           "store": lambda t, j, v: mapv(lambda x: mkstore(x, j, v) if isinstance(x, T) else mk("store", x, j, v), t)}


def rebuild(op, args):
    f = REBUILD.get(op)
    if f:
        return f(*args)
    return mk(op, *args)


# ------------------------------------------------------------------ printing
def show(v, d=0):
    if d > 14:
        return "…"
    if isinstance(v, tuple):
        return "(" + ", ".join(show(x, d + 1) for x in v) + ")"
    if isinstance(v, Var):
        return f"{v.kind}:{show(v.term, d + 1)}"
    if isinstance(v, T):
        if v.op == "bot":
            return "⊥"
        if v.op in ("bool", "int"):
            return str(v.args[0])
        if v.op == "str":
            return repr(v.args[0])
        if v.op == "f":
            return f"{show(v.args[0], d + 1)}.{v.args[2]}" if not v.args[1] else f"{show(v.args[0], d + 1)}.{v.args[1]}.{v.args[2]}"
        if v.op == "param":
            return str(v.args[0])
        if v.op == "call":
            return f"{short(v.args[0])}({', '.join(show(x, d + 1) for x in v.args[1:])})"
        if v.op == "elem":
            return f"elem⟨{show(v.args[0], d + 1)}⟩" + ("'" * (v.args[1] if v.args[1] >= 0 else -1 - v.args[1]) if isinstance(v.args[1], int) else "")
        if v.op == "seq":
            return "[" + "; ".join(show(y, d + 1) for y in v.args[0]) + "]" + (str(v.args[1]) if v.args[1] else "")
        if v.op == "y":
            bs = ",".join(show(b[1], d + 1) for b in v.args[0])
            s = show(v.args[2], d + 1)
            if v.args[1] is not TRUE:
                s += " if " + show(v.args[1], d + 1)
            return s + (f" for {bs}" if bs else "")
        return f"{v.op}({', '.join(show(x, d + 1) for x in v.args)})"
    if isinstance(v, A):
        nm = short(v.ctor[0]) if v.ctor[0] not in ("tuple", "array") else ""
        if v.ctor[1] and v.ctor[1] != short(v.ctor[0]):
            nm += ("::" if nm else "") + v.ctor[1]
        return nm + "{" + ", ".join(f"{n}: {show(x, d + 1)}" for n, x in v.fields) + "}"
    if isinstance(v, N):
        if v.var.kind == "b":
            c = show(v.var.term, d + 1)
            f, t = v.kids
            if t is TRUE and f is FALSE:
                return c
            if t is FALSE and f is TRUE:
                return "¬" + c
            if f is FALSE:
                return f"({c} ∧ {show(t, d + 1)})"
            if t is FALSE:
                return f"(¬{c} ∧ {show(f, d + 1)})"
            if t is TRUE:
                return f"({c} ∨ {show(f, d + 1)})"
            if f is TRUE:
                return f"(¬{c} ∨ {show(t, d + 1)})"
            return f"({c} ? {show(t, d + 1)} : {show(f, d + 1)})"
        groups = {}
        for nm, k in zip(v.var.dom, v.kids):
            groups.setdefault(k.id, ([], k))[0].append(nm)
        if len(groups) > 1:
            # biggest group last, as "_"
            gs = sorted(groups.values(), key=lambda g: len(g[0]))
            parts = []
            for i, (ns, k) in enumerate(gs):
                if k is BOT:
                    continue
                lab = "_" if i == len(gs) - 1 and len(ns) > 3 else "|".join(map(str, ns))
                parts.append(f"{lab} => {show(k, d + 1)}")
            return f"match {show(v.var.term, d + 1)} {{{', '.join(parts)}}}"
    return str(v)


def short(p):
    return p.split("::")[-1] if "<" not in p else p
