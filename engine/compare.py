"""Comparison of canonical values.  Equal objects are equal values; otherwise a value is compared piece by piece, so
that situations the reference leaves open (no value there) do not count and a difference can be named."""
from val import *


def nothing_in(var):
    """x, if the question is whether x holds anything"""
    t = var.term
    if isinstance(t, T) and t.op == "exists" and len(t.args[0]) == 1 and t.args[1] is TRUE:
        x, e = t.args[0][0]
        return x
    return None


def possible(*vs):
    """what always holds: the first element with some quality has that quality"""
    g, seen, todo = TRUE, set(), list(vs)
    for v in vs:
        for t in list(subterms(v).values()):
            if isinstance(t, T) and t.op == "first" and (t.args[0], t.args[1]) not in seen:
                seen.add((t.args[0], t.args[1]))
                if len(seen) > 12:
                    return g
                at = {e.id: mk("first", t.args[0], t.args[1], e) for _, e in t.args[0]}
                g = and_(g, subst(t.args[1], lambda x: at.get(x.id)))
    return g


def emptied(v, x):
    """v, when there is nothing in x"""
    def leaf(t):
        if t is x or isinstance(t, T) and t.op == "seq" and all(y.args[0] and y.args[0][0][0] is x for y in t.args[0]):
            return mkseq([])
        return t
    return mapv(leaf, v)


class Cmp:
    def __init__(self):
        self.memo = {}
        self.budget = 400000

    def same(self, a, b):
        """a: reference, b: now"""
        if a is b:
            return True
        if isinstance(a, tuple) or isinstance(b, tuple):
            return (isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b)
                    and all(self.same(x, y) for x, y in zip(a, b)))
        if not isinstance(a, (T, A, N)) or not isinstance(b, (T, A, N)):
            return a == b
        if a is BOT or b is BOT:
            return True
        k = (a.id, b.id)
        r = self.memo.get(k)
        if r is None:
            self.budget -= 1
            if self.budget < 0:
                return False
            self.memo[k] = r = self._same(a, b)
        return r

    def _same(self, a, b):
        if isinstance(a, N) or isinstance(b, N):
            if all(l is TRUE or l is FALSE for v in (a, b) for l in boolleaves(v)):
                return False        # boolean functions are canonical
            top = a.var if not isinstance(b, N) or (isinstance(a, N) and a.var.id <= b.var.id) else b.var
            if (isinstance(a, N) and isinstance(b, N) and a.var is not b.var and len(a.kids) == len(b.kids)
                    and a.var.kind == b.var.kind and a.var.dom == b.var.dom and self.same(a.var.term, b.var.term)):
                return all(self.same(x, y) for x, y in zip(a.kids, b.kids))
            return all(self.same(cof(a, top, i), cof(b, top, i)) for i in range(len(top.dom)))
        if isinstance(a, A) or isinstance(b, A):
            return (isinstance(a, A) and isinstance(b, A) and a.ctor == b.ctor and len(a.fields) == len(b.fields)
                    and all(n == m and self.same(x, y) for (n, x), (m, y) in zip(a.fields, b.fields)))
        return a.op == b.op and len(a.args) == len(b.args) and all(self.same(x, y) for x, y in zip(a.args, b.args))

    def agree(self, a, b, g):
        """do a and b agree wherever g holds?"""
        if g is FALSE or a is b or a is BOT or b is BOT:
            return True
        if g is TRUE and self.same(a, b):
            return True
        k = (a.id, b.id, g.id)
        r = self.memo.get(k)
        if r is None:
            self.budget -= 1
            if self.budget < 0:
                return False
            self.memo[k] = r = self._agree(a, b, g)
        return r

    def _agree(self, a, b, g):
        top = None
        for v in (a, b, g):
            if isinstance(v, N) and (top is None or v.var.id < top.id):
                top = v.var
        if isinstance(a, A) and isinstance(b, A):
            return (a.ctor == b.ctor and len(a.fields) == len(b.fields)
                    and all(n == m and self.agree(x, y, g) for (n, x), (m, y) in zip(a.fields, b.fields)))
        if isinstance(a, T) and isinstance(b, T):
            if a.op == b.op == "y":
                return a.args[0] == b.args[0] and self.agree(a.args[1], b.args[1], g) and self.agree(a.args[2], b.args[2], and_(g, a.args[1]))
            if a.op == b.op == "seq":
                return len(a.args[0]) == len(b.args[0]) and a.args[1] == b.args[1] and all(self.agree(x, y, g) for x, y in zip(a.args[0], b.args[0]))
            if a.op == b.op == "cat":
                return self.same(a.args[0], b.args[0]) and len(a.args[1]) == len(b.args[1]) and all(self.agree(x, y, g) for x, y in zip(a.args[1], b.args[1]))
            return self.same(a, b)
        if top is None:
            return False
        if self.same(a, b):
            return True
        x = nothing_in(top)
        for i in range(len(top.dom)):
            p, q = cof(a, top, i), cof(b, top, i)
            if x is not None and top.dom[i] in (False, 0):
                p, q = emptied(p, x), emptied(q, x)
            if not self.agree(p, q, cof(g, top, i)):
                return False
        return True

    # ---- where do they differ?
    def diff(self, a, b, depth=0):
        """smallest differing pieces: [(reference, now)]"""
        if self.same(a, b):
            return []
        if depth > 60:
            return [(a, b)]
        out = []
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            for x, y in zip(a, b):
                out += self.diff(x, y, depth + 1)
            return out or [(a, b)]
        if isinstance(a, A) and isinstance(b, A) and a.ctor == b.ctor and len(a.fields) == len(b.fields):
            for (n, x), (m, y) in zip(a.fields, b.fields):
                if n != m:
                    return [(a, b)]
                out += self.diff(x, y, depth + 1)
            return out or [(a, b)]
        if isinstance(a, N) and isinstance(b, N) and a.var is b.var:
            for x, y in zip(a.kids, b.kids):
                out += self.diff(x, y, depth + 1)
            if len(out) <= 2:
                return out or [(a, b)]
            return [(a, b)]
        if isinstance(a, T) and isinstance(b, T) and a.op == b.op and len(a.args) == len(b.args):
            for x, y in zip(a.args, b.args):
                if isinstance(x, (T, A, N, tuple)) and isinstance(y, (T, A, N, tuple)):
                    out += self.diff(x, y, depth + 1)
                elif x != y:
                    return [(a, b)]
            return out or [(a, b)]
        return [(a, b)]


def boolleaves(v):
    """leaves of a decision value, stopping early at a non-boolean"""
    st, seen = [v], set()
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if isinstance(x, N):
            st += x.kids
        else:
            yield x
            if x is not TRUE and x is not FALSE:
                return


def cut(s, n=260):
    return s if len(s) <= n else s[:n - 1] + "…"


def compare(ref, s):
    """ref: dict of canonical values (ret, returns, state, effects); s: Summary.  Yields (facet, explanation)"""
    c = Cmp()
    both = and_(ref["returns"], s.returns)
    if ref["returns"] is TRUE and s.returns is not TRUE:
        yield "completion", "may now stop (panic) when " + cut(show(not_(s.returns)))
        both = s.returns
    if ref["returns"] is not FALSE and s.returns is FALSE:
        yield "completion", "never returns"
        return

    def chk(a, b):
        if both is not TRUE:
            a2, b2 = restrict(a, both), restrict(b, both)
            if a2 is BOT and b2 is BOT:
                return None
            if a is not BOT and b is not BOT and c.agree(a, b, both):
                return None
            a, b = a2, b2
        if (a is BOT) != (b is BOT):
            return "value there is " + ("no longer defined" if b is BOT else "newly defined")
        if c.same(a, b):
            return None
        if a is not BOT and b is not BOT and (c.agree(a, b, TRUE) or c.agree(a, b, possible(a, b))):
            return None
        ds = c.diff(a, b)
        x, y = ds[0]
        return "expected " + cut(show(x)) + " but it is " + cut(show(y))
    r = chk(ref["ret"], s.ret)
    if r:
        yield "result", r
    for k in sorted(set(ref["state"]) | set(s.state)):
        a, b = ref["state"].get(k), s.state.get(k)
        if a is None:
            yield "state " + k, "is now changed: " + cut(show(b[1] if isinstance(b, tuple) else b))
        elif b is None:
            yield "state " + k, "is no longer changed; expected " + cut(show(a[1] if isinstance(a, tuple) else a))
        else:
            if isinstance(a, tuple):
                a, b = a[1], b[1]
            r = chk(a, b)
            if r:
                yield "state " + k, r
    left = list(s.effects)
    missing = []
    for k, g in ref["effects"]:
        hit = None
        for i, (k2, g2) in enumerate(left):
            if k is k2 or (k.args[0] == k2.args[0] and c.same(k.args[1], k2.args[1]) and c.same(k.args[2], k2.args[2])):
                if hit is None or g is g2:
                    hit = i
                    if g is g2:
                        break
        if hit is None:
            missing.append((k, g))
            continue
        k2, g2 = left.pop(hit)
        if g is not g2 and not c.same(g, g2) and not c.agree(g, g2, possible(g, g2)):
            d = c.diff(g, g2)[0]
            yield "effect " + k.args[0], "happens when " + cut(show(g2)) + " instead of when " + cut(show(g))
    def alike(k, g, k2, g2):
        """the same effect, as far as its arguments matter: where it happens"""
        if k.args[0] != k2.args[0] or not c.same(k.args[2], k2.args[2]) or len(k.args[1]) != len(k2.args[1]):
            return False
        if not all(isinstance(x, (T, A, N)) for x in k.args[1] + k2.args[1]):
            return False
        if not (c.same(g, g2) or c.agree(g, g2, possible(g, g2))):
            return False
        w = and_(possible(g, *k.args[1]), g) if not k.args[2] else possible(*k.args[1])
        return all(c.same(x, y) or x is not BOT and y is not BOT and c.agree(x, y, w) for x, y in zip(k.args[1], k2.args[1]))
    for k, g in list(missing):
        near = next((i for i, (k2, g2) in enumerate(left) if alike(k, g, k2, g2)), None)
        if near is not None:
            left.pop(near)
            missing.remove((k, g))
    for k, g in missing:
        near = [i for i, (k2, _) in enumerate(left) if k2.args[0] == k.args[0]]
        if near:
            k2, g2 = left.pop(near[0])
            d = c.diff((k.args[1], k.args[2]), (k2.args[1], k2.args[2]))[0]
            yield "effect " + k.args[0], "expected with " + cut(show(d[0])) + " but has " + cut(show(d[1]))
        else:
            yield "effect " + k.args[0], "is gone: " + cut(show(k)) + ("" if g is TRUE else " when " + cut(show(g)))
    for k, g in left:
        yield "effect " + k.args[0], "is new: " + cut(show(k)) + ("" if g is TRUE else " when " + cut(show(g)))


# ---- a coarser comparison, used only where the analysis lost track (see run.refs)
IMPRECISE = {"loopdesc", "lvdef", "fix", "during", "seqfx", "lv", "lamfx"}


def roots(x):
    """all values of a reference (dict) or a Summary"""
    get = x.get if isinstance(x, dict) else lambda k: getattr(x, k)
    r = [get("ret"), get("returns")]
    r += [v[1] if isinstance(v, tuple) else v for v in get("state").values()]
    for k, g in get("effects"):
        r += [k, g]
    return r


def kinds(vs):
    seen = {}
    for v in vs:
        subterms(v, seen)
    return {x.op for x in seen.values() if isinstance(x, T)} & IMPRECISE


def callnames(ref):
    seen = {}
    for v in roots(ref):
        subterms(v, seen)
    r = {x.args[0] for x in seen.values() if isinstance(x, T) and x.op == "call"}
    return sorted(r | {x.args[0].split(":", 1)[1] for x in seen.values() if isinstance(x, T) and x.op == "eff"})


def atoms(vs):
    """what a value mentions, without how it is put together"""
    seen, out = {}, set()
    for v in vs:
        subterms(v, seen)
    for x in seen.values():
        if isinstance(x, A):
            if x.ctor[0] not in ("tuple", "closure", "coroutine", "array", "Option", "Result"):
                out.add(("value",) + tuple(x.ctor))
        elif isinstance(x, N):
            pass
        elif x.op == "call":
            out.add(("call", x.args[0].replace("mut:", "")))
        elif x.op in ("str", "static", "char"):
            out.add((x.op,) + tuple(a for a in x.args if isinstance(a, (str, int))))
        elif x.op == "eff":
            out.add(("call", x.args[0].split(":", 1)[1]))
        elif x.op == "f":
            if not x.args[2].isdigit():
                out.add(("field", x.args[2]))
    return out


def coarse(ref, s, R):
    """differences in what is mentioned: the functions of this code base, constants, fields and variants"""
    a, b = atoms(roots(ref)), atoms(roots(s))
    local = {v[2] for vs in R.base.values() for v in vs}
    skip = R.gone | R.changed
    # what a function that is no longer there said is now said by its callers
    import store
    import anchors
    for k in {k.lstrip("*") for ks in anchors.parse().values() for k in ks}:
        if any(v[2] in R.gone for v in R.base.get(k.split("/")[-1], ())):
            r = store.load(k)
            if r:
                a = a | (atoms(roots(r)) & b)
    out = []
    for t in sorted(a ^ b, key=str):
        if t[0] == "call" and (t[1] not in local or t[1] in skip) or t[0] in ("value", "field") and t in b:
            continue
        out.append(("no longer uses " if t in a else "now uses ") + " ".join(map(str, t)))
    return out
