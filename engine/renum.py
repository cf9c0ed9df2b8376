"""Canonical names for bound elements: a bound element's number is its height among binders over the same collection
nested in its scope, so names do not depend on what was open or closed when it was met."""
from val import *

# op -> (index of the binders, indices of the parts in their scope)
SCOPE = {"y": (0, (1, 2)), "exists": (0, (1,)), "first": (0, (1, 2)), "firstis": (0, (1, 2)), "last": (0, (1, 2)),
         "sum": (1, (2, 3)), "fold": (1, (2, 3)), "upto": (1, (2,)), "seqfx": (0, (1, 2))}


def base(c):
    return c.args[0] if isinstance(c, T) and c.op == "ordered" else c


def heights(v, cache):
    """{collection id: greatest number of an element bound in v} (numbers are negative: -1 - height)"""
    out = {}
    for x in subterms(v).values():
        if isinstance(x, T) and x.op == "elem" and isinstance(x.args[1], int) and x.args[1] < 0:
            k = x.args[0].id
            out[k] = max(out.get(k, 0), -x.args[1])
    return out


class Renum:
    def __init__(self):
        self.memo = {}

    def __call__(self, v):
        if isinstance(v, tuple):
            return tuple(self(x) for x in v)
        if not isinstance(v, (T, A, N)):
            return v
        r = self.memo.get(v.id)
        if r is None:
            r = self.memo[v.id] = self.go(v)
        return r

    def bind(self, bnds, parts):
        """rename the elements of bnds in parts (already renamed inside)"""
        nb = []
        for c, e in reversed(bnds):
            c = self(c)
            e2 = self(e)
            if isinstance(e2, T) and e2.op == "elem" and isinstance(e2.args[1], int) and e2.args[1] >= 0:
                h = heights((parts, tuple(nb)), None).get(base(c).id, 0)
                new = mk("elem", base(c), -1 - h)
                f = lambda x: new if x is e2 else None
                memo = {}
                parts = subst(parts, f, memo)
                nb = [(subst(a, f, memo), subst(b, f, memo)) for a, b in nb]
                e2 = new
            nb.insert(0, (c, e2))
        return tuple(nb), parts

    def go(self, v):
        if isinstance(v, N):
            t = self(v.var.term)
            kids = [self(k) for k in v.kids]
            if t is v.var.term:
                return case(v.var, kids)
            if v.var.kind == "b":
                return ite(as_bool(t), kids[1], kids[0])
            from canon import test
            return test(t, v.var.dom, kids)
        if isinstance(v, A):
            return agg(v.ctor, [(n, self(x)) for n, x in v.fields])
        if v.op in SCOPE:
            bi, ps = SCOPE[v.op]
            bnds = v.args[bi]
            parts = tuple(self(v.args[i]) for i in ps)
            extra = {}
            if v.op == "fold":
                acc = v.args[4]
                n = max([x.args[0] for x in subterms(parts).values() if isinstance(x, T) and x.op == "acc" and x.args[0] < 0] + [0], key=abs)
                new = mk("acc", n - 1)
                parts = subst(parts, lambda x: new if x is acc else None)
                extra[4] = new
            nb, parts = self.bind(bnds, parts)
            args = [self(a) for a in v.args]
            args[bi] = nb
            for i, p in zip(ps, parts):
                args[i] = p
            for i, p in extra.items():
                args[i] = p
            if v.op == "y":
                return yld(*args)
            return rebuild(v.op, tuple(args))
        if v.op == "seq":
            return mkseq([self(y) for y in v.args[0]], self(v.args[1]))
        if v.op == "cat":
            return mkcat(self(v.args[0]), tuple(self(y) for y in v.args[1]))
        args = tuple(self(a) for a in v.args)
        if all(a is b for a, b in zip(args, v.args)):
            return v
        return rebuild(v.op, args)

    def event(self, args, guard, ctx):
        """an event under its enclosing binders: ctx entries are (collection, element) or anything else"""
        parts = (tuple(self(a) for a in args), self(guard))
        out = []
        for b in reversed(ctx):
            if isinstance(b, tuple) and b[0] != "loop":
                nb, parts2 = self.bind((b,), parts + (tuple(out),))
                parts, out = parts2[:2], list(parts2[2])
                out.insert(0, nb[0])
            elif isinstance(b, tuple):
                out.insert(0, (b[0], self(b[1])))
            else:
                out.insert(0, b)
        return parts[0], parts[1], tuple(out)
