"""Finds the functions the references speak of, also after a rename or a change of generic parameter names."""
import json, os, re
import canon, tys, frame
from canon import cpath, ctype
from evalr import norm_path
from summary import fkey
from store import SPEC

BASE = os.path.join(SPEC, "functions.json")


def sig(fn):
    ls = fn.body["locals"]
    n = fn.body["argc"]
    return [[ctype(ls[i + 1]["ty"]) for i in range(n)], ctype(ls[0]["ty"]), fn.crate.split("-")[0], bool(fn.coroutine)]


def names(fn):
    ls = fn.body["locals"]
    return [ls[i + 1].get("name") for i in range(fn.body["argc"])]


def mods(F, f):
    t = frame.of(F).tab.get(f.id, {})
    return {str(p): None if m is None else sorted(m) for p, m in sorted(t.items())}


def write(ix):
    d = {k: [[sig(f), names(f), cpath(norm_path(f.path)), mods(ix.F, f)] for f in fs] for k, fs in sorted(ix.by.items())}
    with open(BASE, "w") as f:
        f.write(json.dumps(d, separators=(",", ":")).replace(']],"', ']],\n"') + "\n")


def degen(k):
    return re.sub(r"<[^<>]*>", "", re.sub(r"\b[A-Z]\b", "", k)) if not k.startswith("<") else re.sub(r"\b[A-Z]\d?\b", "_", k)


class Resolver:
    """find(key) -> function or None; gone: names (as written in references) of functions that are no longer there;
    changed: the same for functions whose parameter list is another one"""

    def __init__(self, ix):
        self.ix = ix
        self.base = json.load(open(BASE))
        self.alias = {}
        self.gone, self.changed = set(), set()
        self.renamed = []
        now = set(ix.by)
        missing = [k for k in self.base if k not in now]
        new = [k for k in now if k not in self.base]
        pools = {}
        for k in new:
            for f in ix.by[k]:
                pools.setdefault(self.sk(f), []).append((k, f))
        for k in missing:
            for k2 in new:
                if degen(k) == degen(k2) and len(ix.by[k2]) == 1:
                    self.alias[k] = ix.by[k2][0]
        taken = {f.id for f in self.alias.values()}
        for k in missing:
            if k in self.alias:
                continue
            s, nm, path = self.base[k][0][:3]
            cand = [(k2, f) for k2, f in pools.get((json.dumps(s), self.owner(k)), []) if f.id not in taken]
            if len(cand) == 1 and len(self.base[k]) == 1 and sum(
                    1 for m in missing if m not in self.alias and self.base[m][0][0] == s and self.owner(m) == self.owner(k)) == 1:
                self.alias[k] = cand[0][1]
                canon.ALIAS[cpath(norm_path(cand[0][1].path))] = path
                canon._p.clear()
                self.renamed.append((k, cand[0][0]))
            else:
                self.gone.add(path)
        for k, fs in ix.by.items():
            b = self.base.get(k)
            if b and len(b) == 1 and len(fs) == 1 and len(b[0][0][0]) != len(sig(fs[0])[0]):
                self.changed.add(b[0][2])

        # what calls may change: as when the references were written, unless they may change more today
        tab = frame.of(ix.F).tab
        for k, b in self.base.items():
            fs = ix.by.get(k) or ([self.alias[k]] if k in self.alias else [])
            if len(b) != 1 or len(fs) != 1:
                continue
            cur = tab.get(fs[0].id, {})
            for p, m in b[0][3].items():
                c = cur.get(int(p), None) if int(p) in cur else None
                if int(p) in cur and (m is None or c is not None and c <= set(m)):
                    cur[int(p)] = None if m is None else set(m)

    def owner(self, k):
        """impl the key belongs to, '' for a free function"""
        return k.rsplit("::", 1)[0] if "::" in k else ""

    def sk(self, f):
        return json.dumps(sig(f)), self.owner(fkey(f))

    def find(self, key):
        fs = self.ix.find(key)
        if len(fs) == 1:
            return fs[0]
        k = key.split("/", 1)[1] if "/" in key and not key.startswith("<") else key
        return self.alias.get(k)
