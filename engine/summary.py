"""Semantic summary of a function: result, final state of what it may mutate, effects, and when it fails to return."""
import re
from val import *
import tys
from evalr import Ev, Cx, norm_path, Unsupported
from canon import Canon, cpath, ctype
from renum import Renum

# calls that only write logs or debugging text
QUIET = re.compile(r"^(log::|core::fmt|std::fmt::(?!Display)|std::intrinsics|tracing::|std::panic::Location|core::panicking::panic_fmt$|alloc::fmt|std::fmt::Arguments)")
# effects that are observable although they return a value nobody uses are found by use analysis; these never count
STOPS = {"exit", "abort"}        # they stop the process with an answer of their own
DIVERGE = {"panic_fmt", "panic", "panic_explicit", "unreachable_display", "panic_display", "begin_panic", "assert_failed"}
PURE = {"Iterator::next", "Iterator::size_hint", "Vec::with_capacity", "HashMap::with_capacity", "fmt::Arguments", "max_level",
        "Argument::new_display", "Argument::new_debug", "Arguments::new_v1", "Arguments::new_const", "__private_api", "loc",
        "Deref::deref", "split_once", "map", "anychar", "Location::caller", "ExactSizeIterator::len", "DerefMut::deref_mut", "Rvalue::static", "Map::node_to_string", "Map::body_owner_def_id",
        "Local::as_usize", "RawList::len", "PlaceExt::to_string", "MoveOutIndex::as_u32", "BorrowIndex::as_u32", "Idx::index"}


def fkey(fn):
    """name of a function that survives moving it to another module"""
    last = cpath(norm_path(fn.path)).split("::")[-1]
    if fn.self_ty and fn.self_ty != "Self":
        st = tys.peel(tys.parse(fn.self_ty))[0] if not fn.self_ty.startswith("<") else fn.self_ty
        s = cpath(st)
        if fn.of_trait:
            m = re.match(r"^<.* as (.*)>$", fn.of_trait)
            tr = m.group(1) if m else fn.of_trait
            return f"<{ctype(fn.self_ty)} as {ctype(tr)}>::{last}"
        return f"{s}::{last}"
    if fn.self_ty == "Self":
        return cpath(norm_path(fn.path))
    return last


class Index:
    def __init__(self, F):
        self.F = F
        self.by = {}
        for f in F.fns.values():
            if "{c" in f.id.split("::")[-1] or f.kind not in ("Fn", "AssocFn"):
                continue
            self.by.setdefault(fkey(f), []).append(f)

    def find(self, key):
        """key: [crate/]name"""
        crate = None
        if "/" in key and not key.startswith("<"):
            crate, key = key.split("/", 1)
        r = self.by.get(key, [])
        if crate:
            r = [f for f in r if f.crate.split("-")[0] == crate or f.crate == crate]
        return r


class Summary:
    __slots__ = ("fn", "ret", "returns", "state", "effects", "panics", "ev", "notes", "params", "raw", "canon")


def summarise(F, fn, stop=(), hook=None, keep=None, max_steps=60000):
    ev = Ev(F, stop=stop, max_steps=max_steps)
    if hook:
        ev.hook = hook
    st, ps = {}, []
    body = fn.body
    for i in range(body["argc"]):
        l = body["locals"][i + 1]
        base = mk("param", i)
        if l["ty"].startswith("&mut ") or re.match(r"^&'\w+ mut ", l["ty"]):
            loc = ("heap", "*%d" % i)
            st[loc] = base
            ps.append(mk("ref", loc, ()))
        elif l["ty"] == "bool":
            ps.append(as_bool(base))
        else:
            ps.append(base)
    ret, st2, g = ev.run_body(fn, body, ps, TRUE, st, {})
    if any(isinstance(l, A) and l.ctor[0] == "coroutine" for _, l in leaves(ret)):
        cx = Cx(st2, g)
        ret = ev.await_(cx, {"n": 0, "fn": fn, "tsub": {}, "body": body}, ret)
        st2, g = cx.st, cx.g
    canon, rn = Canon([i for i in range(body["argc"]) if re.match(r"^(&('\w+ )?)?(\w+::)*TyCtxt\b", body["locals"][i + 1]["ty"])]), Renum()
    c = lambda v: canon(rn(v))
    s = Summary()
    s.fn, s.ev, s.params, s.canon = fn, ev, ps, canon
    s.raw = (ret, st2, g)
    full = lambda v: ev.full(st2, v)
    r = restrict(full(ret), g)
    s.ret = c(r)
    s.returns = c(g)
    s.state = {}
    for k, v in st2.items():
        if k[0] == "heap":
            v = restrict(full(v), g)
            if v is not mk("param", int(k[1][1:])):
                s.state[k[1]] = c(v)
        elif k[0] == "cell":
            v = full(v)
            if v is not mk("cellval", k[1]):
                s.state["cell " + show(c(k[1]))] = (c(k[1]), c(restrict(v, g)))
    # effects
    used = set()
    shown = lambda e: e.kind == "panic" or e.kind in ("call", "store") and not QUIET.match(e.path) and cpath(e.path) not in PURE
    roots = [ret, g] + list(st2.values()) + [e.guard for e in ev.events if shown(e)]
    seen = {}
    for v in roots:
        subterms(v, seen)
    for e in ev.events:
        if e.kind == "call":
            for a in e.args:
                for x in (subterms(a)):
                    used.add(x)
    used |= set(seen)
    effs = {}
    skels = None
    s.panics = []
    for e in ev.events:
        if e.kind == "panic":
            s.panics.append((cpath(e.path), c(e.guard)))
            continue
        if e.kind not in ("call", "store"):
            continue
        p = cpath(e.path)
        if QUIET.match(e.path) or p in PURE:
            continue
        if e.kind == "call" and p not in STOPS:
            ls = [l for _, l in leaves(e.res)]
            unit = e.res is UNIT or all(isinstance(l, A) and l.ctor == ("tuple", "") for l in ls)
            if not unit and any(l.id in used or any(x in used for x in subterms(l) if isinstance(subterms_of(l), set) and False) for l in ls if isinstance(l, T)):
                continue
            if e.ctx and not unit:
                if skels is None:
                    skels = {skeleton(x) for x in seen.values() if isinstance(x, T) and x.op not in BOUND}
                if ls and all(isinstance(l, T) and skeleton(l) in skels for l in ls):
                    continue
            if isinstance(e.res, N):
                own = {}
                for a in e.args:
                    subterms(a, own)
                if any(v.term.id in used and v.term.id not in own for v in support(e.res).values()):
                    continue
        ctx = []
        eargs, eguard, ectx = rn.event(e.args, e.guard, e.ctx)
        for b in ectx:
            if isinstance(b, tuple) and b[0] == "loop":
                ctx.append(mk("loop", canon(b[1])))
            elif isinstance(b, tuple):
                ctx.append(mk("for", canon(b[0]), canon(b[1])))
            else:
                ctx.append(mk("in", "λ"))
        key = mk("eff", e.kind + ":" + p, tuple(canon(a) for a in eargs), tuple(ctx))
        gd = canon(eguard)
        old = effs.get(key.id)
        effs[key.id] = (key, or_(old[1], gd) if old and old[1] is not BOT else gd)
    stopped = {(p, g.id) for p, g in s.panics}
    s.effects = [(k, g) for k, g in effs.values() if (k.args[0][5:] in STOPS or (k.args[0][5:], g.id) not in stopped) and not (k.args[0][5:] in DIVERGE)]
    s.notes = set(canon.notes)
    return s


BOUND = ("elem", "first")
SKEL = {}


def skeleton(v):
    """a term, whichever element of a collection it speaks of"""
    if isinstance(v, (tuple, list)):
        return hash(tuple(skeleton(x) for x in v))
    if not isinstance(v, (T, A, N)):
        return hash(v) if v.__hash__ else 0
    if v.id in SKEL:
        return SKEL[v.id]
    if isinstance(v, T):
        h = 7 if v.op in BOUND else hash(("T", v.op, tuple(skeleton(x) for x in v.args)))
    elif isinstance(v, A):
        h = hash(("A", v.ctor, tuple((n, skeleton(f)) for n, f in v.fields)))
    else:
        h = hash(("N", skeleton(v.var.term), tuple(skeleton(k) for k in v.kids)))
    SKEL[v.id] = h
    return h


def subterms_of(l):
    return None


def text(s, width=100000):
    out = ["fn " + fkey(s.fn), "  ret: " + show(s.ret)]
    if s.returns is not TRUE:
        out.append("  returns when " + show(s.returns))
    for k, v in s.state.items():
        out.append(f"  state {k} = " + show(v[1] if isinstance(v, tuple) else v))
    for k, g in s.effects:
        cx = " ".join(("@" + show(b.args[1]) if b.op == "for" else "@" + b.op) for b in k.args[2])
        out.append(f"  effect {k.args[0]}({', '.join(map(show, k.args[1]))}) {cx}" + ("" if g is TRUE else " when " + show(g)))
    for p, g in s.panics:
        out.append(f"  panic {p} when {show(g)}")
    if s.notes:
        out.append("  notes: " + ", ".join(sorted(s.notes)))
    return "\n".join(x[:width] for x in out)
