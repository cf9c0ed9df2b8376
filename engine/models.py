"""Meaning of the library functions the analysis understands. m(ev, cx, fr, callee, args, term) -> value"""
import re
from val import *
import val
import evalr
from evalr import OPTION, RESULT, CFLOW, POLL, Cx, MOVED, exists, mapctx
import tys

MODELS = {}
PREFIX = []


def model(*paths):
    def d(f):
        for p in paths:
            MODELS[p] = f
            if p.startswith("std::"):
                MODELS["core::" + p[5:]] = f
                MODELS["alloc::" + p[5:]] = f
        return f
    return d


def some(v):
    return agg((OPTION, "Some"), [("0", v)])


NONE = agg((OPTION, "None"), [])


def ok(v):
    return agg((RESULT, "Ok"), [("0", v)])


def err(v):
    return agg((RESULT, "Err"), [("0", v)])


def opt_of(g, v):
    """Some(v) when g else None"""
    return ite(g, some(v), NONE)


def D(ev, cx, v):
    """value behind references"""
    return ev.deref(cx.st, v)


def DD(ev, cx, v):
    """value behind any number of references"""
    for _ in range(6):
        v = ev.deref(cx.st, v)
        if not any(isinstance(l, T) and l.op == "ref" for _, l in leaves(v)):
            break
    return v


def branch(ev, cx, cond, then, els):
    """evaluate then(cx') under cond and els(cx') otherwise; join"""
    outs = []
    for g, f in ((and_(cx.g, cond), then), (and_(cx.g, not_(cond)), els)):
        if g is FALSE:
            continue
        c2 = Cx(dict(cx.st), g)
        r = f(c2)
        if c2.g is not FALSE:
            s = c2.st
            s[("tmp", "b")] = r
            outs.append((c2.g, s))
    if not outs:
        cx.g = FALSE
        return BOT
    cx.g = or_(*[o[0] for o in outs])
    st = ev.merge(outs)
    r = st.pop(("tmp", "b"), BOT)
    cx.st = st
    return r


# ------------------------------------------------------------------ sequences
def is_optionlike(v):
    """A(Option..) leaves only"""
    ls = leaves(v)
    return bool(ls) and all(isinstance(l, A) and l.ctor[0] in (OPTION,) for _, l in ls)


def as_seq(ev, v, ty=None):
    if isinstance(ty, str):
        pt = tys.peel(tys.parse(ty))[0]
        if pt.endswith("option::Option"):
            s = ev.is_variant(v, OPTION, "Some")
            return mkseq([yld((), s, restrict(ev.field(v, "0", "Some"), s) if s is not FALSE else BOT)] if s is not FALSE else [])
        if pt.endswith("result::Result"):
            s = ev.is_variant(v, RESULT, "Ok")
            return mkseq([yld((), s, restrict(ev.field(v, "0", "Ok"), s))] if s is not FALSE else [])
    if is_optionlike(v):
        return as_seq(ev, v, "std::option::Option")
    if isinstance(v, T):
        if v.op == "seq":
            return v
        if v.op == "cat":
            b = as_seq(ev, v.args[0])
            if isinstance(b, T) and b.op == "seq":
                return mkseq(b.args[0] + v.args[1], b.args[1])
            e = ev.fresh_elem(b)
            return mk("seq", (yld(((b, e),), TRUE, e),) + v.args[1], ())
        if v.op == "fut":
            return as_seq(ev, v.args[0])
        e = ev.fresh_elem(v)
        return mk("seq", (yld(((v, e),), TRUE, e),), ())
    if isinstance(v, A):
        if v.ctor[0] == "array":
            return mkseq([yld((), TRUE, x) for _, x in v.fields])
        if v.ctor[0] == OPTION:
            return mkseq([yld((), TRUE, v.fields[0][1])] if v.fields else [])
        if v.ctor[0].endswith("ops::Range"):
            s, e_ = v.get("start"), v.get("end")
            c = mk("range", s, e_)
            e = ev.fresh_elem(c)
            return mk("seq", (yld(((c, e),), TRUE, e),), ())
        e = ev.fresh_elem(v)
        return mk("seq", (yld(((v, e),), TRUE, e),), ())
    if v is BOT:
        return mkseq([])
    ys = []
    for g, l in leaves(v):
        s = as_seq(ev, l)
        for y in s.args[0]:
            ys.append(yld(y.args[0], and_(g, y.args[1]), y.args[2]))
    return mkseq_raw(ys)


def mkseq_raw(ys):
    return mk("seq", tuple(ys), ())


def yields(ev, v, ty=None):
    s = as_seq(ev, v, ty)
    if isinstance(s, T) and s.op == "seq":
        return s.args[0], s.args[1]
    e = ev.fresh_elem(s)
    return (yld(((s, e),), TRUE, e),), ()


def length(ev, v):
    def leaf(x):
        if isinstance(x, A) and x.ctor[0] == "array":
            return intv(len(x.fields))
        if isinstance(x, T) and x.op == "str":
            return intv(len(x.args[0].encode()))
        if isinstance(x, T) and x.op == "seq" and all(not y.args[0] and y.args[1] is TRUE for y in x.args[0]):
            return intv(len(x.args[0]))
        return mk("len", x)
    return mapv(leaf, v)


def nonempty(ev, v):
    def leaf(x):
        if isinstance(x, T) and x.op in ("call", "f", "param", "index") or not isinstance(x, (T, A)):
            return as_bool(mk("exists", ((x, ev_elem0(x)),), TRUE))
        ys, _ = yields(ev, x)
        r = FALSE
        for y in ys:
            r = or_(r, exists(ev, y.args[0], y.args[1]) if y.args[0] else y.args[1])
        return r
    return mapv(leaf, v)


def ev_elem0(x):
    return mk("elem", x, 0)


def is_empty(ev, v):
    return not_(nonempty(ev, v))


def stops(ev, cx, st0, bnds, yg, yv, body, stop, order):
    """a search that changes captured state only in the step it stops at: (result), state updated; None: it is not one"""
    def once():
        c2 = Cx(dict(st0), and_(cx.g, yg))
        r = body(c2, yv)
        return c2, r
    if and_(cx.g, yg) is FALSE:
        return None
    nb, ev.binders = ev.binders, list(ev.binders) + list(bnds)
    try:
        ev.dry += 1
        try:
            c2, r = once()
        finally:
            ev.dry -= 1
        if c2.g is not and_(cx.g, yg) or r is BOT:
            return None
        s = and_(yg, stop(r))
        go = and_(yg, not_(s))
        ch = [k for k in c2.st if k in st0 and c2.st[k] is not st0[k]]
        if not ch or any(restrict(c2.st[k], and_(cx.g, go)) is not restrict(st0[k], and_(cx.g, go)) for k in ch if go is not FALSE):
            return None
        c2, r = once()
    finally:
        ev.binders = nb
    found = ev.exists(bnds, s)
    st1 = dict(st0)
    for k in ch:
        v = ev.first(evalr.mark(bnds, order), s, restrict(c2.st[k], s))
        st1[k] = ite(found, v, st0[k])
    cx.st = st1
    return r


def run_over(ev, cx, fr, ys, body, what="iter", stop=None):
    """run body(cx', value) once per yield, abstractly; captured state is summarised.
    returns [(binders, guard, result)]"""
    out = []
    order, ev.order = ev.order, ()
    for y in ys:
        bnds, yg, yv = ev.rename(*y.args) if y.args[0] else y.args
        if yg is FALSE:
            continue
        st0 = cx.st
        if not bnds:
            c2 = Cx(dict(st0), and_(cx.g, yg))
            if c2.g is FALSE:
                continue
            r = body(c2, yv)
            outs = [(c2.g, c2.st), (and_(cx.g, not_(yg)), st0)]
            rg = restrict(c2.g, cx.g)
            cx.st = ev.merge(outs) or dict(st0)
            out.append(((), yg, r if c2.g is not FALSE else BOT))
            continue
        if stop:
            ev.order = order
            r = stops(ev, cx, st0, bnds, yg, yv, body, stop, order)
            ev.order = ()
            if r is not None:
                out.append((bnds, yg, r))
                continue
        nb = list(ev.binders)
        ev.nopen += 1
        lid = mk("loop", ev.nopen)
        nev = len(ev.events)
        ev.binders = nb + list(bnds)
        mod = {}
        try:
            ev.dry += 1
            try:
                for _ in range(8):
                    before = ev.havoc(st0, mod, lid)
                    c2 = Cx(dict(before), and_(cx.g, yg))
                    if c2.g is FALSE:
                        break
                    body(c2, yv)
                    st0, new = ev.grow(lid, st0, before, c2.st, mod)
                    if not new:
                        break
            finally:
                ev.dry -= 1
            c2 = Cx(ev.havoc(st0, mod, lid), and_(cx.g, yg))
            if c2.g is FALSE:
                continue
            r = body(c2, yv)
        finally:
            ev.binders = nb
            ev.nopen -= 1
        st1 = dict(st0)
        is_lv = lambda x: x.op == "lv" and x.args[0] is lid
        nxt = {k: restrict(ev.lget(c2.st, k), yg) if c2.g is not FALSE else lv for k, lv in mod.items()}
        summ = ev.solve(nxt, mod, st0, evalr.mark(bnds, order), yg, is_lv, cx.g)
        lost = {k: lv for k, lv in mod.items() if k not in summ}
        for k, lv in lost.items():
            from evalr import normdesc
            summ[k] = mk("seqfx", bnds, yg, normdesc(lv, [(mod[j], restrict(ev.lget(st0, j), cx.g), nxt[j]) for j in lost], ()))
        for k, v in summ.items():
            ev.lput(st1, k, v)
        if mod:
            back = {lv.id: k for k, lv in mod.items()}

            def sofar(x):
                if is_lv(x):
                    k = back[x.id]
                    return ev.lget(st0, k) if summ[k] is ev.lget(st0, k) else mk("sofar", summ[k])
                return None
            r = subst(r, sofar)
            if not ev.dry:
                for e in ev.events[nev:]:
                    e.guard, e.args, e.res = subst(e.guard, sofar), [subst(x, sofar) for x in e.args], subst(e.res, sofar)
                    e.ctx = mapctx(lambda v: subst(v, sofar), e.ctx)
        cx.st = st1
        out.append((bnds, yg, r))
    return out


def call1(ev, fr, f, t=None):
    return lambda c2, v: ev.call_value(c2, fr, f, [v])


ID = ["std::clone::Clone::clone", "std::borrow::ToOwned::to_owned", "std::ops::Deref::deref",
      "std::convert::AsRef::as_ref", "std::borrow::Borrow::borrow",
      "std::borrow::BorrowMut::borrow_mut", "std::convert::AsMut::as_mut", "std::boxed::Box::new", "std::rc::Rc::new", "std::sync::Arc::new",
      "std::boxed::Box::pin", "std::pin::Pin::new", "std::pin::Pin::new_unchecked", "std::pin::Pin::as_mut",
      "std::iter::Iterator::copied", "std::iter::Iterator::cloned", "std::iter::Iterator::peekable",
      "std::iter::Iterator::by_ref", "std::iter::Iterator::fuse", "std::iter::IntoIterator::into_iter",
      "indexmap::map::IndexMap::iter", "indexmap::set::IndexSet::iter", "indexmap::map::IndexMap::into_iter", "std::slice::iter", "core::slice::iter", "std::vec::Vec::as_slice", "std::vec::Vec::iter", "std::string::String::as_str",
      "std::collections::HashMap::iter", "std::collections::HashSet::iter", "std::collections::BTreeMap::iter",
      "std::collections::BTreeSet::iter", "std::collections::VecDeque::iter", "std::option::Option::iter",
      "std::collections::HashMap::into_iter", "std::slice::to_vec", "std::vec::Vec::into_boxed_slice",
      "std::future::IntoFuture::into_future", "std::hint::must_use", "std::convert::identity", "std::hint::black_box",
      "std::mem::ManuallyDrop::new", "std::iter::Iterator::into_iter", "std::cell::RefCell::new", "std::cell::Cell::new",
      "std::sync::Mutex::new", "std::sync::RwLock::new", "std::rc::Rc::as_ref", "std::boxed::Box::leak", "std::cell::OnceCell::new",
      "std::path::PathBuf::as_path", "std::string::String::as_bytes", "core::str::as_bytes", "std::str::as_bytes",
      "std::string::String::into_boxed_str", "std::boxed::box_new", "std::path::Path::to_path_buf", "std::path::Path::new",
      "std::vec::Vec::into_iter", "std::string::String::into_bytes", "std::iter::Iterator::rev_id",
      "std::sync::Arc::clone", "std::rc::Rc::clone", "std::pin::Pin::get_mut", "std::iter::FromIterator::from_iter",
      "itertools::Itertools::collect_vec", "std::ops::Try::from_output_id", "std::borrow::Cow::into_owned", "std::ptr::from_ref",
      "itertools::Itertools::into_iter", "std::iter::once_id", "std::string::String::as_ref", "std::str::as_str",
      "std::vec::Vec::as_mut_slice", "smallvec::SmallVec::from_vec", "smallvec::SmallVec::into_vec", "smallvec::SmallVec::as_slice", "std::io::BufReader::new", "std::io::BufWriter::new"]


@model("std::ops::DerefMut::deref_mut")
def m_derefmut(ev, cx, fr, c, a, t):
    # a guard (RefMut, MutexGuard..) stands for the reference it guards
    v = D(ev, cx, a[0])
    if v is not BOT and all(isinstance(l, T) and l.op == "ref" for _, l in leaves(v)):
        return v
    return a[0]


@model(*ID)
def m_id(ev, cx, fr, c, a, t):
    return a[0]


@model("std::clone::Clone::clone", "std::borrow::ToOwned::to_owned", "std::convert::AsRef::as_ref", "std::borrow::Borrow::borrow", "std::ops::Deref::deref", "lazy_static::__Deref::deref", "rustc_middle::ty::list::RawList::iter", "rustc_middle::ty::list::RawList::as_slice")
def m_clone(ev, cx, fr, c, a, t):
    # a clone / shared view of what a mutable reference points to is the current value
    if c["path"].startswith("std::ops::Deref") or True:
        return D(ev, cx, a[0])


@model("std::string::ToString::to_string", "std::convert::Into::into", "std::convert::From::from", "std::string::String::from",
       "std::convert::TryInto::try_into_id")
def m_into(ev, cx, fr, c, a, t):
    s = tys.peel(ev.tstr(fr, t["aty"][0])) if t and t.get("aty") else None
    d = tys.peel(ev.tstr(fr, t["dty"])) if t and t.get("dty") else None
    strs = ("str", "std::string::String")
    if s is not None and d is not None:
        if s[0] in strs and d[0] in strs + ("std::borrow::Cow", "std::path::PathBuf", "std::ffi::OsString"):
            return D(ev, cx, a[0])
        if s == d:
            return D(ev, cx, a[0])
        if d[0] == "std::option::Option" and len(d) == 2 and s == tys.peel(d[1]):
            return some(a[0])
    if c["path"].endswith("ToString::to_string"):
        one = ev.mkcall("core::fmt::rt::Argument::new_display", [ev.full(cx.st, D(ev, cx, a[0]))])
        return ev.mkcall("std::fmt::format", [ev.mkcall("std::fmt::Arguments::new_v1", [agg(("array", ""), [("0", mk("str", ""))]), agg(("array", ""), [("0", one)])])])
    return NotImplemented


@model("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call")
def m_callfn(ev, cx, fr, c, a, t):
    f, tup = a[0], a[1]
    args = [v for _, v in tup.fields] if isinstance(tup, A) else [tup]
    return ev.call_value(cx, fr, f, args, t)


# ------------------------------------------------------------------ Option / Result
def _is(adt, *names):
    def m(ev, cx, fr, c, a, t):
        return ev.is_variant(D(ev, cx, a[0]), adt, *names)
    return m


MODELS["std::option::Option::is_some"] = _is(OPTION, "Some")
MODELS["std::option::Option::is_none"] = _is(OPTION, "None")
MODELS["std::result::Result::is_ok"] = _is(RESULT, "Ok")
MODELS["std::result::Result::is_err"] = _is(RESULT, "Err")


def opt(ev, v):
    return ev.is_variant(v, OPTION, "Some"), ev.field(v, "0", "Some")


def res(ev, v):
    return ev.is_variant(v, RESULT, "Ok"), ev.field(v, "0", "Ok"), ev.field(v, "0", "Err")


@model("std::option::Option::is_some_and")
def m_issomeand(ev, cx, fr, c, a, t):
    s, x = opt(ev, D(ev, cx, a[0]))
    return branch(ev, cx, s, lambda k: as_bool(ev.call_value(k, fr, a[1], [restrict(x, s)])), lambda k: FALSE)


@model("std::option::Option::is_none_or")
def m_isnoneor(ev, cx, fr, c, a, t):
    s, x = opt(ev, D(ev, cx, a[0]))
    return branch(ev, cx, s, lambda k: as_bool(ev.call_value(k, fr, a[1], [restrict(x, s)])), lambda k: TRUE)


@model("std::result::Result::is_ok_and")
def m_isokand(ev, cx, fr, c, a, t):
    s, x, e = res(ev, D(ev, cx, a[0]))
    return branch(ev, cx, s, lambda k: as_bool(ev.call_value(k, fr, a[1], [restrict(x, s)])), lambda k: FALSE)


@model("std::option::Option::map")
def m_optmap(ev, cx, fr, c, a, t):
    s, x = opt(ev, a[0])
    return branch(ev, cx, s, lambda k: some(ev.call_value(k, fr, a[1], [restrict(x, s)])), lambda k: NONE)


@model("core::str::split", "core::str::split_whitespace", "core::str::split_ascii_whitespace")
def m_split(ev, cx, fr, c, a, t):
    vs = [ev.full(cx.st, D(ev, cx, x)) for x in a]
    if all(isinstance(x, T) and x.op in ("str", "char") for x in vs) and (len(vs) == 1 or vs[1].args[0]):
        parts = vs[0].args[0].split(*[x.args[0] for x in vs[1:]])
        return mkseq([yld((), TRUE, mk("str", p)) for p in parts])
    return NotImplemented


@model("std::option::Option::inspect")
def m_optinspect(ev, cx, fr, c, a, t):
    s, x = opt(ev, a[0])
    branch(ev, cx, s, lambda k: ev.call_value(k, fr, a[1], [restrict(x, s)]), lambda k: UNIT)
    return a[0]


@model("std::option::Option::map_or")
def m_optmapor(ev, cx, fr, c, a, t):
    s, x = opt(ev, a[0])
    return branch(ev, cx, s, lambda k: ev.call_value(k, fr, a[2], [restrict(x, s)]), lambda k: a[1])


@model("std::option::Option::map_or_else")
def m_optmaporelse(ev, cx, fr, c, a, t):
    s, x = opt(ev, a[0])
    return branch(ev, cx, s, lambda k: ev.call_value(k, fr, a[2], [restrict(x, s)]), lambda k: ev.call_value(k, fr, a[1], []))


@model("std::option::Option::and_then")
def m_optandthen(ev, cx, fr, c, a, t):
    s, x = opt(ev, a[0])
    return branch(ev, cx, s, lambda k: ev.call_value(k, fr, a[1], [restrict(x, s)]), lambda k: NONE)


@model("std::option::Option::and")
def m_optand(ev, cx, fr, c, a, t):
    return ite(opt(ev, a[0])[0], a[1], NONE)


@model("std::option::Option::or")
def m_optor(ev, cx, fr, c, a, t):
    return ite(opt(ev, a[0])[0], a[0], a[1])


@model("std::option::Option::xor")
def m_optxor(ev, cx, fr, c, a, t):
    s, r = opt(ev, a[0])[0], opt(ev, a[1])[0]
    return ite(and_(s, not_(r)), a[0], ite(and_(r, not_(s)), a[1], NONE))


@model("std::option::Option::or_else")
def m_optorelse(ev, cx, fr, c, a, t):
    s, x = opt(ev, a[0])
    return branch(ev, cx, s, lambda k: restrict(a[0], s), lambda k: ev.call_value(k, fr, a[1], []))


@model("std::option::Option::filter")
def m_optfilter(ev, cx, fr, c, a, t):
    s, x = opt(ev, a[0])
    x = restrict(x, s)
    return branch(ev, cx, s, lambda k: ite(as_bool(ev.call_value(k, fr, a[1], [x])), some(x), NONE), lambda k: NONE)


@model("std::option::Option::zip")
def m_optzip(ev, cx, fr, c, a, t):
    s, x = opt(ev, a[0])
    r, y = opt(ev, a[1])
    return ite(and_(s, r), some(agg(("tuple", ""), [("0", x), ("1", y)])), NONE)


@model("std::option::Option::ok_or")
def m_okor(ev, cx, fr, c, a, t):
    s, x = opt(ev, a[0])
    return ite(s, ok(x), err(a[1]))


@model("std::option::Option::ok_or_else")
def m_okorelse(ev, cx, fr, c, a, t):
    s, x = opt(ev, a[0])
    return branch(ev, cx, s, lambda k: ok(restrict(x, s)), lambda k: err(ev.call_value(k, fr, a[1], [])))


@model("anyhow::Context::context", "anyhow::Context::with_context")
def m_context(ev, cx, fr, c, a, t):
    ty = tys.parse(t["aty"][0])[0] if t.get("aty") else ""
    if ty.endswith("option::Option"):
        s, x = opt(ev, a[0])
        return ite(s, ok(x), err(mk("ctxerr", UNIT)))
    s, x, e = res(ev, a[0])
    return ite(s, ok(x), err(e))


JSON = "serde_json::Value"


def _json(variant, has):
    def m(ev, cx, fr, c, a, t):
        v = D(ev, cx, a[0])
        is_ = ev.is_variant(v, JSON, variant)
        return is_ if has else ite(is_, some(ev.field(v, "0", variant)), NONE)
    return m


for _n, _v in (("object", "Object"), ("array", "Array"), ("str", "String"), ("string", "String"), ("bool", "Bool"), ("boolean", "Bool")):
    MODELS["serde_json::Value::as_" + _n] = _json(_v, False)
    MODELS["serde_json::Value::is_" + _n] = _json(_v, True)


@model("serde_json::Value::get")
def m_jsonget(ev, cx, fr, c, a, t):
    v, k = DD(ev, cx, a[0]), ev.full(cx.st, DD(ev, cx, a[1]))
    if not (isinstance(k, T) and k.op == "str"):
        return NotImplemented
    is_ = ev.is_variant(v, JSON, "Object")
    return ite(is_, ev.mkcall("serde_json::Map::get", [ev.full(cx.st, ev.field(v, "0", "Object")), k]), NONE)


@model("serde_json::Map::contains_key")
def m_jsonhas(ev, cx, fr, c, a, t):
    return ev.is_variant(ev.mkcall("serde_json::Map::get", [ev.full(cx.st, D(ev, cx, x)) for x in a]), OPTION, "Some")


@model("snafu::ResultExt::context")
def m_snafu(ev, cx, fr, c, a, t):
    """Err(e) becomes the error that the context selector builds around e"""
    if not t or not t.get("aty") or tys.parse(t["aty"][0])[0] != RESULT:
        return NotImplemented
    fn, b = ev.find_impl("snafu::IntoError", "into_error", tys.parse(t["aty"][1]))
    s, x, e = res(ev, a[0])

    def bad(k):
        if fn is None:
            return err(ev.mkcall("snafu::IntoError::into_error", [a[1], restrict(e, not_(s))]))
        return err(ev.inline_call(k, fr, fn, [a[1], restrict(e, not_(s))], b, t, "snafu::IntoError::into_error"))
    return branch(ev, cx, s, lambda k: ok(restrict(x, s)), bad)


@model("core::future::get_context", "std::future::get_context")
def m_taskctx(ev, cx, fr, c, a, t):
    return mk("taskctx")


@model("std::path::PathBuf::push")
def m_pathpush(ev, cx, fr, c, a, t):
    for g, r in leaves(a[0]):
        if not (isinstance(r, T) and r.op == "ref"):
            return NotImplemented
    for g, r in leaves(a[0]):
        old = ev.full(cx.st, ev.read_loc(cx.st, r.args[0], r.args[1]))
        ev.write(cx, r.args[0], r.args[1], ev.mkcall("std::path::Path::join", [old, ev.full(cx.st, D(ev, cx, a[1]))]), g)
    return UNIT


@model("std::option::Option::unwrap", "std::option::Option::expect")
def m_optunwrap(ev, cx, fr, c, a, t):
    s, x = opt(ev, a[0])
    ev.panic(cx, "unwrap:None", not_(s), fr, t["ln"] if t else 0, [a[0]])
    return restrict(x, s) if s is not FALSE else BOT


@model("std::option::Option::unwrap_unchecked")
def m_optunwrapu(ev, cx, fr, c, a, t):
    return ev.field(a[0], "0", "Some")


@model("std::option::Option::unwrap_or")
def m_optunwrapor(ev, cx, fr, c, a, t):
    s, x = opt(ev, a[0])
    return ite(s, x, a[1])


@model("std::option::Option::unwrap_or_else")
def m_optunwraporelse(ev, cx, fr, c, a, t):
    s, x = opt(ev, a[0])
    return branch(ev, cx, s, lambda k: restrict(x, s), lambda k: ev.call_value(k, fr, a[1], []))


@model("std::option::Option::unwrap_or_default")
def m_optunwrapordef(ev, cx, fr, c, a, t):
    s, x = opt(ev, a[0])
    return ite(s, x, default_of(ev, t["dty"]))


@model("std::option::Option::as_ref", "std::option::Option::as_deref", "std::option::Option::cloned",
       "std::option::Option::copied", "std::result::Result::as_ref", "std::result::Result::as_deref", "std::result::Result::copied",
       "std::result::Result::cloned")
def m_optasref(ev, cx, fr, c, a, t):
    return D(ev, cx, a[0])


@model("std::option::Option::as_mut", "std::option::Option::as_deref_mut")
def m_optasmut(ev, cx, fr, c, a, t):
    def leaf(r):
        if isinstance(r, T) and r.op == "ref":
            v = ev.read_loc(cx.st, r.args[0], r.args[1])
            s = ev.is_variant(v, OPTION, "Some")
            return ite(s, some(mk("ref", r.args[0], r.args[1] + (("f", "Some", "0"),))), NONE)
        return r
    return mapv(leaf, a[0])


@model("std::option::Option::take", "std::mem::take")
def m_take(ev, cx, fr, c, a, t):
    v = D(ev, cx, a[0])
    ty = t["dty"] if t else ""
    for g, r in leaves(a[0]):
        if isinstance(r, T) and r.op == "ref":
            ev.write(cx, r.args[0], r.args[1], default_of(ev, ty), g)
    return v


@model("std::option::Option::replace")
def m_optreplace(ev, cx, fr, c, a, t):
    v = D(ev, cx, a[0])
    for g, r in leaves(a[0]):
        if isinstance(r, T) and r.op == "ref":
            ev.write(cx, r.args[0], r.args[1], some(a[1]), g)
    return v


@model("std::option::Option::insert", "std::option::Option::get_or_insert")
def m_optinsert(ev, cx, fr, c, a, t):
    out = BOT
    for g, r in leaves(a[0]):
        if isinstance(r, T) and r.op == "ref":
            new = some(a[1])
            if "get_or" in c["path"]:
                v = ev.read_loc(cx.st, r.args[0], r.args[1])
                new = ite(opt(ev, v)[0], v, new)
            ev.write(cx, r.args[0], r.args[1], new, g)
            x = mk("ref", r.args[0], r.args[1] + (("f", "Some", "0"),))
            out = x if out is BOT else ite(g, x, out)
    return out if out is not BOT else NotImplemented


@model("std::mem::replace")
def m_replace(ev, cx, fr, c, a, t):
    v = D(ev, cx, a[0])
    for g, r in leaves(a[0]):
        if isinstance(r, T) and r.op == "ref":
            ev.write(cx, r.args[0], r.args[1], a[1], g)
    return v


@model("std::mem::swap")
def m_swap(ev, cx, fr, c, a, t):
    x, y = D(ev, cx, a[0]), D(ev, cx, a[1])
    for g, r in leaves(a[0]):
        if isinstance(r, T) and r.op == "ref":
            ev.write(cx, r.args[0], r.args[1], y, g)
    for g, r in leaves(a[1]):
        if isinstance(r, T) and r.op == "ref":
            ev.write(cx, r.args[0], r.args[1], x, g)
    return UNIT


@model("std::mem::drop")
def m_drop(ev, cx, fr, c, a, t):
    ev.event(cx, "drop", t["aty"][0] if t and t.get("aty") else "?", a, UNIT, fr, t["ln"] if t else 0)
    return UNIT


@model("std::mem::forget")
def m_forget(ev, cx, fr, c, a, t):
    ev.event(cx, "call", "std::mem::forget", a, UNIT, fr, t["ln"] if t else 0)
    return UNIT


@model("std::option::Option::transpose")
def m_opttranspose(ev, cx, fr, c, a, t):
    s, x = opt(ev, a[0])
    k, v, e = res(ev, x)
    return ite(s, ite(k, ok(some(v)), err(e)), ok(NONE))


@model("std::option::Option::flatten")
def m_optflatten(ev, cx, fr, c, a, t):
    s, x = opt(ev, a[0])
    return ite(s, x, NONE)


@model("std::result::Result::ok")
def m_resok(ev, cx, fr, c, a, t):
    s, x, e = res(ev, a[0])
    return ite(s, some(x), NONE)


@model("std::result::Result::err")
def m_reserr(ev, cx, fr, c, a, t):
    s, x, e = res(ev, a[0])
    return ite(s, NONE, some(e))


@model("std::result::Result::map")
def m_resmap(ev, cx, fr, c, a, t):
    s, x, e = res(ev, a[0])
    return branch(ev, cx, s, lambda k: ok(ev.call_value(k, fr, a[1], [restrict(x, s)])), lambda k: err(restrict(e, not_(s))))


@model("std::result::Result::map_err")
def m_resmaperr(ev, cx, fr, c, a, t):
    s, x, e = res(ev, a[0])
    return branch(ev, cx, s, lambda k: ok(restrict(x, s)), lambda k: err(ev.call_value(k, fr, a[1], [restrict(e, not_(s))])))


@model("std::result::Result::and_then")
def m_resandthen(ev, cx, fr, c, a, t):
    s, x, e = res(ev, a[0])
    return branch(ev, cx, s, lambda k: ev.call_value(k, fr, a[1], [restrict(x, s)]), lambda k: err(restrict(e, not_(s))))


@model("std::result::Result::or_else")
def m_resorelse(ev, cx, fr, c, a, t):
    s, x, e = res(ev, a[0])
    return branch(ev, cx, s, lambda k: ok(restrict(x, s)), lambda k: ev.call_value(k, fr, a[1], [restrict(e, not_(s))]))


@model("std::result::Result::map_or")
def m_resmapor(ev, cx, fr, c, a, t):
    s, x, e = res(ev, a[0])
    return branch(ev, cx, s, lambda k: ev.call_value(k, fr, a[2], [restrict(x, s)]), lambda k: a[1])


@model("std::result::Result::map_or_else")
def m_resmaporelse(ev, cx, fr, c, a, t):
    s, x, e = res(ev, a[0])
    return branch(ev, cx, s, lambda k: ev.call_value(k, fr, a[2], [restrict(x, s)]), lambda k: ev.call_value(k, fr, a[1], [restrict(e, not_(s))]))


@model("std::result::Result::unwrap_or")
def m_resunwrapor(ev, cx, fr, c, a, t):
    s, x, e = res(ev, a[0])
    return ite(s, x, a[1])


@model("std::result::Result::unwrap_or_default")
def m_resunwrapordef(ev, cx, fr, c, a, t):
    s, x, e = res(ev, a[0])
    return ite(s, x, default_of(ev, t["dty"]))


@model("std::result::Result::unwrap_or_else")
def m_resunwraporelse(ev, cx, fr, c, a, t):
    s, x, e = res(ev, a[0])
    return branch(ev, cx, s, lambda k: restrict(x, s), lambda k: ev.call_value(k, fr, a[1], [restrict(e, not_(s))]))


@model("std::result::Result::unwrap", "std::result::Result::expect")
def m_resunwrap(ev, cx, fr, c, a, t):
    s, x, e = res(ev, a[0])
    ev.panic(cx, "unwrap:Err", not_(s), fr, t["ln"] if t else 0, [a[0]])
    return restrict(x, s) if s is not FALSE else BOT


@model("std::result::Result::unwrap_err", "std::result::Result::expect_err")
def m_resunwraperr(ev, cx, fr, c, a, t):
    s, x, e = res(ev, a[0])
    ev.panic(cx, "unwrap_err:Ok", s, fr, t["ln"] if t else 0, [a[0]])
    return restrict(e, not_(s)) if s is not TRUE else BOT


@model("std::ops::Try::branch")
def m_branch(ev, cx, fr, c, a, t):
    ty = tys.parse(c["targs"][0]["ty"])[0] if c["targs"] else RESULT
    if fr is not None and c["targs"]:
        ty = ev.tstr(fr, c["targs"][0]["ty"])[0]
    if ty.endswith("option::Option"):
        s, x = opt(ev, a[0])
        return ite(s, agg((CFLOW, "Continue"), [("0", x)]), agg((CFLOW, "Break"), [("0", NONE)]))
    if ty.endswith("result::Result"):
        s, x, e = res(ev, a[0])
        return ite(s, agg((CFLOW, "Continue"), [("0", x)]), agg((CFLOW, "Break"), [("0", err(e))]))
    return a[0]


@model("std::ops::FromResidual::from_residual")
def m_fromres(ev, cx, fr, c, a, t):
    dty = tys.parse(t["dty"])[0] if t else ""
    if dty.endswith("option::Option"):
        return NONE
    if dty.endswith("result::Result"):
        def leaf(l):
            if isinstance(l, A) and l.ctor[0] == OPTION:
                return err(mk("fromnone"))
            return err(ev.field(l, "0", "Err"))
        return mapv(leaf, a[0])
    return a[0]


@model("std::ops::Try::from_output")
def m_fromoutput(ev, cx, fr, c, a, t):
    dty = tys.parse(t["dty"])[0]
    return some(a[0]) if dty.endswith("Option") else ok(a[0]) if dty.endswith("Result") else agg((CFLOW, "Continue"), [("0", a[0])])


# ------------------------------------------------------------------ bool and comparisons
@model("std::bool::then", "core::bool::then", "std::primitive::bool::then")
def m_then(ev, cx, fr, c, a, t):
    g = as_bool(a[0])
    return branch(ev, cx, g, lambda k: some(ev.call_value(k, fr, a[1], [])), lambda k: NONE)


@model("core::bool::then_some", "std::bool::then_some")
def m_thensome(ev, cx, fr, c, a, t):
    return ite(as_bool(a[0]), some(a[1]), NONE)


@model("std::intrinsics::discriminant_value", "core::intrinsics::discriminant_value", "std::mem::discriminant")
def m_discr(ev, cx, fr, c, a, t):
    ty = tys.peel(ev.tstr(fr, c["targs"][0]["ty"]))[0]
    if ev.variants(ty) and ty in ev.F.adts:
        return ev.discriminant(DD(ev, cx, a[0]), ty)
    return NotImplemented


@model("anyhow::__private::must_use", "std::hint::must_use", "core::hint::must_use")
def m_mustuse(ev, cx, fr, c, a, t):
    return a[0]


@model("anyhow::error::msg", "anyhow::Error::msg")
def m_anyhowmsg(ev, cx, fr, c, a, t):
    return ev.mkcall("anyhow::Error::msg", [ev.full(cx.st, D(ev, cx, a[0]))])


@model("std::process::Command::args", "tokio::process::Command::args")
def m_cmdargs(ev, cx, fr, c, a, t):
    """args([x, y]) is arg(x).arg(y)"""
    xs = D(ev, cx, a[1])
    ls = leaves(a[0])
    if not (isinstance(xs, A) and xs.ctor[0] in ("array", "tuple")) or len(ls) != 1 or not (isinstance(ls[0][1], T) and ls[0][1].op == "ref"):
        return NotImplemented
    r = ls[0][1]
    v = ev.full(cx.st, ev.read_loc(cx.st, r.args[0], r.args[1]))
    for _, x in xs.fields:
        v = ev.mkcall("mut:" + c["path"][:-1], [v, ev.full(cx.st, D(ev, cx, x))])
    ev.write(cx, r.args[0], r.args[1], v)
    return a[0]


@model("anyhow::__private::format_err")
def m_format_err(ev, cx, fr, c, a, t):
    return ev.mkcall("anyhow::Error::msg", [ev.mkcall("std::fmt::format", [ev.full(cx.st, D(ev, cx, a[0]))])])


@model("anyhow::__private::not")
def m_anyhow_not(ev, cx, fr, c, a, t):
    return not_(as_bool(DD(ev, cx, a[0])))


@model("std::cmp::PartialEq::eq")
def m_eq(ev, cx, fr, c, a, t):
    return ev.eq(DD(ev, cx, a[0]), DD(ev, cx, a[1]))


@model("std::cmp::PartialEq::ne")
def m_ne(ev, cx, fr, c, a, t):
    return not_(ev.eq(DD(ev, cx, a[0]), DD(ev, cx, a[1])))


@model("std::cmp::PartialOrd::lt")
def m_lt(ev, cx, fr, c, a, t):
    return ev.lt(D(ev, cx, a[0]), D(ev, cx, a[1]))


@model("std::cmp::PartialOrd::gt")
def m_gt(ev, cx, fr, c, a, t):
    return ev.lt(D(ev, cx, a[1]), D(ev, cx, a[0]))


@model("std::cmp::PartialOrd::le")
def m_le(ev, cx, fr, c, a, t):
    return not_(ev.lt(D(ev, cx, a[1]), D(ev, cx, a[0])))


@model("std::cmp::PartialOrd::ge")
def m_ge(ev, cx, fr, c, a, t):
    return not_(ev.lt(D(ev, cx, a[0]), D(ev, cx, a[1])))


@model("std::cmp::Ord::max", "std::cmp::max")
def m_max(ev, cx, fr, c, a, t):
    return ite(ev.lt(a[0], a[1]), a[1], a[0])


@model("std::cmp::Ord::min", "std::cmp::min")
def m_min(ev, cx, fr, c, a, t):
    return ite(ev.lt(a[1], a[0]), a[1], a[0])


ORD = "std::cmp::Ordering"


def ordering(n):
    return agg((ORD, n), [])


@model("std::cmp::Ord::cmp")
def m_cmp(ev, cx, fr, c, a, t):
    x, y = D(ev, cx, a[0]), D(ev, cx, a[1])
    return ite(ev.lt(x, y), ordering("Less"), ite(ev.eq(x, y), ordering("Equal"), ordering("Greater")))


@model("std::cmp::PartialOrd::partial_cmp")
def m_pcmp(ev, cx, fr, c, a, t):
    return some(m_cmp(ev, cx, fr, c, a, t))


@model("std::cmp::Ordering::reverse")
def m_ordrev(ev, cx, fr, c, a, t):
    def leaf(l):
        if isinstance(l, A):
            return ordering({"Less": "Greater", "Greater": "Less", "Equal": "Equal"}[l.ctor[1]])
        return mk("call", "std::cmp::Ordering::reverse", l)
    return mapv(leaf, a[0])


@model("std::cmp::Ordering::then")
def m_ordthen(ev, cx, fr, c, a, t):
    return ite(ev.is_variant(a[0], ORD, "Equal"), a[1], a[0])


@model("std::cmp::Ordering::then_with")
def m_ordthenw(ev, cx, fr, c, a, t):
    e = ev.is_variant(a[0], ORD, "Equal")
    return branch(ev, cx, e, lambda k: ev.call_value(k, fr, a[1], []), lambda k: a[0])


@model("std::cmp::Ordering::is_lt")
def m_islt(ev, cx, fr, c, a, t):
    return ev.is_variant(a[0], ORD, "Less")


@model("std::ops::Not::not")
def m_not(ev, cx, fr, c, a, t):
    if t["dty"] == "bool":
        return not_(as_bool(D(ev, cx, a[0])))
    return NotImplemented


@model("std::ops::BitAnd::bitand")
def m_bitand(ev, cx, fr, c, a, t):
    if t["dty"] == "bool":
        return and_(as_bool(D(ev, cx, a[0])), as_bool(D(ev, cx, a[1])))
    return NotImplemented


@model("std::ops::BitOr::bitor")
def m_bitor(ev, cx, fr, c, a, t):
    if t["dty"] == "bool":
        return or_(as_bool(D(ev, cx, a[0])), as_bool(D(ev, cx, a[1])))
    return NotImplemented


@model("std::ops::BitXor::bitxor")
def m_bitxor(ev, cx, fr, c, a, t):
    if t["dty"] == "bool":
        return not_(iff(as_bool(D(ev, cx, a[0])), as_bool(D(ev, cx, a[1]))))
    return NotImplemented


@model("std::ops::Add::add")
def m_add(ev, cx, fr, c, a, t):
    if tys.peel(tys.parse(t["dty"]))[0] in ("usize", "u32", "i32", "u64", "i64", "isize"):
        return ev.binop("Add", D(ev, cx, a[0]), D(ev, cx, a[1]))
    return NotImplemented


@model("std::ops::Sub::sub")
def m_sub(ev, cx, fr, c, a, t):
    if tys.peel(tys.parse(t["dty"]))[0] in ("usize", "u32", "i32", "u64", "i64", "isize"):
        return ev.binop("Sub", D(ev, cx, a[0]), D(ev, cx, a[1]))
    return NotImplemented


# ------------------------------------------------------------------ collections
def default_of(ev, ty):
    p = tys.parse(ty)
    h = (p[0] or "").split("<")[0].split("::")[-1]
    if h in ("Vec", "HashMap", "HashSet", "BTreeMap", "BTreeSet", "VecDeque", "SmallVec", "IndexMap", "FxHashMap"):
        return mkseq([])
    if h in ("Iter", "IterMut", "IntoIter", "Keys", "Values", "Empty") and p[0].split("::")[0] in ("std", "core", "alloc"):
        return mkseq([])
    if h == "String":
        return strv("")
    if p[0] == "bool":
        return FALSE
    if p[0] in ("usize", "u32", "i32", "u64", "i64", "u8", "isize"):
        return intv(0)
    if h == "Option":
        return NONE
    if p == ("()",):
        return UNIT
    if h == "DefaultHasher":
        return mk("default", "std::hash::DefaultHasher")
    return mk("default", tys.show(p))


@model("std::default::Default::default")
def m_default(ev, cx, fr, c, a, t):
    return default_of(ev, tys.show(ev.tstr(fr, t["dty"])))


@model("std::vec::Vec::new", "std::vec::Vec::with_capacity", "std::collections::HashMap::new", "std::collections::HashSet::new",
       "std::collections::HashMap::with_capacity", "std::collections::HashSet::with_capacity",
       "std::collections::BTreeMap::new", "std::collections::BTreeSet::new", "std::collections::VecDeque::new", "std::iter::empty",
       "std::collections::VecDeque::with_capacity", "smallvec::SmallVec::new", "smallvec::SmallVec::with_capacity")
def m_newcoll(ev, cx, fr, c, a, t):
    return mkseq([])


@model("std::string::String::new", "std::string::String::with_capacity")
def m_newstr(ev, cx, fr, c, a, t):
    return strv("")


def on_ref(ev, cx, r, f):
    """replace the collection behind &mut r by f(old)"""
    done = False
    for g, l in leaves(r):
        if isinstance(l, T) and l.op == "ref":
            old = ev.read_loc(cx.st, l.args[0], l.args[1])
            ev.write(cx, l.args[0], l.args[1], f(restrict_(old, and_(cx.g, g))), g)
            done = True
    return done


def restrict_(v, g):
    r = restrict(v, g)
    return v if r is BOT else r


def add_yields(ev, old, ys):
    def leaf(l):
        if isinstance(l, A):
            l = as_seq(ev, l)
        return mkcat(l, tuple(ys))
    if old is BOT:
        return mkseq(ys)
    if isinstance(old, N):
        return mapv(leaf, old)
    return leaf(old)


@model("std::vec::Vec::push", "std::collections::VecDeque::push_back", "std::collections::LinkedList::push_back", "smallvec::SmallVec::push", "rustc_data_structures::thin_vec::ThinVec::push")
def m_push(ev, cx, fr, c, a, t):
    v = ev.full(cx.st, restrict_(a[1], cx.g))
    if not on_ref(ev, cx, a[0], lambda o: add_yields(ev, o, [yld((), TRUE, v)])):
        ev.event(cx, "call", evalr.norm_path(c["path"]), [D(ev, cx, a[0]), v], UNIT, fr, t["ln"] if t else 0)
    return UNIT


@model("rustc_index::IndexVec::push", "rustc_index::vec::IndexVec::push")
def m_ivpush(ev, cx, fr, c, a, t):
    old = ev.full(cx.st, D(ev, cx, a[0]))
    v = ev.full(cx.st, restrict_(a[1], cx.g))
    if not on_ref(ev, cx, a[0], lambda o: add_yields(ev, o, [yld((), TRUE, v)])):
        return NotImplemented
    return mapv(lambda x: mk("call", "IndexVec::next_index", x), old)


@model("rustc_index::IndexSlice::next_index", "rustc_index::slice::IndexSlice::next_index", "rustc_index::IndexVec::next_index", "rustc_index::vec::IndexVec::next_index")
def m_ivnext(ev, cx, fr, c, a, t):
    return mapv(lambda x: mk("call", "IndexVec::next_index", x), ev.full(cx.st, D(ev, cx, a[0])))


@model("std::collections::HashSet::insert", "std::collections::BTreeSet::insert", "rustc_index::bit_set::BitSet::insert")
def m_setinsert(ev, cx, fr, c, a, t):
    old = D(ev, cx, a[0])
    v = ev.full(cx.st, restrict_(a[1], cx.g))
    if not on_ref(ev, cx, a[0], lambda o: add_yields(ev, o, [yld((), TRUE, v)])):
        ev.event(cx, "call", evalr.norm_path(c["path"]), [old, v], UNIT, fr, t["ln"] if t else 0)
    return not_(contains(ev, old, v))


@model("std::collections::HashMap::insert", "std::collections::BTreeMap::insert")
def m_mapinsert(ev, cx, fr, c, a, t):
    old = D(ev, cx, a[0])
    k, v = ev.full(cx.st, restrict_(a[1], cx.g)), ev.full(cx.st, restrict_(a[2], cx.g))
    y = yld((), TRUE, agg(("tuple", ""), [("0", k), ("1", v)]))
    if not on_ref(ev, cx, a[0], lambda o: add_yields(ev, o, [y])):
        ev.event(cx, "call", evalr.norm_path(c["path"]), [old, k, v], UNIT, fr, t["ln"] if t else 0)
    return get(ev, old, k)


@model("std::iter::Extend::extend", "std::vec::Vec::extend", "std::vec::Vec::extend_from_slice", "std::vec::Vec::append")
def m_extend(ev, cx, fr, c, a, t):
    src = a[1]
    ty = t["aty"][1] if t and t.get("aty") else None
    ty = tys.show(ev.tstr(fr, ty)) if ty else None
    ys, _ = yields(ev, D(ev, cx, src), ty)
    ys = [yld(y.args[0], y.args[1], ev.full(cx.st, y.args[2])) for y in ys]
    if not on_ref(ev, cx, a[0], lambda o: add_yields(ev, o, ys)):
        ev.event(cx, "call", evalr.norm_path(c["path"]), [D(ev, cx, a[0]), mkseq(ys)], UNIT, fr, t["ln"] if t else 0)
    if c["path"].endswith("append"):
        on_ref(ev, cx, src, lambda o: mkseq([]))
    return UNIT


@model("std::vec::Vec::clear", "std::collections::HashMap::clear", "std::collections::HashSet::clear")
def m_clear(ev, cx, fr, c, a, t):
    on_ref(ev, cx, a[0], lambda o: mkseq([]))
    return UNIT


@model("std::vec::Vec::drain", "std::collections::HashMap::drain", "std::collections::HashSet::drain")
def m_drain(ev, cx, fr, c, a, t):
    if len(a) > 1 and not (isinstance(a[1], A) and a[1].ctor[1] == "RangeFull"):
        return NotImplemented
    v = D(ev, cx, a[0])
    on_ref(ev, cx, a[0], lambda o: mkseq([]))
    return v


@model("std::vec::Vec::retain", "std::collections::HashSet::retain", "std::collections::HashMap::retain", "std::collections::BTreeMap::retain", "std::vec::Vec::retain_mut")
def m_retain(ev, cx, fr, c, a, t):
    old = D(ev, cx, a[0])
    ys, o = yields(ev, old)
    two = "Map" in c["path"]
    rs = run_over(ev, cx, fr, ys, lambda k, v: ev.call_value(k, fr, a[1], [ev.field(v, "0"), ev.field(v, "1")] if two else [v]), "retain")
    new = [yld(b, and_(g, as_bool(r)), v) for (b, g, r), v in zip(rs, vals_of(ev, rs, ys))]
    on_ref(ev, cx, a[0], lambda _: mkseq([y for y in new if y.args[1] is not FALSE], o))
    return UNIT


LAZY = {"map", "filter", "filter_map", "enumerate", "inspect", "rev", "skip", "take", "chain", "zip", "cloned", "copied",
        "flat_map", "flatten", "into_iter", "peekable", "by_ref", "fuse", "skip_while", "take_while"}


def is_read(fr, d, seen=()):
    """does anything but a lazy adapter that nobody reads use the iterator kept in place d"""
    l = d["l"]
    if d["p"] or l == 0 or l in seen:
        return l not in seen

    def uses(x):
        if isinstance(x, dict):
            if x.get("l") == l and "p" in x:
                return True
            return any(uses(y) for y in x.values())
        return isinstance(x, list) and any(uses(y) for y in x)
    for b in filter(None, fr["fn"].body["blocks"]):
        for s in b["s"]:
            if s["k"] in ("live", "dead"):
                continue
            if uses(s):
                return True
        t = b["t"]
        if t["k"] == "call" and uses(t["args"]):
            c = t["f"].get("fn")
            if not (c and c["path"].split("::")[-1] in LAZY and not is_read(fr, t["d"], seen + (l,))):
                return True
        elif t["k"] not in ("call", "drop") and uses(t):
            return True
    return False


@model("std::vec::Vec::extract_if", "std::collections::HashMap::extract_if", "std::collections::HashSet::extract_if",
       "std::collections::BTreeMap::extract_if")
def m_extract_if(ev, cx, fr, c, a, t):
    """taken out when the iterator is used up; nothing is taken out by one that nobody reads"""
    if not is_read(fr, t["d"]):
        return out_seq([], ())
    old = D(ev, cx, a[0])
    ys, o = yields(ev, old)
    two = "Map" in c["path"]
    rs = run_over(ev, cx, fr, ys, lambda k, v: ev.call_value(k, fr, a[1], [ev.field(v, "0"), ev.field(v, "1")] if two else [v]), "extract_if")
    bgrv = [(b, g, as_bool(r), v) for (b, g, r), v in zip(rs, vals_of(ev, rs, ys))]
    new = [yld(b, and_(g, not_(r)), v) for b, g, r, v in bgrv]
    on_ref(ev, cx, a[0], lambda _: mkseq([y for y in new if y.args[1] is not FALSE], o))
    return out_seq([(b, and_(g, r), v) for b, g, r, v in bgrv], o)


def vals_of(ev, rs, ys):
    out = []
    ys = [y for y in ys if y.args[1] is not FALSE]
    for (b, g, r), y in zip(rs, ys):
        out.append(ev.rename(*y.args)[2] if y.args[0] else y.args[2])
    return out


def sort_like(key):
    def m(ev, cx, fr, c, a, t):
        name = c["path"].split("::")[-1]
        lam = None
        if len(a) > 1:
            n = ev.arity(a[1]) or 1
            lam = ev.lam(cx, fr, a[1], n, name)
        kind = "sort"
        by = "by" if name.endswith("_by") else "key" if "key" in name else "nat"

        def f(o):
            ys, od = yields(ev, o)
            return mkseq_o(ys, (mk("order", by, lam if lam is not None else UNIT),))
        if not on_ref(ev, cx, a[0], f):
            return NotImplemented
        return UNIT
    return m


def mkseq_o(ys, o):
    return mk("seq", tuple(ys), o)


for _n in ("sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "sort_by_cached_key"):
    MODELS["std::slice::" + _n] = MODELS["core::slice::" + _n] = MODELS["alloc::slice::" + _n] = sort_like(_n)


@model("std::slice::reverse", "core::slice::reverse")
def m_reverse(ev, cx, fr, c, a, t):
    def f(o):
        ys, od = yields(ev, o)
        return mkseq_o(ys, od + (mk("rev"),))
    on_ref(ev, cx, a[0], f)
    return UNIT


@model("itertools::Itertools::sorted_by_key", "itertools::Itertools::sorted_by", "itertools::Itertools::sorted", "itertools::Itertools::sorted_unstable")
def m_sorted(ev, cx, fr, c, a, t):
    name = c["path"].split("::")[-1]
    lam = ev.lam(cx, fr, a[1], ev.arity(a[1]) or 1, name) if len(a) > 1 else UNIT
    ys, od = yields(ev, D(ev, cx, a[0]))
    return mkseq_o(ys, (mk("order", "by" if name == "sorted_by" else "key" if "key" in name else "nat", lam),))


def contains(ev, coll, x):
    def leaf(cl):
        ys, _ = yields(ev, cl)
        r = FALSE
        for y in ys:
            b, g, v = y.args
            b, g, v = freshen(ev, b, g, v, x)
            r = or_(r, ev.exists(b, and_(g, ev.eq(v, x))))
        return r
    return mapv(leaf, coll)


def freshen(ev, b, g, v, x):
    """rename binders that occur free in x"""
    if not b:
        return b, g, v
    sx = subterms(x)
    m = {}
    nb = []
    for c, e in b:
        c = subst(c, lambda q: m.get(q.id))
        if e.id in sx:
            d = e.args[1]
            while mk("elem", c, d).id in sx:
                d += 1
            m[e.id] = mk("elem", c, d)
            e = m[e.id]
        nb.append((c, e))
    if m:
        g = subst(g, lambda q: m.get(q.id))
        v = subst(v, lambda q: m.get(q.id))
    return tuple(nb), g, v


@model("std::collections::HashSet::contains", "std::collections::BTreeSet::contains", "core::slice::contains", "std::slice::contains",
       "std::vec::Vec::contains", "itertools::Itertools::contains", "std::collections::VecDeque::contains")
def m_contains(ev, cx, fr, c, a, t):
    return contains(ev, D(ev, cx, a[0]), D(ev, cx, a[1]))


def get(ev, m, k):
    def leaf(x, y):
        if isinstance(x, T) and x.op == "seq" and not x.args[0]:
            return NONE
        if isinstance(x, T) and x.op in ("kset", "kdel") and x.args[1] is y:
            return some(x.args[2]) if x.op == "kset" else NONE
        return mk("call", "get", x, y)
    return apply(leaf, [m, ev.lift(k)])


def slice_get(ev, v, i):
    return opt_of(ev.lt(i, length(ev, v)), ev.index(v, i))


@model("core::slice::get", "std::slice::get", "std::vec::Vec::get", "std::collections::VecDeque::get")
def m_sliceget(ev, cx, fr, c, a, t):
    k = D(ev, cx, a[1])
    if any(isinstance(l, A) for _, l in leaves(k)):
        return get(ev, D(ev, cx, a[0]), k)
    return slice_get(ev, D(ev, cx, a[0]), k)


@model("core::slice::first", "std::slice::first", "std::collections::VecDeque::front")
def m_slicefirst(ev, cx, fr, c, a, t):
    return slice_get(ev, D(ev, cx, a[0]), intv(0))


@model("core::slice::last", "std::slice::last", "std::collections::VecDeque::back")
def m_slicelast(ev, cx, fr, c, a, t):
    v = D(ev, cx, a[0])
    return opt_of(nonempty(ev, v), mapv(lambda x: ev.index(x, mk("fromend", intv(1))), v))


@model("smallvec::SmallVec::inline_size")
def m_inlinesize(ev, cx, fr, c, a, t):
    return intv(1 << 40)        # where the elements live does not matter


@model("std::collections::HashMap::get", "std::collections::BTreeMap::get")
def m_get(ev, cx, fr, c, a, t):
    return get(ev, D(ev, cx, a[0]), D(ev, cx, a[1]))


@model("std::collections::HashMap::contains_key", "std::collections::BTreeMap::contains_key")
def m_ckey(ev, cx, fr, c, a, t):
    return ev.is_variant(get(ev, D(ev, cx, a[0]), D(ev, cx, a[1])), OPTION, "Some")


@model("std::collections::HashMap::get_mut", "std::collections::BTreeMap::get_mut", "core::slice::get_mut", "std::slice::get_mut")
def m_getmut(ev, cx, fr, c, a, t):
    v = D(ev, cx, a[0])
    k = D(ev, cx, a[1])
    s = ev.is_variant(get(ev, v, k), OPTION, "Some")

    def leaf(r):
        if isinstance(r, T) and r.op == "ref":
            return mk("ref", r.args[0], r.args[1] + (("key", k, "get"),))
        return mk("call", "get_mut", r, k)
    return ite(s, some(mapv(leaf, a[0])), NONE)


@model("std::ops::Index::index")
def m_index(ev, cx, fr, c, a, t):
    v, k = D(ev, cx, a[0]), D(ev, cx, a[1])
    ty = tys.peel(tys.parse(t["aty"][0]))[0] if t and t.get("aty") else ""
    if "Map" in ty:
        g = get(ev, v, k)
        s = ev.is_variant(g, OPTION, "Some")
        ev.panic(cx, "index:missing", not_(s), fr, t["ln"], [v, k])
        return restrict(ev.field(g, "0", "Some"), s)
    if isinstance(k, A) and k.ctor[0].startswith(("std::ops::Range", "core::ops::Range")):
        if k.ctor[1] == "RangeFull":
            return v
        ev.event(cx, "slice", "std::ops::Index::index", [v, k], UNIT, fr, t["ln"] if t else 0)
        return mapv(lambda x: mk("sliced", x, k), v)
    return ev.index(v, k)


@model("std::ops::IndexMut::index_mut")
def m_indexmut(ev, cx, fr, c, a, t):
    k = D(ev, cx, a[1])

    def leaf(r):
        if isinstance(r, T) and r.op == "ref":
            return mk("ref", r.args[0], r.args[1] + (("i", k),))
        return mk("call", "index_mut", r, k)
    return mapv(leaf, a[0])


@model("std::collections::HashMap::entry", "std::collections::BTreeMap::entry")
def m_entry(ev, cx, fr, c, a, t):
    k = ev.full(cx.st, a[1])

    def leaf(r):
        e = mk("entryof", r, k)
        s = ev.is_variant(get(ev, D(ev, cx, r), k), OPTION, "Some")
        return ite(s, agg((ENTRY, "Occupied"), [("0", e)]), agg((ENTRY, "Vacant"), [("0", e)]))
    return mapv(leaf, a[0])


ENTRY = "std::collections::hash_map::Entry"


def entry_of(ev, cx, v):
    """the map and the key of an entry, or None"""
    es = set()
    for _, l in leaves(D(ev, cx, v)):
        if isinstance(l, A) and l.ctor[0] == ENTRY:
            l = ev.field(l, "0")
        if not (isinstance(l, T) and l.op == "entryof" and isinstance(l.args[0], T) and l.args[0].op == "ref"):
            return None
        es.add(l)
    return es.pop() if len(es) == 1 else None


def entries(*names):
    return model(*[f"std::collections::{m}::{n}" for m in ("hash_map", "btree_map") for n in names])


@model("std::slice::into_vec", "core::slice::into_vec")
def m_intovec(ev, cx, fr, c, a, t):
    return ev.full(cx.st, D(ev, cx, a[0]))


def step_closure(ev, cx, fr, f, args):
    """one call of a closure that owns its state: result, closure afterwards, guard; or None"""
    fn = ev.F.fns.get(f.ctor[1])
    if fn is None or fn.id in ev.stack or not fn.body["locals"][1]["ty"].startswith("&mut"):
        return None
    ev.stack.append(fn.id)
    ev.frames += 1
    loc = ("clo", ev.frames)
    st = dict(cx.st)
    st[loc] = f
    try:
        ret, st2, g = ev.run_body(fn, fn.body, [mk("ref", loc, ())] + list(args), cx.g, st, fr["tsub"] if fr else {})
    finally:
        ev.stack.pop()
    return ev.full(st2, restrict(ret, g) if g is not FALSE else BOT), st2.get(loc), g


@model("std::iter::from_fn")
def m_fromfn(ev, cx, fr, c, a, t):
    """items of a closure over a state of its own: where it starts, and what one call gives and leaves behind"""
    f = a[0]
    if not (isinstance(f, A) and f.ctor[0] == "closure"):
        return NotImplemented
    names = [n for n, v in f.fields if not (isinstance(v, T) and v.op == "ref")]
    d = ev.lamdepth
    ev.lamdepth += 1
    ev.binders.append("λfrom_fn")
    try:
        var = {}
        for _ in range(len(names) + 1):
            cur = f
            for i, n in enumerate(sorted(var)):
                cur = ev.upd(cur, (("f", None, n),), mk("lp", d, i))
            n0 = len(ev.events)
            r = step_closure(ev, cx, fr, cur, [])
            if r is None:
                return NotImplemented
            ret, after, g = r
            more = [n for n in names if n not in var and ev.field(after, n) is not ev.field(cur, n)]
            if not more:
                break
            del ev.events[n0:]
            for n in more:
                var[n] = 1
    finally:
        ev.binders.pop()
        ev.lamdepth -= 1
    ns = sorted(var)
    g = restrict(g, cx.g) if g is not FALSE else FALSE
    out = agg(("tuple", ""), [("0", ret)] + [(str(i + 1), ev.full(cx.st, ev.field(after, n))) for i, n in enumerate(ns)])
    return mk("call", "from_fn", *[ev.full(cx.st, ev.field(f, n)) for n in ns], mk("lam", len(ns), out, TRUE if g is BOT else g, d))


@model("alloc::alloc::exchange_malloc", "smallvec::alloc::alloc::exchange_malloc", "std::alloc::exchange_malloc")
def m_box(ev, cx, fr, c, a, t):
    """a new box: a place of its own"""
    ev.frames += 1
    return mk("ref", (ev.frames, 0), ())


@entries("VacantEntry::insert", "OccupiedEntry::insert")
def m_einsert(ev, cx, fr, c, a, t):
    e = entry_of(ev, cx, a[0])
    if e is None:
        return NotImplemented
    r, k = e.args
    old = D(ev, cx, r)
    v = ev.full(cx.st, restrict_(a[1], cx.g))
    y = yld((), TRUE, agg(("tuple", ""), [("0", k), ("1", v)]))
    on_ref(ev, cx, r, lambda o: add_yields(ev, o, [y]))
    if "Vacant" in c["path"]:
        return mk("ref", r.args[0], r.args[1] + (("key", k, "get"),))
    return ev.field(get(ev, old, k), "0", "Some")


@entries("OccupiedEntry::get")
def m_eget(ev, cx, fr, c, a, t):
    e = entry_of(ev, cx, a[0])
    return NotImplemented if e is None else ev.field(get(ev, D(ev, cx, e.args[0]), e.args[1]), "0", "Some")


@entries("OccupiedEntry::get_mut", "OccupiedEntry::into_mut")
def m_egetmut(ev, cx, fr, c, a, t):
    e = entry_of(ev, cx, a[0])
    return NotImplemented if e is None else mk("ref", e.args[0].args[0], e.args[0].args[1] + (("key", e.args[1], "get"),))


@entries("OccupiedEntry::key", "VacantEntry::key", "Entry::key", "VacantEntry::into_key")
def m_ekey(ev, cx, fr, c, a, t):
    e = entry_of(ev, cx, a[0])
    return NotImplemented if e is None else e.args[1]


@entries("OccupiedEntry::remove", "OccupiedEntry::remove_entry")
def m_eremove(ev, cx, fr, c, a, t):
    e = entry_of(ev, cx, a[0])
    if e is None:
        return NotImplemented
    r, k = e.args
    v = ev.field(get(ev, D(ev, cx, r), k), "0", "Some")
    on_ref(ev, cx, r, lambda o: mapv(lambda x: mk("kdel", x, k), o))
    return v if c["path"].endswith("remove") else agg(("tuple", ""), [("0", k), ("1", v)])


@model("std::collections::HashMap::remove", "std::collections::BTreeMap::remove")
def m_mapremove(ev, cx, fr, c, a, t):
    old = D(ev, cx, a[0])
    k = ev.full(cx.st, D(ev, cx, a[1]))
    if not on_ref(ev, cx, a[0], lambda o: mapv(lambda x: mk("kdel", x, k), o)):
        ev.event(cx, "call", evalr.norm_path(c["path"]), [old, k], UNIT, fr, t["ln"] if t else 0)
    return get(ev, old, k)


@model("std::collections::hash_map::Entry::or_default", "std::collections::hash_map::Entry::or_insert_with", "std::collections::hash_map::Entry::or_insert",
       "std::collections::btree_map::Entry::or_default", "std::collections::btree_map::Entry::or_insert_with", "std::collections::btree_map::Entry::or_insert")
def m_orinsert(ev, cx, fr, c, a, t):
    e = entry_of(ev, cx, a[0])
    if e is not None:
        r = e.args[0]
        n = c["path"].split("::")[-1]
        d = "default"
        if n == "or_insert_with":
            d = "with"
            dv = ev.lam(cx, fr, a[1], 0, "or_insert_with")
        elif n == "or_insert":
            d = a[1]
            return mk("ref", r.args[0], r.args[1] + (("key", e.args[1], mk("ins", d)),))
        else:
            dv = mk("lam", 0, default_of(ev, re.sub(r"^&mut ", "", t["dty"])), TRUE, ev.lamdepth)
        return mk("ref", r.args[0], r.args[1] + (("key", e.args[1], mk("ins", dv.args[1])),))
    return NotImplemented


@model("std::vec::Vec::len", "core::slice::len", "std::slice::len", "std::collections::HashMap::len", "std::collections::HashSet::len", "std::string::String::len",
       "core::str::len", "std::str::len", "std::iter::ExactSizeIterator::len", "std::collections::VecDeque::len", "std::collections::BTreeMap::len", "std::iter::Iterator::count",
       "std::collections::BTreeSet::len")
def m_len(ev, cx, fr, c, a, t):
    return length(ev, D(ev, cx, a[0]))


@model("std::vec::Vec::is_empty", "core::slice::is_empty", "std::slice::is_empty", "std::collections::HashMap::is_empty", "std::collections::HashSet::is_empty",
       "std::collections::VecDeque::is_empty", "std::collections::BTreeMap::is_empty", "std::collections::BTreeSet::is_empty")
def m_isempty(ev, cx, fr, c, a, t):
    return is_empty(ev, D(ev, cx, a[0]))


@model("core::str::is_empty", "std::string::String::is_empty", "std::str::is_empty")
def m_strempty(ev, cx, fr, c, a, t):
    return ev.eq(length(ev, D(ev, cx, a[0])), intv(0))


@model("std::collections::HashMap::keys", "std::collections::HashMap::into_keys", "std::collections::BTreeMap::keys", "std::collections::BTreeMap::into_keys")
def m_keys(ev, cx, fr, c, a, t):
    ys, o = yields(ev, D(ev, cx, a[0]))
    return mkseq([yld(y.args[0], y.args[1], ev.field(y.args[2], "0")) for y in ys], o)


@model("std::collections::HashMap::values", "std::collections::HashMap::into_values", "std::collections::BTreeMap::values", "std::collections::BTreeMap::into_values",
       "indexmap::map::IndexMap::values", "indexmap::map::IndexMap::into_values", "indexmap::IndexMap::values")
def m_values(ev, cx, fr, c, a, t):
    ys, o = yields(ev, D(ev, cx, a[0]))
    return mkseq([yld(y.args[0], y.args[1], ev.field(y.args[2], "1")) for y in ys], o)


def itermut(field=None):
    def m(ev, cx, fr, c, a, t):
        r = a[0]
        if isinstance(r, T) and r.op == "ref":
            v = ev.read_loc(cx.st, r.args[0], r.args[1])
            ys, o = yields(ev, v)
            if len(ys) == 1 and len(ys[0].args[0]) == 1 and ys[0].args[2] is ys[0].args[0][0][1]:
                b, g, e = ys[0].args
                p = (("each", e),)
                if field:
                    p += (("f", None, field),)
                x = mk("ref", r.args[0], r.args[1] + p)
                if field is None and "Map" in (t["aty"][0] if t else ""):
                    x = agg(("tuple", ""), [("0", ev.field(e, "0")), ("1", mk("ref", r.args[0], r.args[1] + p + (("f", None, "1"),)))])
                return mk("seq", (yld(b, g, x),), o)
            c_ = mk("itermut", v)
            e = ev.fresh_elem(c_)
            p = r.args[1] + (("each", e),)
            x = mk("ref", r.args[0], p + ((("f", None, field),) if field else ()))
            if field is None and "Map" in (t["aty"][0] if t else ""):
                x = agg(("tuple", ""), [("0", ev.field(e, "0")), ("1", mk("ref", r.args[0], p + (("f", None, "1"),)))])
            return mk("seq", (yld(((c_, e),), TRUE, x),), ())
        return a[0]
    return m


for _p in ("core::slice::iter_mut", "std::slice::iter_mut", "std::vec::Vec::iter_mut", "std::collections::HashMap::iter_mut", "std::collections::VecDeque::iter_mut", "std::collections::BTreeMap::iter_mut"):
    MODELS[_p] = itermut()
for _p in ("std::collections::HashMap::values_mut", "std::collections::BTreeMap::values_mut"):
    MODELS[_p] = itermut("1")


@model("std::iter::IntoIterator::into_iter")
def m_intoiter(ev, cx, fr, c, a, t):
    ty = t["aty"][0] if t and t.get("aty") else ""
    if isinstance(a[0], T) and a[0].op == "ref":
        v = D(ev, cx, a[0])
        if ty.startswith("&mut ") and not any(s in ty for s in ("Iter<", "Drain<", "dyn ", "impl ")):
            return itermut()(ev, cx, fr, c, a, t)
        if ty.startswith("&mut "):
            return a[0]
        return v
    if tys.peel(tys.parse(ty))[0].endswith(("option::Option", "result::Result")):
        return as_seq(ev, a[0], ty)
    return a[0]


# ------------------------------------------------------------------ iterators
@model("std::iter::Iterator::next")
def m_next(ev, cx, fr, c, a, t):
    r = a[0]
    if not (isinstance(r, T) and r.op == "ref"):
        return NotImplemented
    cur = ev.read_loc(cx.st, r.args[0], r.args[1])
    if isinstance(cur, T) and cur.op == "ref":
        r = cur
        cur = ev.read_loc(cx.st, r.args[0], r.args[1])
    if isinstance(cur, T) and cur.op == "lv":
        ev.write(cx, r.args[0], r.args[1], mk("adv", cur))
        m = var("d", mk("more", cur), ("None", "Some"))
        el = mk("cur", cur)
        init = ev.lvinit.get(cur.id)
        if init is not None:
            seq = as_seq(ev, restrict(init, cx.g))
            e = evalr.each_of(seq)
            if e is not None:
                return node(m, [NONE, some(subst(seq.args[0][0].args[2], lambda x: el if x is e else None))])
        return node(m, [NONE, some(el)])
    if isinstance(cur, T) and cur.op in ("adv", "afternext", "call", "rest", "exhausted", "f", "param") or isinstance(cur, A):
        ev.write(cx, r.args[0], r.args[1], mk("afternext", cur))
        ev.event(cx, "call", "std::iter::Iterator::next", [cur], UNIT, fr, t["ln"] if t else 0)
        return mk("call", "next", cur)
    ys, o = yields(ev, cur)
    ev.write(cx, r.args[0], r.args[1], mk("afternext", cur))
    # the first element
    if not ys:
        ev.write(cx, r.args[0], r.args[1], cur)
        return NONE
    if not o and all(not y.args[0] and y.args[1] is TRUE for y in ys):
        ev.write(cx, r.args[0], r.args[1], mkseq(ys[1:]))
        return some(ys[0].args[2])
    if not o and len(ys) == 1:
        b, g, v = ys[0].args
        ex = ev.exists(b, g)
        return opt_of(ex, ev.first(b, g, v))
    return mk("call", "next", cur)


def mapper(f):
    """adapter: f(ev, cx, fr, c, a, t, ys, order) -> value"""
    def m(ev, cx, fr, c, a, t):
        src = a[0]
        if isinstance(src, T) and src.op == "ref":
            # by-reference iterator: adapters such as any/find consume it in place
            v = ev.read_loc(cx.st, src.args[0], src.args[1])
            if isinstance(v, T) and v.op == "lv":
                return NotImplemented
            if not isinstance(v, T) or v.op != "lv":
                ev.write(cx, src.args[0], src.args[1], mk("afternext", v))
            src = v
        elif isinstance(src, N):
            src = D(ev, cx, src)
        ty = t["aty"][0] if t and t.get("aty") else None
        ys, o = yields(ev, src, ty if ty and tys.peel(tys.parse(ty))[0].endswith("Option") else None)
        ev.order = o
        return f(ev, cx, fr, c, a, t, ys, o)
    return m


def mapmodel(*names):
    def d(f):
        for n in names:
            MODELS["std::iter::Iterator::" + n] = MODELS["core::iter::Iterator::" + n] = mapper(f)
        return f
    return d


def ret_ty(ev, f):
    for _, l in leaves(f):
        if isinstance(l, A) and l.ctor[0] == "closure":
            fn = ev.F.fns.get(l.ctor[1])
            if fn:
                return fn.body["locals"][0]["ty"]
        if isinstance(l, T) and l.op == "fn":
            c = ev.fnrefs[l.args[0]]
            fn = ev.F.fns.get(c.get("rid") or c["id"])
            if fn:
                return fn.body["locals"][0]["ty"]
    return None


def out_seq(rs, o=()):
    ys = [yld(b, g, v) for b, g, v in rs if g is not FALSE]
    return mkseq(ys, o)


@mapmodel("map")
def m_map(ev, cx, fr, c, a, t, ys, o):
    rs = run_over(ev, cx, fr, ys, call1(ev, fr, a[1]), "map")
    return out_seq([(b, g, restrict_(r, g)) for b, g, r in rs], o)


@mapmodel("inspect")
def m_inspect(ev, cx, fr, c, a, t, ys, o):
    run_over(ev, cx, fr, ys, call1(ev, fr, a[1]), "inspect")
    return mkseq(ys, o)


@mapmodel("filter")
def m_filter(ev, cx, fr, c, a, t, ys, o):
    rs = run_over(ev, cx, fr, ys, call1(ev, fr, a[1]), "filter")
    vs = vals_of(ev, rs, ys)
    return out_seq([(b, and_(g, as_bool(r)), v) for (b, g, r), v in zip(rs, vs)], o)


@mapmodel("filter_map")
def m_filtermap(ev, cx, fr, c, a, t, ys, o):
    rs = run_over(ev, cx, fr, ys, call1(ev, fr, a[1]), "filter_map")
    out = []
    for b, g, r in rs:
        s = and_(g, ev.is_variant(r, OPTION, "Some"))
        if s is not FALSE:
            out.append((b, s, restrict_(ev.field(r, "0", "Some"), s)))
    return out_seq(out, o)


@mapmodel("flat_map")
def m_flatmap(ev, cx, fr, c, a, t, ys, o):
    rty = ret_ty(ev, a[1])
    acc = []

    def body(k, v):
        return ev.call_value(k, fr, a[1], [v])
    rs = run_over(ev, cx, fr, ys, body, "flat_map")
    return flat(ev, rs, rty, o)


def flat(ev, rs, rty, o):
    out = []
    for b, g, r in rs:
        if r is BOT:
            continue
        nb = ev.binders
        ev.binders = nb + list(b)
        try:
            ys, _ = yields(ev, r, rty)
        finally:
            ev.binders = nb
        for y in ys:
            out.append((tuple(b) + y.args[0], and_(g, y.args[1]), y.args[2]))
    return out_seq(out, o)


@mapmodel("flatten")
def m_flatten(ev, cx, fr, c, a, t, ys, o):
    ity = None
    m = re.search(r"Item = (std::option::Option|std::result::Result)", t["aty"][0]) if t else None
    aty = t["aty"][0] if t else ""
    if "std::option::Option<std::option::Option" in aty or re.search(r"Iter<'?_?,? ?std::option::Option|IntoIter<std::option::Option", aty):
        ity = "std::option::Option<()>"
    return flat(ev, [y.args for y in ys], ity, o)


@mapmodel("chain")
def m_chain(ev, cx, fr, c, a, t, ys, o):
    y2, o2 = yields(ev, D(ev, cx, a[1]), t["aty"][1] if t else None)
    return mkseq(tuple(ys) + tuple(y2), o)


@mapmodel("rev")
def m_rev(ev, cx, fr, c, a, t, ys, o):
    if o and o[-1] is mk("rev"):
        return mkseq(ys, o[:-1])
    return mkseq_o(ys, o + (mk("rev"),))


@mapmodel("enumerate")
def m_enumerate(ev, cx, fr, c, a, t, ys, o):
    if len(ys) == 1 and len(ys[0].args[0]) == 1:
        b, g, v = ys[0].args
        e = b[0][1]
        pos = mk("pos", e) if g is TRUE else mk("pos", e, g)
        return mk("seq", (yld(b, g, agg(("tuple", ""), [("0", pos), ("1", v)])),), o)
    if all(not y.args[0] and y.args[1] is TRUE for y in ys):
        return mkseq([yld((), TRUE, agg(("tuple", ""), [("0", intv(i)), ("1", y.args[2])])) for i, y in enumerate(ys)], o)
    return mk("enumerate", mkseq(ys, o))


@mapmodel("any")
def m_any(ev, cx, fr, c, a, t, ys, o):
    rs = run_over(ev, cx, fr, ys, call1(ev, fr, a[1]), "any")
    r = FALSE
    for b, g, v in rs:
        if v is not BOT:
            r = or_(r, ev.exists(b, and_(g, as_bool(v))))
    return r


@mapmodel("all")
def m_all(ev, cx, fr, c, a, t, ys, o):
    rs = run_over(ev, cx, fr, ys, call1(ev, fr, a[1]), "all")
    r = FALSE
    for b, g, v in rs:
        if v is not BOT:
            r = or_(r, ev.exists(b, and_(g, not_(as_bool(v)))))
    return not_(r)


def first_of(ev, parts, o=()):
    """parts: [(binders, guard, value)] -> Option of the first"""
    out = NONE
    for b, g, v in reversed(parts):
        if g is FALSE:
            continue
        ex = ev.exists(b, g)
        x = ev.first(evalr.mark(b, o), g, v) if b else restrict_(v, g)
        out = ite(ex, some(x), out)
    return out


@mapmodel("find")
def m_find(ev, cx, fr, c, a, t, ys, o):
    rs = run_over(ev, cx, fr, ys, call1(ev, fr, a[1]), "find", as_bool)
    vs = vals_of(ev, rs, ys)
    return first_of(ev, [(b, and_(g, as_bool(r)), v) for (b, g, r), v in zip(rs, vs) if r is not BOT], o)


@mapmodel("find_map")
def m_findmap(ev, cx, fr, c, a, t, ys, o):
    rs = run_over(ev, cx, fr, ys, call1(ev, fr, a[1]), "find_map", lambda r: ev.is_variant(r, OPTION, "Some"))
    out = []
    for b, g, r in rs:
        if r is BOT:
            continue
        s = and_(g, ev.is_variant(r, OPTION, "Some"))
        if s is not FALSE:
            out.append((b, s, restrict_(ev.field(r, "0", "Some"), s)))
    return first_of(ev, out, o)


@mapmodel("position")
def m_position(ev, cx, fr, c, a, t, ys, o):
    rs = run_over(ev, cx, fr, ys, call1(ev, fr, a[1]), "position")
    if len(rs) == 1 and len(rs[0][0]) == 1:
        b, g, r = rs[0]
        return first_of(ev, [(b, and_(g, as_bool(r)), mk("pos", b[0][1]) if g is TRUE else mk("pos", b[0][1], g))], o)
    return NotImplemented


@mapmodel("for_each")
def m_foreach(ev, cx, fr, c, a, t, ys, o):
    run_over(ev, cx, fr, ys, call1(ev, fr, a[1]), "for_each")
    return UNIT


@mapmodel("try_for_each")
def m_tryforeach(ev, cx, fr, c, a, t, ys, o):
    rs = run_over(ev, cx, fr, ys, call1(ev, fr, a[1]), "try_for_each")
    return collect_result(ev, rs, lambda ys_: UNIT)


def collect_result(ev, rs, mkok):
    bad = [(b, and_(g, ev.is_variant(r, RESULT, "Err")), ev.field(r, "0", "Err")) for b, g, r in rs]
    f = first_of(ev, bad)
    s = ev.is_variant(f, OPTION, "Some")
    good = []
    for b, g, r in rs:
        gg = and_(g, ev.is_variant(r, RESULT, "Ok"))
        if gg is not FALSE:
            good.append((b, g, restrict_(ev.field(r, "0", "Ok"), gg)))
    return ite(s, err(restrict_(ev.field(f, "0", "Some"), s)), ok(mkok(good)))


def collect_option(ev, rs, mkok):
    bad = FALSE
    good = []
    for b, g, r in rs:
        bad = or_(bad, ev.exists(b, and_(g, ev.is_variant(r, OPTION, "None"))))
        gg = and_(g, ev.is_variant(r, OPTION, "Some"))
        if gg is not FALSE:
            good.append((b, g, restrict_(ev.field(r, "0", "Some"), gg)))
    return ite(bad, NONE, some(mkok(good)))


def text_of(ev, x):
    """the pieces of x one after the other"""
    def is_call(t, n):
        return isinstance(t, T) and t.op == "call" and isinstance(t.args[0], str) and t.args[0].endswith(n)
    if is_call(x, "Itertools::intersperse") and len(x.args) == 3:
        return mk("call", "joined", x.args[1], x.args[2])
    if isinstance(x, T) and x.op == "seq" and not x.args[1] and len(x.args[0]) == 1:
        bs, g, v = x.args[0][0].args
        if len(bs) == 2 and g is TRUE and v is bs[1][1] and bs[1][0] is bs[0][1] and is_call(bs[0][0], "Itertools::intersperse"):
            _, pieces, sep = bs[0][0].args
            if isinstance(sep, A) and sep.ctor[0] == "array" and len(sep.fields) == 1:
                ys, o = yields(ev, pieces)
                ys = [yld(y.args[0], y.args[1], mapv(lambda t: text_of(ev, t), y.args[2])) for y in ys]
                return mk("call", "joined", out_seq([y.args for y in ys], o), sep.fields[0][1])
    return mk("call", "collect_string", x)


@model("std::slice::join", "core::slice::join", "alloc::slice::join", "itertools::Itertools::join")
def m_join(ev, cx, fr, c, a, t):
    x, sep = D(ev, cx, a[0]), D(ev, cx, a[1])
    ty = ev.tstr(fr, t["dty"])[0] if t and t.get("dty") else ""
    if not ty.endswith("String"):
        return mk("call", "join", x, sep)
    return mapv(lambda q: mk("call", "joined", q, sep), x)


@model("itertools::Itertools::intersperse")
def m_intersperse(ev, cx, fr, c, a, t):
    return mk("call", "Itertools::intersperse", D(ev, cx, a[0]), D(ev, cx, a[1]))


@model("std::slice::concat", "core::slice::concat", "alloc::slice::concat")
def m_concat(ev, cx, fr, c, a, t):
    x = D(ev, cx, a[0])
    ty = ev.tstr(fr, t["dty"])[0] if t and t.get("dty") else ""
    if not ty.endswith("String"):
        return mk("call", "concat", x)
    return mapv(lambda q: text_of(ev, q), x)


@mapmodel("collect")
def m_collect(ev, cx, fr, c, a, t, ys, o):
    dty = ev.tstr(fr, t["dty"])[0] if t and t.get("dty") else ""
    if dty.endswith("result::Result"):
        return collect_result(ev, [y.args for y in ys], lambda g: out_seq(g, o))
    if dty.endswith("option::Option"):
        return collect_option(ev, [y.args for y in ys], lambda g: out_seq(g, o))
    if dty.endswith("String"):
        return text_of(ev, mkseq(ys, o))
    if dty.endswith(("HashMap", "HashSet", "BTreeMap", "BTreeSet", "Relation")):
        o = ()
    return mkseq(ys, o)


@model("datafrog::Relation::from_iter", "datafrog::Relation::from_vec")
@mapper
def m_relation(ev, cx, fr, c, a, t, ys, o):
    """a relation is a set: the order of its tuples is that of their values"""
    return mkseq(ys, ())


@model("itertools::Itertools::collect_vec", "std::iter::FromIterator::from_iter")
def m_collectvec(ev, cx, fr, c, a, t):
    return D(ev, cx, a[0])


@mapmodel("skip")
def m_skip(ev, cx, fr, c, a, t, ys, o):
    k = agg(("std::ops::RangeFrom", "RangeFrom"), [("start", D(ev, cx, a[1]))])
    v = mkseq(ys, o)
    return mapv(lambda x: mk("sliced", x, k), v) if k.get("start") is not intv(0) else v


@mapmodel("fold")
def m_fold(ev, cx, fr, c, a, t, ys, o):
    acc = a[1]
    loc = ("fold", ev.frames)
    ev.frames += 1
    cx.st[loc] = acc

    def body(k, v):
        cur = k.st[loc]
        r = ev.call_value(k, fr, a[2], [cur, v])
        k.st[loc] = r
        return UNIT
    run_over(ev, cx, fr, ys, body, "fold")
    return cx.st.pop(loc)


@mapmodel("sum")
def m_sum(ev, cx, fr, c, a, t, ys, o):
    return mk("call", "sum", mkseq(ys))


@mapmodel("partition")
def m_partition(ev, cx, fr, c, a, t, ys, o):
    rs = run_over(ev, cx, fr, ys, call1(ev, fr, a[1]), "partition")
    vs = vals_of(ev, rs, ys)
    l = out_seq([(b, and_(g, as_bool(r)), v) for (b, g, r), v in zip(rs, vs)], o)
    r_ = out_seq([(b, and_(g, not_(as_bool(r))), v) for (b, g, r), v in zip(rs, vs)], o)
    return agg(("tuple", ""), [("0", l), ("1", r_)])


@mapmodel("unzip")
def m_unzip(ev, cx, fr, c, a, t, ys, o):
    l = mkseq([yld(y.args[0], y.args[1], ev.field(y.args[2], "0")) for y in ys], o)
    r = mkseq([yld(y.args[0], y.args[1], ev.field(y.args[2], "1")) for y in ys], o)
    return agg(("tuple", ""), [("0", l), ("1", r)])


@model("std::iter::Iterator::zip", "std::iter::zip")
def m_zip(ev, cx, fr, c, a, t):
    x, y = D(ev, cx, a[0]), D(ev, cx, a[1])
    z = mk("zip", x, y)
    e = ev.fresh_elem(z)
    return mk("seq", (yld(((z, e),), TRUE, agg(("tuple", ""), [("0", mk("f", e, None, "0")), ("1", mk("f", e, None, "1"))])),), ())


@model("std::iter::once")
def m_once(ev, cx, fr, c, a, t):
    return mkseq([yld((), TRUE, a[0])])


# ------------------------------------------------------------------ cells, locks, futures
@model("std::thread::LocalKey::with")
def m_tlswith(ev, cx, fr, c, a, t):
    return ev.call_value(cx, fr, a[1], [a[0]])


def cell_loc(v):
    return ("cell", v)


def _cell(ev, cx, fr, v, t, mut):
    """what is behind a RefCell: a reference to its content"""
    return ev.call(cx, fr, {"path": "std::cell::RefCell::borrow" + ("_mut" if mut else ""), "targs": [], "id": ""}, [v], t)


@model("std::thread::LocalKey::with_borrow", "std::thread::LocalKey::with_borrow_mut")
def m_tlsborrow(ev, cx, fr, c, a, t):
    return ev.call_value(cx, fr, a[1], [_cell(ev, cx, fr, a[0], t, c["path"].endswith("_mut"))])


@model("std::cell::RefCell::replace", "std::cell::Cell::replace", "std::thread::LocalKey::replace", "std::cell::Cell::set", "std::thread::LocalKey::set")
def m_cellreplace(ev, cx, fr, c, a, t):
    v = D(ev, cx, a[0])
    if isinstance(v, A):
        return NotImplemented
    old = cx.st.get(cell_loc(v), mk("cellval", v))
    cx.st[cell_loc(v)] = a[1]
    return UNIT if c["path"].endswith("set") else old


@model("std::mem::needs_drop", "core::mem::needs_drop")
def m_needsdrop(ev, cx, fr, c, a, t):
    return FALSE        # only decides how a thread local is torn down


@model("std::cell::RefCell::borrow", "std::cell::RefCell::borrow_mut", "std::cell::RefCell::try_borrow_mut_id")
def m_cellborrow(ev, cx, fr, c, a, t):
    v = D(ev, cx, a[0])
    if isinstance(v, N) or isinstance(v, A):
        return v if c["path"].endswith("borrow") else NotImplemented
    loc = cell_loc(v)
    if loc not in cx.st:
        cx.st[loc] = mk("cellval", v)
    if c["path"].endswith("borrow"):
        return cx.st[loc]
    return mk("ref", loc, ())


@model("std::sync::Mutex::lock", "std::sync::RwLock::write")
def m_lock(ev, cx, fr, c, a, t):
    v = D(ev, cx, a[0])
    if isinstance(v, (N, A)):
        return NotImplemented
    loc = cell_loc(v)
    if loc not in cx.st:
        cx.st[loc] = mk("cellval", v)
    ev.event(cx, "call", evalr.norm_path(c["path"]), [v], UNIT, fr, t["ln"] if t else 0)
    return ok(mk("ref", loc, ()))


@model("std::sync::RwLock::read")
def m_rlock(ev, cx, fr, c, a, t):
    v = D(ev, cx, a[0])
    if isinstance(v, (N, A)):
        return NotImplemented
    loc = cell_loc(v)
    if loc not in cx.st:
        cx.st[loc] = mk("cellval", v)
    ev.event(cx, "call", evalr.norm_path(c["path"]), [v], UNIT, fr, t["ln"] if t else 0)
    return ok(cx.st[loc])


@model("std::cell::Cell::get")
def m_cellget(ev, cx, fr, c, a, t):
    v = D(ev, cx, a[0])
    return cx.st.get(cell_loc(v), mk("cellval", v))


@model("std::cell::Cell::set")
def m_cellset(ev, cx, fr, c, a, t):
    v = D(ev, cx, a[0])
    cx.st[cell_loc(v)] = a[1]
    return UNIT


@model("std::cell::RefCell::into_inner", "std::sync::Mutex::into_inner_id", "std::cell::RefCell::take_id")
def m_cellinner(ev, cx, fr, c, a, t):
    v = D(ev, cx, a[0])
    return cx.st.get(cell_loc(v), v)


@model("std::cell::RefCell::replace")
def m_cellreplace(ev, cx, fr, c, a, t):
    v = D(ev, cx, a[0])
    old = cx.st.get(cell_loc(v), mk("cellval", v))
    cx.st[cell_loc(v)] = a[1]
    return old


@model("std::cell::RefCell::take")
def m_celltake(ev, cx, fr, c, a, t):
    v = D(ev, cx, a[0])
    old = cx.st.get(cell_loc(v), mk("cellval", v))
    cx.st[cell_loc(v)] = default_of(ev, t["dty"])
    return old


@model("std::future::Future::poll", "futures::Future::poll")
def m_poll(ev, cx, fr, c, a, t):
    v = D(ev, cx, a[0])
    r = ev.await_(cx, fr, v)
    ev.event(cx, "await", "await", [v], r, fr, t["ln"] if t else 0)
    return agg((POLL, "Ready"), [("0", r)])


@model("std::panic::Location::caller")
def m_caller(ev, cx, fr, c, a, t):
    return mk("location")


# ------------------------------------------------------------------ ranges
@model("std::ops::RangeInclusive::new")
def m_rangeinc(ev, cx, fr, c, a, t):
    return apply(lambda x, y: mk("rangeinc", x, y), [a[0], a[1]])


@model("std::ops::Range::contains", "std::ops::RangeInclusive::contains")
def m_rcontains(ev, cx, fr, c, a, t):
    r, x = D(ev, cx, a[0]), D(ev, cx, a[1])
    if isinstance(r, A) and r.get("start") is not None:
        return and_(not_(ev.lt(x, r.get("start"))), ev.lt(x, r.get("end")))
    if isinstance(r, T) and r.op == "rangeinc":
        return and_(not_(ev.lt(x, r.args[0])), not_(ev.lt(r.args[1], x)))
    return NotImplemented


def _rebuild_call(path, *vals):
    return mk("call", path, *vals)


@model("lazy_static::lazy::Lazy::get", "std::sync::OnceLock::get_or_init", "std::cell::OnceCell::get_or_init")
def m_lazy_get(ev, cx, fr, c, a, t):
    """The value of a static that is initialised on first use is the result of its initialiser."""
    if len(a) != 2 or not (isinstance(a[1], A) or getattr(a[1], "op", None) == "fn"):
        return NotImplemented
    if any(getattr(x[1], "op", None) != "static" for x in leaves(D(ev, cx, a[0]))) and c["path"].startswith("std"):
        return NotImplemented
    return ev.call_value(cx, fr, a[1], [])


@model("std::hash::DefaultHasher::new", "std::collections::hash_map::DefaultHasher::new")
def m_hasher(ev, cx, fr, c, a, t):
    return mk("default", "std::hash::DefaultHasher")


@model("rustc_span::def_id::DefId::as_local", "rustc_hir::def_id::DefId::as_local")
def m_as_local(ev, cx, fr, c, a, t):
    """the local id that a definition's id was made from"""
    x = D(ev, cx, a[0])
    if isinstance(x, T) and x.op == "call" and x.args[0].endswith("LocalDefId::to_def_id"):
        return some(x.args[1])
    return NotImplemented
