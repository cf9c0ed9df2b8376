"""Shapes of the serialised types of source files that are not compiled here (the interpreter): struct and enum
definitions with their serde attributes, read from the token stream."""
import re
from wire import Opaque


def tokens(s):
    s = re.sub(r"/\*.*?\*/", " ", s, flags=re.S)
    out = re.findall(r'//[^\n]*|r#*"(?:.|\n)*?"#*|"(?:\\.|[^"\\])*"|\'(?:\\.[^\']*|[^\'\\])\'|\'\w+|\w+|::|->|=>|[^\s\w]', s)
    return [t for t in out if not t.startswith("//")]


OPEN = {"(": ")", "[": "]", "{": "}"}


def group(ts, i):
    """ts[i] opens a group: index after its end"""
    d, j = 0, i
    while j < len(ts):
        if ts[j] in OPEN:
            d += 1
        elif ts[j] in OPEN.values():
            d -= 1
            if d == 0:
                return j + 1
        j += 1
    return j


def split(ts):
    """split at top-level commas (angle brackets nest)"""
    out, cur, d = [], [], 0
    for t in ts:
        if t in "([{<":
            d += 1
        elif t in ")]}>" and t != "->":
            d -= 1
        if t == "," and d == 0:
            out.append(cur)
            cur = []
        else:
            cur.append(t)
    if cur:
        out.append(cur)
    return out


def attrs(ts, i):
    """(serde options, derives, index after the attributes)"""
    opts, der = {}, set()
    while i < len(ts) and ts[i] == "#":
        j = group(ts, i + 1)
        body = ts[i + 2:j - 1]
        if body[:1] == ["derive"]:
            der |= set(body)
        if body[:1] == ["serde"]:
            for part in split(body[2:-1]):
                v = part[2].strip('"') if len(part) > 2 and part[1] == "=" else True
                opts[part[0]] = v
        i = j
    return opts, der, i


def cased(name, how):
    words = re.findall(r"[A-Z]?[a-z0-9]+|[A-Z]+(?![a-z])", name.replace("_", " "))
    lower = [w.lower() for w in words]
    return {"snake_case": "_".join(lower), "kebab-case": "-".join(lower), "lowercase": name.lower(), "UPPERCASE": name.upper(),
            "camelCase": lower[0] + "".join(w.capitalize() for w in lower[1:]) if lower else name,
            "PascalCase": "".join(w.capitalize() for w in lower), "SCREAMING_SNAKE_CASE": "_".join(lower).upper()}.get(how, name)


def name_of(name, opts, rule):
    return opts["rename"] if isinstance(opts.get("rename"), str) else cased(name, rule) if rule else name


def fields(ts, rule, named):
    out = []
    for part in split(ts):
        o, _, i = attrs(part, 0)
        while i < len(part) and part[i] == "pub":
            i += 1
            if i < len(part) and part[i] == "(":
                i = group(part, i)
        rest = part[i:]
        if not rest:
            continue
        if "skip" in o or "skip_serializing" in o:
            continue
        if "flatten" in o or "with" in o or "serialize_with" in o:
            raise Opaque("serde attribute " + " ".join(o))
        opt = "skip_serializing_if" in o
        if named:
            out.append((name_of(rest[0], o, rule), ("type", " ".join(rest[2:])), opt))
        else:
            out.append((None, ("type", " ".join(rest)), opt))
    return out


def payload(fs, named):
    if named:
        return ("obj", fs)
    return fs[0][1] if len(fs) == 1 else ("tuple", [f[1] for f in fs])


def shapes(text):
    """{name: (generic parameters, shape)} of every type that derives Serialize"""
    ts = tokens(text)
    out = {}
    i = 0
    while i < len(ts):
        if ts[i] != "#":
            i += 1
            continue
        o, der, j = attrs(ts, i)
        if "Serialize" not in der:
            i = max(j, i + 1)
            continue
        while ts[j] == "pub" or ts[j] == "(":
            j = group(ts, j) if ts[j] == "(" else j + 1
        kind, name = ts[j], ts[j + 1]
        j += 2
        gen = []
        if ts[j] == "<":
            d, k = 0, j
            while True:
                d += {"<": 1, ">": -1}.get(ts[k], 0)
                k += 1
                if d == 0:
                    break
            gen = [p[0] for p in split(ts[j + 1:k - 1]) if not p[0].startswith("'")]
            j = k
        while ts[j] not in ("{", "(", ";"):
            j += 1
        rule = o.get("rename_all")
        if "transparent" in o or "untagged" in o or "into" in o or "remote" in o:
            raise Opaque(f"{name}: serde attribute")
        if kind == "struct":
            if ts[j] == ";":
                out[name] = (gen, ("null",))
                i = j
                continue
            k = group(ts, j)
            named = ts[j] == "{"
            fs = fields(ts[j + 1:k - 1], rule if named else None, named)
            if "tag" in o:
                fs = [(o["tag"], ("lit", name), False)] + fs
            out[name] = (gen, payload(fs, named))
            i = k
            continue
        k = group(ts, j)
        vs = []
        for part in split(ts[j + 1:k - 1]):
            vo, _, p = attrs(part, 0)
            if p >= len(part) or "skip" in vo or "skip_serializing" in vo:
                continue
            vn = name_of(part[p], vo, rule)
            rest = part[p + 1:]
            if rest and rest[0] in "({":
                named = rest[0] == "{"
                fs = fields(rest[1:group(rest, 0) - 1], vo.get("rename_all") or o.get("rename_all_fields"), named)
                body = payload(fs, named)
            else:
                body = None
            tag, content = o.get("tag"), o.get("content")
            if tag and content:
                vs.append(("obj", [(tag, ("lit", vn), False)] + ([(content, body, False)] if body is not None else [])))
            elif tag:
                if body is not None and body[0] != "obj":
                    raise Opaque(f"{name}::{vn}: internally tagged")
                vs.append(("obj", [(tag, ("lit", vn), False)] + (body[1] if body else [])))
            else:
                vs.append(("lit", vn) if body is None else ("wrap", vn, body))
        out[name] = (gen, ("or", vs))
        i = k
    return out
