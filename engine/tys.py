"""Tiny type-string parser, for generic substitution and impl lookup."""
import functools, re


@functools.lru_cache(maxsize=None)
def parse(s):
    """type string -> nested tuple (head, args...)"""
    toks = re.findall(r"[A-Za-z_@#'0-9{}$!]+(?:::[A-Za-z_@#0-9{}$!]+)*|::|->|[<>&*\[\]();,=+?.:\-\"]|\S", s)
    pos = [0]

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else None

    def eat(t=None):
        x = peek()
        if t is not None and x != t:
            raise ValueError(s)
        pos[0] += 1
        return x

    def ty():
        x = peek()
        if x == "&":
            eat()
            while peek() and (peek().startswith("'")):
                eat()
            if peek() == "mut":
                eat()
                return ("&mut", ty())
            return ("&", ty())
        if x == "*":
            eat(); eat()
            return ("*", ty())
        if x == "(":
            eat()
            a = []
            while peek() != ")":
                a.append(ty())
                if peek() == ",":
                    eat()
            eat(")")
            return ("()",) + tuple(a)
        if x == "[":
            eat()
            a = ty()
            if peek() == ";":
                eat()
                n = ""
                while peek() != "]":
                    n += eat()
                eat("]")
                return ("[;]", a, (n,))
            eat("]")
            return ("[]", a)
        # anything else: collect path with generics
        head = ""
        args = []
        while True:
            x = peek()
            if x is None or x in (",", ">", ")", "]", ";", "=", "+"):
                break
            if x == "<":
                eat()
                if not head:
                    # qualified path <T as Trait>::X : opaque
                    depth = 1
                    head = "<"
                    while depth:
                        y = eat()
                        if y is None:
                            raise ValueError(s)
                        depth += (y == "<") - (y == ">")
                        head += y + " "
                    continue
                while peek() != ">":
                    if peek() is None:
                        raise ValueError(s)
                    if peek().startswith("'"):
                        eat()
                    else:
                        a = ty()
                        if peek() == "=":
                            eat()
                            a = ("=", a, ty())
                        args.append(a)
                    while peek() in (",", "+"):
                        eat()
                eat(">")
                continue
            head += eat()
        if not head:
            raise ValueError(s)
        return (head,) + tuple(args)
    try:
        t = ty()
        if pos[0] != len(toks):
            return (s,)
        return t
    except (ValueError, RecursionError, TypeError, IndexError):
        return (s,)


def unify(pat, t, params, out):
    if len(pat) == 1 and pat[0] in params:
        if pat[0] in out:
            return out[pat[0]] == t
        out[pat[0]] = t
        return True
    if pat[0] == "<" or pat[0].startswith("<"):
        return True
    if pat[0].split("::")[-1] != t[0].split("::")[-1] or len(pat) != len(t):
        return False
    return all(unify(a, b, params, out) for a, b in zip(pat[1:], t[1:]))


def substitute(t, m):
    if len(t) == 1 and t[0] in m:
        return m[t[0]]
    return (t[0],) + tuple(substitute(x, m) for x in t[1:])


def show(t):
    h = t[0]
    if h == "&": return "&" + show(t[1])
    if h == "&mut": return "&mut " + show(t[1])
    if h == "()": return "(" + ", ".join(map(show, t[1:])) + ("," if len(t) == 2 else "") + ")"
    if h == "[]": return "[" + show(t[1]) + "]"
    if h == "[;]": return "[" + show(t[1]) + "; " + t[2][0] + "]"
    return h + ("<" + ", ".join(map(show, t[1:])) + ">" if len(t) > 1 else "")


def peel(t):
    while t[0] in ("&", "&mut") or t[0].endswith("boxed::Box"):
        t = t[1]
    return t
