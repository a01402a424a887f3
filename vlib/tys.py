"""Type strings -> trees; substitution; one-way matching of impl heads."""
import re
from functools import lru_cache

TOK = re.compile(r"\s*(->|::|[A-Za-z_][A-Za-z0-9_]*|'[a-z_]+|[0-9][0-9_A-Za-z.]*|\{[^{}]*\}|&|\*|<|>|\(|\)|\[|\]|,|;|=|\+|!|-|#|@|.)")


@lru_cache(maxsize=None)
def parse(s):
    """generic tree: ('n', name, (args...)) for paths, ('p', text) raw tokens for others"""
    toks = [t for t in TOK.findall(s)]
    pos = 0

    def peek():
        return toks[pos] if pos < len(toks) else None

    def eat(t=None):
        nonlocal pos
        x = toks[pos]
        if t is not None and x != t:
            raise ValueError(f"{s}: expected {t} got {x}")
        pos += 1
        return x

    def ty():
        t = peek()
        if t == "&":
            eat()
            if peek() and peek().startswith("'"): eat()
            m = False
            if peek() == "mut": eat(); m = True
            return ("n", "&mut" if m else "&", (ty(),))
        if t == "*":
            eat(); k = eat(); return ("n", "*" + k, (ty(),))
        if t == "(":
            eat(); a = []
            while peek() != ")":
                a.append(ty())
                if peek() == ",": eat()
            eat(")")
            return ("n", "()", tuple(a))
        if t == "[":
            eat(); x = ty()
            if peek() == ";":
                eat(); n = ty(); eat("]"); return ("n", "[;]", (x, n))
            eat("]"); return ("n", "[]", (x,))
        if t == "<":
            eat(); x = ty(); y = None
            if peek() == "as": eat(); y = ty()
            eat(">"); rest = []
            args = []
            while peek() == "::":
                eat()
                if peek() == "<":
                    args += generic()
                else:
                    rest.append(eat())
            return ("n", "<as>" + "::".join(rest), (x,) + ((y,) if y else ()) + tuple(args))
        if t in ("dyn", "impl"):
            eat(); parts = [ty()]
            while peek() == "+":
                eat()
                parts.append(ty())
            return ("n", t, tuple(parts))
        if t == "for":
            eat(); eat("<")
            while eat() != ">": pass
            return ty()
        if t is not None and t.startswith("'"):
            return ("n", eat(), ())
        if t in ("unsafe", "extern", "const"):
            eat(); return ty()
        if t == "fn":
            eat(); eat("("); a = []
            while peek() != ")":
                a.append(ty())
                if peek() == ",": eat()
            eat(")"); r = ("n", "()", ())
            if peek() == "->": eat(); r = ty()
            return ("n", "fn", tuple(a) + (r,))
        # path
        name = [eat()]
        args = []
        while peek() in ("::", "<", "("):
            if peek() == "::":
                eat()
                if peek() == "<": args += generic(); continue
                name.append(eat())
            elif peek() == "<":
                args += generic()
            else:
                if name[-1] in ("Fn", "FnMut", "FnOnce"):
                    eat(); a = []
                    while peek() != ")":
                        a.append(ty())
                        if peek() == ",": eat()
                    eat(")"); r = ("n", "()", ())
                    if peek() == "->": eat(); r = ty()
                    return ("n", "::".join(name), (("n", "()", tuple(a)), r))
                break
        return ("n", "::".join(name), tuple(args))

    def generic():
        eat("<"); a = []
        while peek() != ">":
            x = ty()
            if peek() == "=":
                eat(); y = ty(); x = ("n", "=" + x[1], (y,))
            a.append(x)
            if peek() == ",": eat()
        eat(">")
        return a

    try:
        r = ty()
        if pos != len(toks):
            return ("n", s, ())
        return r
    except (ValueError, IndexError):
        return ("n", s, ())


@lru_cache(maxsize=None)
def show(t):
    n, a = t[1], t[2]
    if n in ("&", "&mut"): return n + (" " if n == "&mut" else "") + show(a[0])
    if n == "()": return "(" + ", ".join(map(show, a)) + ("," if len(a) == 1 else "") + ")"
    if n == "[]": return "[" + show(a[0]) + "]"
    if n == "[;]": return "[" + show(a[0]) + "; " + show(a[1]) + "]"
    if n.startswith("<as>"):
        return "<" + " as ".join(map(show, a[:2])) + ">" + ("::" + n[4:] if n[4:] else "")
    if n.startswith("="): return n[1:] + " = " + show(a[0])
    if n in ("dyn", "impl"): return n + " " + " + ".join(map(show, a))
    return n + ("<" + ", ".join(map(show, a)) + ">" if a else "")


def subst(t, m):
    if not m: return t
    if not t[2]:
        return m.get(t[1], t)
    return ("n", t[1], tuple(subst(x, m) for x in t[2]))


def match(pat, t, gen, m):
    """one-way match of pattern with generic names `gen`"""
    if not pat[2] and pat[1] in gen:
        if pat[1] in m: return m[pat[1]] == t
        m[pat[1]] = t
        return True
    return pat[1] == t[1] and len(pat[2]) == len(t[2]) and all(match(a, b, gen, m) for a, b in zip(pat[2], t[2]))


def params(t, names):
    if not t[2]: return {t[1]} & names
    r = set()
    for x in t[2]: r |= params(x, names)
    return r
