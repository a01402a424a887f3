"""Abstract interpretation of MIR over classes of numbers: NaN, infinities, negative, zero, (0,1), one, above one.

eval(body, args) returns the abstract result of a body whose arguments lie in given classes; branches that those classes
rule out are not followed. None means nothing is known. Values:
  ("f", atoms)  number in one of the classes      ("k", c)   that very number        ("b", {True, False})  boolean
  ("v", ((variant, fields), ...))  enum value      ("t", ((name, value), ...))  struct, tuple or array
  ("s", element, nonempty)  slice, vector or iterator    ("c", closure id, captures)    ("r", local)  pointer to a local
"""
import math, re
from mir import pl, callee, succs

INF = math.inf
# class -> interval (lo, hi, lo open, hi open)
ATOM = {"-": (-INF, 0.0, True, True), "0": (0.0, 0.0, False, False), "p": (0.0, 1.0, True, True), "1": (1.0, 1.0, False, False), "P": (1.0, INF, True, True)}
SPECIAL = ("nan", "inf", "-inf")
FINITE = frozenset(ATOM); POS = frozenset("p1P"); ALL = FINITE | set(SPECIAL)
BOTH = ("b", frozenset([True, False])); TRUE = ("b", frozenset([True])); FALSE = ("b", frozenset([False]))
BOTTOM = ("bottom",)
PANIC = object()


def F(*a): return ("f", frozenset(a))


def atom(c):
    if c != c: return "nan"
    if c in (INF, -INF): return "inf" if c > 0 else "-inf"
    return "-" if c < 0 else "0" if c == 0 else "p" if c < 1 else "1" if c == 1 else "P"


def num(v): return isinstance(v, tuple) and v[0] in ("f", "k")
def atoms(v): return v[1] if v[0] == "f" else frozenset([atom(v[1])])


def pieces(v):
    """the finite intervals of a number"""
    if v[0] == "k": return [(v[1], v[1], False, False)] if abs(v[1]) < INF else []
    return [ATOM[a] for a in v[1] if a in ATOM]


def overlap(iv, a):
    lo, hi, ol, oh = iv; l, h, xl, xh = ATOM[a]
    if hi < l or h < lo: return False
    if hi == l: return not (oh or xl)
    if h == lo: return not (xh or ol)
    return True


def from_intervals(ivs, extra=()):
    s = {a for iv in ivs for a in ATOM if overlap(iv, a)} | set(extra)
    return ("f", frozenset(s)) if s else None


def join(a, b):
    if a is BOTTOM: return b
    if b is BOTTOM: return a
    if a == b: return a
    if a is None or b is None: return None
    if num(a) and num(b): return ("f", atoms(a) | atoms(b))
    if listlike(a) and listlike(b) and (a[0] == "s" or b[0] == "s" or {n for n, x in a[1]} != {n for n, x in b[1]}):
        x, y = aslist(a), aslist(b)
        return ("s", join(x[1], y[1]), min(x[2], y[2]))
    if a[0] != b[0]: return None
    if a[0] == "b": return ("b", a[1] | b[1])
    if a[0] == "v":
        d = dict(a[1])
        for i, fs in b[1]: d[i] = joinf(d[i], fs) if i in d else fs
        return ("v", tuple(sorted(d.items(), key=lambda x: x[0])))
    if a[0] == "t":
        if listlike(a) and listlike(b):
            y = dict(b[1]); return ("t", tuple((n, join(v, y[n])) for n, v in a[1]))
        return ("t", joinf(a[1], b[1]))
    return None


def listlike(v): return v[0] == "s" or v[0] == "t" and all(n.isdigit() for n, x in v[1])


def aslist(v):
    """a list with known elements as a list of like elements"""
    if v[0] == "s": return v
    r = BOTTOM
    for n, x in v[1]: r = join(r, x)
    return ("s", r, bool(v[1]))


def joinf(x, y):
    x, y = dict(x), dict(y)
    return tuple(sorted((k, join(x[k], y[k])) for k in x if k in y and join(x[k], y[k]) is not None))


def joinenv(x, y):
    out = {}
    for l, v in x.items():
        o = y.get(l)
        if v == o: out[l] = v
        elif o is not None and v[0] != "r" and o[0] != "r":
            w = join(v, o)
            if w is not None: out[l] = w
    return out


def field(v, n):
    if not isinstance(v, tuple): return None
    if v[0] == "t": return dict(v[1]).get(n)
    if v[0] == "c": return v[2][int(n)] if n.isdigit() and int(n) < len(v[2]) else None
    return None


def variant(v, i):
    if isinstance(v, tuple) and v[0] == "v":
        for j, fs in v[1]:
            if j == i: return ("t", fs)
        return BOTTOM
    return None


def elem(v):
    if not isinstance(v, tuple): return None
    if v[0] == "s": return v[1]
    if v[0] == "t":
        r = BOTTOM
        for n, x in v[1]: r = join(r, x)
        return None if r is BOTTOM else r
    return None


def compare(op, x, y):
    """three-valued comparison of two abstract numbers"""
    if x is None and y is None or x is not None and not num(x) or y is not None and not num(y): return BOTH
    ax = atoms(x) if x is not None else ALL; ay = atoms(y) if y is not None else ALL
    out = set()
    if "nan" in ax or "nan" in ay: out.add(op == "Ne")
    if x is None or y is None:
        if (ax - {"nan"}) and (ay - {"nan"}): out |= {True, False}
        return ("b", frozenset(out))
    def ivs(v): return pieces(v) + [(INF, INF, False, False)] * ("inf" in atoms(v)) + [(-INF, -INF, False, False)] * ("-inf" in atoms(v))
    for a in ivs(x):
        for b in ivs(y): out |= rel(op, a, b)
    return ("b", frozenset(out)) if out else BOTH


def rel(op, a, b):
    if op == "Gt": return rel("Lt", b, a)
    if op == "Ge": return rel("Le", b, a)
    if op == "Ne": return {not x for x in rel("Eq", a, b)}
    point = a[0] == a[1] and b[0] == b[1]
    if op == "Lt":
        if point: return {a[0] < b[0]}
        if a[1] < b[0] or a[1] == b[0]:
            # values of a stay below those of b unless both ends are reached
            if a[1] < b[0] or a[3] or b[2]: return {True}
            return {True, False}
        if a[0] >= b[1]: return {False}
        return {True, False}
    if op == "Le":
        if point: return {a[0] <= b[0]}
        if a[1] <= b[0]: return {True}
        if a[0] > b[1] or a[0] == b[1] and (a[2] or b[3]): return {False}
        return {True, False}
    if op == "Eq":
        if point: return {a[0] == b[0]}
        lo, hi = max(a[0], b[0]), min(a[1], b[1])
        if lo > hi: return {False}
        if lo == hi and ((lo == a[0] and a[2] and lo != a[1]) or (lo == b[0] and b[2] and lo != b[1]) or (hi == a[1] and a[3] and hi != a[0]) or (hi == b[1] and b[3] and hi != b[0])): return {False}
        return {True, False}
    return {True, False}


def neg(v):
    if not num(v): return None
    if v[0] == "k": return ("k", -v[1])
    s = set()
    for a in v[1]:
        s |= {"nan": {"nan"}, "inf": {"-inf"}, "-inf": {"inf"}, "0": {"0"}, "-": POS}.get(a, {"-"})
    return ("f", frozenset(s))


def absolute(v):
    if not num(v): return None
    if v[0] == "k": return ("k", abs(v[1]))
    s = set()
    for a in v[1]: s |= {"-": POS, "-inf": {"inf"}}.get(a, {a})
    return ("f", frozenset(s))


def arith(op, x, y):
    """+ - * / % on abstract numbers; overflow and underflow of finite numbers are left out"""
    if x is None and y is None: return None
    if (x is not None and not num(x)) or (y is not None and not num(y)): return None
    ax = atoms(x) if x is not None else None; ay = atoms(y) if y is not None else None
    if ax == {"nan"} or ay == {"nan"}: return F("nan")
    if x is None or y is None:
        k = ax or ay
        if k <= set(SPECIAL):
            if op == "Div" and ax is None: return None      # finite over infinite
            return F("nan", "inf", "-inf")
        return None
    if x[0] == "k" and y[0] == "k":
        a, b = x[1], y[1]
        try: return ("k", {"Add": lambda: a + b, "Sub": lambda: a - b, "Mul": lambda: a * b, "Div": lambda: a / b, "Rem": lambda: math.fmod(a, b)}[op]())
        except (ZeroDivisionError, KeyError, ValueError, OverflowError): pass
    out = set(); ivs = []
    for a in ax:
        for b in ay:
            r = special(op, a, b)
            if r is not None: out |= r; continue
            p = ATOM[a] if x[0] == "f" else (x[1], x[1], False, False)
            q = ATOM[b] if y[0] == "f" else (y[1], y[1], False, False)
            iv = interval(op, p, q)
            if iv is None: out |= ALL
            else: ivs.append(iv)
    return from_intervals(ivs, out)


def sign(a): return -1 if a in ("-", "-inf") else 0 if a == "0" else 1


def special(op, a, b):
    if a == "nan" or b == "nan": return {"nan"}
    ia, ib = a in ("inf", "-inf"), b in ("inf", "-inf")
    if op == "Sub": op, b, ib = "Add", {"inf": "-inf", "-inf": "inf"}.get(b, b), ib
    if op == "Add":
        if ia and ib: return {a} if a == b else {"nan"}
        return {a} if ia else {b} if ib else None
    if op == "Mul":
        if ia or ib:
            s = sign(a) * sign(b)
            return {"nan"} if s == 0 else {"inf"} if s > 0 else {"-inf"}
        return None
    if op == "Div":
        if ia and ib: return {"nan"}
        if ib: return {"0"}
        if ia: return {"inf", "-inf"} if b == "0" else {"inf"} if sign(a) * sign(b) > 0 else {"-inf"}
        if b == "0": return {"nan"} if a == "0" else {"inf", "-inf"}
        return None
    if op == "Rem":
        return {"nan"} if ia or b == "0" else None
    return None


def interval(op, p, q):
    a, b, oa, ob = p; c, d, oc, od = q
    if op == "Add": return (a + c, b + d, oa or oc, ob or od)
    if op == "Sub": return (a - d, b - c, oa or od, ob or oc)
    if op == "Div":
        if c <= 0.0 <= d and not (c == 0.0 and oc or d == 0.0 and od): return None
        inv = lambda z, o: (INF if c >= 0 else -INF) if z == 0 else 0.0 if abs(z) == INF else 1.0 / z
        q = (inv(d, od), inv(c, oc), od, oc); op = "Mul"; c, d, oc, od = q
    if op == "Mul":
        ends = []
        for x, ox in ((a, oa), (b, ob)):
            for y, oy in ((c, oc), (d, od)):
                z = 0.0 if x == 0 or y == 0 else x * y
                o = ox or oy
                if z == 0 and (x == 0 and not ox or y == 0 and not oy): o = False
                ends.append((z, o))
        lo = min(z for z, o in ends); hi = max(z for z, o in ends)
        return (lo, hi, all(o for z, o in ends if z == lo), all(o for z, o in ends if z == hi))
    if op == "Rem": return None
    return None


def scaled(v):
    """v times an unknown positive factor"""
    if not num(v): return None
    s = set()
    for a in atoms(v): s |= POS if a in POS else {a}
    return ("f", frozenset(s))


EXACT = {"abs": abs, "neg": lambda x: -x, "sqrt": math.sqrt, "floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "sin": math.sin, "cos": math.cos, "tan": math.tan, "to_radians": math.radians, "to_degrees": math.degrees}


def unary(n, v):
    if not num(v): return None
    a = atoms(v)
    if v[0] == "k" and abs(v[1]) < 1e15 and n in EXACT:
        try: return ("k", float(EXACT[n](v[1])))
        except ValueError: return F("nan")
    if n == "abs": return absolute(v)
    if n == "neg": return neg(v)
    if n == "sqrt":
        s = set()
        for z in a: s |= {"-": {"nan"}, "-inf": {"nan"}}.get(z, {z})
        return ("f", frozenset(s))
    if n in ("to_radians", "to_degrees", "cbrt"): return scaled(v)
    if n in ("floor", "ceil", "round", "trunc"):
        s = set()
        for z in a: s |= {"-": {"-", "0"}, "p": {"0", "1"}, "P": {"1", "P"}}.get(z, {z})
        return ("f", frozenset(s))
    if n == "recip": return arith("Div", ("k", 1.0), v)
    if n == "exp":
        s = set()
        for z in a: s |= {"nan": {"nan"}, "inf": {"inf"}, "-inf": {"0"}, "0": {"1"}, "-": {"p", "0"}}.get(z, {"P"})
        return ("f", frozenset(s))
    if a <= {"nan"}: return F("nan")
    if n in ("sin", "cos", "tan") and a <= set(SPECIAL): return F("nan")
    if n in ("ln", "log10", "log2", "acos", "asin", "atanh", "signum", "fract", "sin", "cos", "tan", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "ln_1p", "exp_m1", "to_bits"): return None
    return None


def extreme(n, x, y):
    """f64::min and f64::max: a NaN operand is ignored"""
    if x is None or y is None or not num(x) or not num(y): return None
    ax, ay = atoms(x), atoms(y); out = set(); ivs = []
    for a in ax:
        for b in ay:
            if a == "nan": out.add(b); continue
            if b == "nan": out.add(a); continue
            iv = lambda z, v: (INF, INF, False, False) if z == "inf" else (-INF, -INF, False, False) if z == "-inf" else ATOM[z] if v[0] == "f" else (v[1], v[1], False, False)
            p, q = iv(a, x), iv(b, y); f = max if n == "max" else min
            lo, hi = f(p[0], q[0]), f(p[1], q[1])
            for z in ATOM:
                if lo == hi == INF or lo == hi == -INF: continue
                ol = p[2] if lo == p[0] and lo != q[0] else q[2] if lo == q[0] and lo != p[0] else (p[2] and q[2] if n == "min" else p[2] or q[2])
                oh = p[3] if hi == p[1] and hi != q[1] else q[3] if hi == q[1] and hi != p[1] else (p[3] or q[3] if n == "min" else p[3] and q[3])
                if overlap((lo, hi, ol, oh), z): out.add(z)
            if hi == INF and (p[1] == INF and not p[3] or q[1] == INF and not q[3]): out.add("inf")
            if lo == -INF and (p[0] == -INF and not p[2] or q[0] == -INF and not q[2]): out.add("-inf")
    return ("f", frozenset(out)) if out else None


THROUGH = {"value", "raw", "get", "into", "from", "clone", "cloned", "copied", "deref", "deref_mut", "borrow", "as_ref", "to_owned", "as_mut", "from_output", "as_slice", "black_box", "new_const", "into_inner", "must_use", "as_deref"}
CMP = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge", "eq": "Eq", "ne": "Ne"}
OPS = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem"}
WRAP = re.compile(r"(Quantity|DragCoefficient|SrpCoefficient|Coefficient|Time)\b.*::(new|try_new|new_const|from)$")


class Eval:
    def __init__(self, db, limit=4000, split=24):
        self.split = split; self.lives = {}; self.fns = {}
        self.db = db; self.memo = {}; self.stack = []; self.limit = limit; self.steps = 0

    # ---- places ----
    def place(self, b, env, p):
        l, pr = pl(p); v = env.get(l)
        if isinstance(v, tuple) and v[0] == "r" and (not pr or pr[0] != "*"): return v if not pr else self.walk(env, env.get(v[1]), pr)
        return self.walk(env, v, pr)

    def walk(self, env, v, pr):
        for e in pr:
            if e == "*":
                n = 0
                while isinstance(v, tuple) and v[0] == "r" and n < 8: v = env.get(v[1]); n += 1
                continue
            if e[0] == "as": v = variant(v, e[1])
            elif e[0] == ".": v = field(v, e[2]) if not num(v) else v
            elif e[0] == "[]":
                i = self.deref(env, env.get(e[1]))
                x = field(v, str(int(i[1]))) if isinstance(i, tuple) and i[0] == "k" and isinstance(v, tuple) and v[0] == "t" else None
                v = x if x is not None else elem(v)
            elif e[0] == "[s]": pass
            elif e[0] == "[c]":
                x = field(v, str(e[1])) if len(e) > 1 and not (len(e) > 3 and e[3]) else None
                v = x if x is not None else elem(v)
            if v is None or v is BOTTOM: return v
        return v

    def op(self, b, env, o):
        if o[0] != "k": return self.place(b, env, o[1])
        k = o[1]
        if "f" in k or "i" in k:
            try: return ("k", float(k.get("f", k.get("i"))))
            except (TypeError, ValueError): return None
        if "b" in k: return ("b", frozenset([bool(k["b"])]))
        if "promoted" in k:
            pb = self.db.bodies.get(f"{k['def']}::promoted[{k['promoted']}]")
            return self.run(pb, ()) if pb is not None else None
        if "def" in k:
            cb = self.db.bodies.get(k["def"])
            return self.run(cb, ()) if cb is not None and cb.kind == "const" else None
        if "fn" in k:
            self.fns[k["fn"].get("id")] = k["fn"]; return ("c", k["fn"].get("id"), ())
        return None

    def rvalue(self, b, env, r):
        k = r[0]
        if k == "use": return self.op(b, env, r[1])
        if k in ("ref", "raw"):
            l, pr = pl(r[2])
            v = env.get(l)
            if not pr: return ("r", l)
            if list(pr) == ["*"] and isinstance(v, tuple) and v[0] == "r": return v
            v = self.place(b, env, r[2])
            if r[1] == "mut" and v is not None: self.store(b, env, r[2], None)      # changed behind our back from here on
            return v
        if k == "cast":
            if r[1] == "BoxDerefTransmute": return ("r", pl(r[2][1])[0])        # the allocation behind `vec![..]`
            v = self.deref(env, self.op(b, env, r[2]))
            if r[1] in ("FloatToInt",):
                return ("k", float(int(v[1]))) if v and v[0] == "k" and abs(v[1]) < 1e18 else None
            if r[1] in ("IntToFloat", "IntToInt", "FloatToFloat"): return v if num(v) else None
            return self.op(b, env, r[2])
        if k == "bin":
            x, y = (self.deref(env, self.op(b, env, z)) for z in r[2:4]); o = r[1]
            if o in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
                if x and y and x[0] == y[0] == "b": return BOTH
                return compare(o, x, y)
            if o in ("BitAnd", "BitOr", "BitXor") and x and y and x[0] == y[0] == "b":
                f = {"BitAnd": lambda a, c: a and c, "BitOr": lambda a, c: a or c, "BitXor": lambda a, c: a != c}[o]
                return ("b", frozenset(f(a, c) for a in x[1] for c in y[1]))
            if o in ("BitAnd", "BitOr"):
                z = x if x and x[0] == "b" else y if y and y[0] == "b" else None
                if z is not None and z == (FALSE if o == "BitAnd" else TRUE): return z
                return None
            w = o.replace("WithOverflow", "").replace("Unchecked", "")
            if w in OPS.values():
                v = arith(w, x, y)
                return ("t", (("0", v), ("1", FALSE))) if o.endswith("WithOverflow") and v is not None else v
            return None
        if k == "un":
            v = self.deref(env, self.op(b, env, r[2]))
            if r[1] == "Not" and v and v[0] == "b": return ("b", frozenset(not z for z in v[1]))
            if r[1] == "Neg": return neg(v) if v else None
            return None
        if k == "discr":
            v = self.deref(env, self.place(b, env, r[1]))
            if not isinstance(v, tuple) or v[0] != "v": return None
            if self.ptype(b, r[1]) == "core::cmp::Ordering": return ("d", frozenset({0: 255, 1: 0, 2: 1}[i] for i, fs in v[1]))
            return ("d", frozenset(i for i, fs in v[1]))
        if k == "agg":
            raw = [self.op(b, env, o) for o in r[2]]; vs = [self.deref(env, v) for v in raw]; h = r[1]
            for v, o in zip(raw, r[2]):
                if isinstance(v, tuple) and v[0] == "r" and o[0] != "k" and b.ty(pl(o[1])[0]).startswith("&mut"): env[v[1]] = None
            if h[0] == "closure": return ("c", h[1], tuple(vs))
            if h[0] in ("tuple", "array"): return ("t", tuple((str(i), v) for i, v in enumerate(vs)))
            if h[0] == "adt":
                names = h[5] if len(h) > 5 else [str(i) for i in range(len(vs))]
                fs = tuple(sorted((n, v) for n, v in zip(names, vs)))
                a = self.db.adts.get(h[1])
                en = a["kind"] == "Enum" if a else h[1].split("<")[0].split("::")[-1] != h[3]
                return ("v", ((h[2], fs),)) if en else ("t", fs)
            return None
        if k == "repeat":
            v = self.deref(env, self.op(b, env, r[1])); return ("s", v, True) if v is not None else None
        return None

    def ptype(self, b, p):
        """type of a place: Ordering is the one enum whose discriminants are not its variant numbers"""
        l, pr = pl(p); t = b.ty(l)
        if not pr: return t
        return "core::cmp::Ordering" if t.startswith("core::option::Option<core::cmp::Ordering>") and any(isinstance(e, (list, tuple)) and e[0] == "as" for e in pr) else t.lstrip("&") if list(pr) == ["*"] else None

    def deref(self, env, v):
        n = 0
        while isinstance(v, tuple) and v[0] == "r" and n < 8: v = env.get(v[1]); n += 1
        return v

    def store(self, b, env, p, v):
        l, pr = pl(p)
        if v is None or v == BOTTOM:
            v = None
        if not pr: env[l] = v; return
        if pr[0] == "*" and isinstance(env.get(l), tuple) and env[l][0] == "r":
            l = env[l][1]; pr = pr[1:]
            while pr and pr[0][0] == "." and len(pr[0]) > 3 and str(pr[0][3]).startswith(("core::mem::maybe_uninit", "core::mem::manually_drop")): pr = pr[1:]
        if not pr: env[l] = v; return
        old = env.get(l)
        if len(pr) == 1 and pr[0] != "*" and pr[0][0] == "." and isinstance(old, tuple) and old[0] == "t":
            d = dict(old[1]); d[pr[0][2]] = v; env[l] = ("t", tuple(sorted(d.items())))
        elif pr[0] != "*": env[l] = None if not isinstance(old, tuple) or old[0] != "s" else ("s", join(old[1], v), old[2])

    # ---- bodies ----
    def run(self, b, args):
        key = (b.id, tuple(args))
        if key in self.memo: return self.memo[key]
        if b.id in self.stack or len(self.stack) > 14: return None
        self.stack.append(b.id)
        try: r = self.body(b, args)
        finally: self.stack.pop()
        self.memo[key] = r
        return r

    def live(self, b):
        """locals each block may still read; locals whose address is taken stay live"""
        if b.id in self.lives: return self.lives[b.id]
        use, dfn = {}, {}; pinned = {0}
        def rd(p, u, d):
            l, pr = pl(p)
            for z in [l] + [e[1] for e in pr if isinstance(e, (list, tuple)) and e[0] == "[]"]:
                if z not in d: u.add(z)
        def ro(o, u, d):
            if o[0] != "k": rd(o[1], u, d)
        for x, bb in enumerate(b.blocks):
            u, d = set(), set(); use[x], dfn[x] = u, d
            if bb is None: continue
            for p, r, ln in bb[0]:
                k = r[0]
                if k in ("ref", "raw"):
                    rd(r[2], u, d)
                    if not pl(r[2])[1]: pinned.add(pl(r[2])[0])
                elif k == "discr": rd(r[1], u, d)
                else:
                    for o in (r[2] if k == "agg" else r[1:]):
                        if isinstance(o, (list, tuple)) and len(o) == 2 and o[0] in ("c", "m", "k", "mv", "cp", "copy", "move"): ro(o, u, d)
                l, pr = pl(p)
                if pr: u.add(l) if l not in d else None
                else: d.add(l)
            t = bb[1]
            if t[0] == "switch": ro(t[1], u, d)
            elif t[0] == "call":
                for o in t[2]: ro(o, u, d)
                if isinstance(t[1], (list, tuple)) and t[1] and t[1][0] != "k" and len(t[1]) == 2: ro(t[1], u, d)
            elif len(t) > 1 and isinstance(t[1], (list, tuple)) and len(t[1]) == 2 and t[1][0] != "k" and t[0] not in ("goto",):
                try: ro(t[1], u, d)
                except Exception: pass
        out = {x: set(use[x]) for x in use}; change = True
        while change:
            change = False
            for x in sorted(out, reverse=True):
                if b.blocks[x] is None: continue
                n = set(use[x])
                for s in succs(b.blocks[x]):
                    if b.blocks[s] is not None: n |= out[s] - dfn[x]
                if n != out[x]: out[x] = n; change = True
        self.lives[b.id] = {x: v | pinned for x, v in out.items()}
        return self.lives[b.id]

    def body(self, b, args):
        live = self.live(b)
        ins = {0: [{i + 1: a for i, a in enumerate(args) if a is not None}]}; merged = {}
        work = [(0, ins[0][0])]; ret = BOTTOM; order = {x: i for i, x in enumerate(b.rpo())}
        n = 0
        while work:
            n += 1
            if n > self.limit: return None
            k = max(range(len(work)), key=lambda z: -order.get(work[z][0], 0)); bi, env0 = work.pop(k)
            env = dict(env0); bb = b.blocks[bi]
            for p, r, ln in bb[0]: self.store(b, env, p, self.rvalue(b, env, r))
            t = bb[1]; outs = []
            if t[0] == "ret":
                v = self.deref(env, env.get(0)); ret = v if ret is BOTTOM else join(ret, v)
                if ret is None: return None
            elif t[0] == "switch": outs = self.targets(b, env, t)
            elif t[0] == "call":
                v = self.call(b, env, t)
                if v is not PANIC and t[4] is not None:
                    self.store(b, env, t[3], v); outs = [t[4]]
            else: outs = succs(bb)
            for s in outs:
                if b.blocks[s] is None: continue
                e = {l: v for l, v in env.items() if v is not None and l in live[s]}
                if s in merged:
                    w = joinenv(merged[s], e)
                    if w != merged[s]:
                        merged[s] = w; work = [x for x in work if x[0] != s] + [(s, w)]
                    continue
                seen = ins.setdefault(s, [])
                if e in seen: continue
                if len(seen) < self.split: seen.append(e); work.append((s, e)); continue
                w = e
                for o in seen: w = joinenv(w, o)
                merged[s] = w; work = [x for x in work if x[0] != s] + [(s, w)]
        return ret

    def targets(self, b, env, t):
        v = self.deref(env, self.op(b, env, t[1]))
        if v is None: return succs([None, t])
        if v[0] == "b": vals = {int(x) for x in v[1]}
        elif v[0] == "d": vals = set(v[1])
        elif v[0] == "k": vals = {int(v[1])} if v[1] == int(v[1]) else set()
        else: return succs([None, t])
        hit = {x[0]: x[1] for x in t[2]}
        out = [hit[x] for x in vals if x in hit]
        if any(x not in hit for x in vals): out.append(t[3])
        return list(dict.fromkeys(out))

    # ---- calls ----
    def call(self, b, env, t):
        d, r, rec = callee(t)
        raw = [self.op(b, env, a) for a in t[2]]
        args = [self.deref(env, a) for a in raw]
        if rec is None:
            return None
        n = d.split("::")[-1]; tr = rec.get("t", "") or ""; ga = " ".join(rec.get("a") or ())
        dest = b.ty(pl(t[3])[0]) if not pl(t[3])[1] else ""
        if any(a is BOTTOM or a == BOTTOM for a in args): return PANIC
        if n == "next" and raw and isinstance(raw[0], tuple) and raw[0][0] == "r": return self.next(env, raw[0][1])
        if d.startswith(("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque")) and (n in ("push", "push_back", "pop", "pop_back", "pop_front", "clear") and raw and isinstance(raw[0], tuple) and raw[0][0] == "r" or n in ("new", "with_capacity")):
            return self.grow(env, n, raw[0][1] if raw and n not in ("new", "with_capacity") else 0, args)
        v = self.known(b, d, n, tr, ga, args, rec, dest)
        if v is not NotImplemented: return v
        body = self.db.bodies.get(rec.get("id"))
        if body is not None and body.kind in ("fn", "depfn"):
            out = self.run(body, tuple(args[:body.argc]) + (None,) * (body.argc - len(args)))
            if out is BOTTOM: return PANIC
        else: out = None
        for a, o in zip(raw, t[2]):
            if isinstance(a, tuple) and a[0] == "r" and o[0] != "k" and b.ty(pl(o[1])[0]).startswith("&mut"): env[a[1]] = None
        return out

    def apply(self, c, args):
        """call of a closure or function value"""
        if not isinstance(c, tuple) or c[0] != "c": return None
        body = self.db.bodies.get(c[1])
        if body is None:
            rec = self.fns.get(c[1])
            if rec is None: return None
            d = rec.get("r") or rec["p"]
            v = self.known(None, d, d.split("::")[-1], rec.get("t", "") or "", " ".join(rec.get("a") or ()), list(args), rec, "")
            return None if v is NotImplemented or v is PANIC else v
        if body.kind == "closure":
            a = (c,) + tuple(args)
            return self.run(body, (a + (None,) * body.argc)[:body.argc])
        if body.kind == "fn": return self.run(body, (tuple(args) + (None,) * body.argc)[:body.argc])
        return None

    def next(self, env, l):
        v = self.deref(env, env.get(l))
        if not isinstance(v, tuple) or v[0] not in ("s", "t"): env[l] = None; return None
        if v[0] == "t" and {n for n, x in v[1]} == {"start", "end"}: return self.range_next(env, l, dict(v[1]))
        if v[0] == "t" and not all(n.isdigit() for n, x in v[1]): env[l] = None; return None
        if v[0] == "t":
            if not v[1]: return ("v", ((0, ()),))
            head = v[1][0][1]; env[l] = ("t", tuple((str(i), x) for i, (m, x) in enumerate(v[1][1:])))
            return ("v", ((1, (("0", head),)),))
        e = v[1]
        if e is BOTTOM or e == BOTTOM: return ("v", ((0, ()),))
        some = (1, (("0", e),))
        env[l] = ("s", e, False)
        return ("v", (some,)) if v[2] else ("v", ((0, ()), some))

    def grow(self, env, n, l, args):
        """vectors and queues built in the body"""
        if n in ("new", "with_capacity"): return ("t", ())
        if n == "clear": env[l] = ("t", ()); return ("t", ())
        v = args[0]
        if not isinstance(v, tuple) or not listlike(v): env[l] = None; return None
        if n.startswith("push"):
            if v[0] == "t" and len(v[1]) < 6: env[l] = ("t", v[1] + ((str(len(v[1])), args[1]),))
            else: x = aslist(v); env[l] = ("s", join(x[1], args[1]), True)
            return ("t", ())
        if n == "pop_front": return self.next(env, l)
        if v[0] == "s":
            env[l] = ("s", v[1], False); some = (1, (("0", v[1]),))
            return ("v", (some,)) if v[2] else ("v", ((0, ()), some))
        if not v[1]: return ("v", ((0, ()),))
        env[l] = ("t", v[1][:-1]); return ("v", ((1, (("0", v[1][-1][1]),)),))

    def range_next(self, env, l, r):
        i, e = r["start"], r["end"]
        c = compare("Lt", i, e)[1] if i is not None and e is not None else {True, False}
        env[l] = ("t", (("end", e), ("start", arith("Add", i, ("k", 1.0)) if i is not None else None)))
        return ("v", tuple(sorted([(1, (("0", i),))] * (True in c) + [(0, ())] * (False in c))))

    def known(self, b, d, n, tr, ga, args, rec, dest):
        x = args[0] if args else None; y = args[1] if len(args) > 1 else None
        crate = d.startswith("siderust::") or rec.get("id") in self.db.bodies
        if "<impl f64>" in d or "<impl f32>" in d or "Quantity" in d and not tr:
            if n == "is_finite": return self.test(x, lambda a: a not in SPECIAL)
            if n == "is_nan": return self.test(x, lambda a: a == "nan")
            if n in ("is_sign_negative", "is_sign_positive"):
                if x is None or not num(x) or atoms(x) & {"0", "nan"}: return BOTH
                return self.test(x, lambda a: (a in ("-", "-inf")) == (n == "is_sign_negative"))
            if n == "is_normal": return FALSE if x and num(x) and not atoms(x) & {"-", "p", "1", "P"} else BOTH
            if n == "classify" and x and num(x): return ("v", tuple((z, ()) for z in sorted({{"nan": 0, "inf": 1, "-inf": 1, "0": 2}.get(a, 4) for a in atoms(x)})))
            if n == "hypot":
                if x and y and num(x) and num(y) and atoms(x) == atoms(y) == {"0"}: return F("0")
                if any(v and num(v) and atoms(v) <= {"inf", "-inf"} for v in (x, y)): return F("inf")
                return F("nan", "inf") if any(v and num(v) and atoms(v) <= set(SPECIAL) for v in (x, y)) else None
            if n == "is_infinite": return self.test(x, lambda a: a in ("inf", "-inf"))
            if n in ("min", "max") and len(args) == 2: return extreme(n, x, y)
            if n == "clamp" and len(args) == 3: return F("nan") if x and num(x) and atoms(x) == {"nan"} else None
            if n == "powi":
                if x and num(x) and y and y[0] == "k" and y[1] == 2: return arith("Mul", absolute(x), absolute(x))
                return F("nan") if x and num(x) and atoms(x) == {"nan"} else None
            if n == "mul_add" and len(args) == 3:
                return arith("Add", arith("Mul", x, y), args[2])
            if n in ("to", "to_const"): return scaled(x) if x else None
            if n in ("value", "raw", "new", "new_const", "value_mut") and len(args) == 1: return x if x is None or num(x) or x[0] == "t" else None
            if n in OPS and len(args) == 2: return arith(OPS[n], x, y)
            if len(args) == 1:
                v = unary(n, x) if x else None
                return v
            if n in ("atan2", "powf", "rem_euclid", "div_euclid", "copysign"):
                return F("nan") if any(a and num(a) and atoms(a) == {"nan"} for a in args) and n != "copysign" else None
        if n == "partial_cmp" and tr == "core::cmp::PartialOrd" and (x is None or num(x)) and (y is None or num(y)) and (x or y):
            out = {}; o = [(z, ()) for z, c in ((0, "Lt"), (1, "Eq"), (2, "Gt")) if True in compare(c, x, y)[1]]
            if o: out[1] = (("0", ("v", tuple(o))),)
            if any(v is None or "nan" in atoms(v) for v in (x, y)): out[0] = ()
            return ("v", tuple(sorted(out.items())))
        if d.startswith("core::cmp::Ordering") and len(args) == 1 and isinstance(x, tuple) and x[0] == "v":
            t = {"is_lt": {0}, "is_le": {0, 1}, "is_gt": {2}, "is_ge": {1, 2}, "is_eq": {1}, "is_ne": {0, 2}}.get(n)
            if t is not None: return ("b", frozenset(i in t for i, fs in x[1]))
        if tr == "core::cmp::PartialEq" and n in ("eq", "ne") and all(isinstance(v, tuple) and v[0] == "v" for v in (x, y)):
            r = same(x, y); return ("b", frozenset(z if n == "eq" else not z for z in r))
        if tr.startswith("core::cmp::Partial") and n in CMP:
            if rec.get("id") in self.db.bodies: return NotImplemented
            return compare(CMP[n], x, y)
        if tr.startswith("core::ops::arith") and n in OPS and not (rec.get("id") in self.db.bodies and self.db.bodies[rec["id"]].kind == "fn"):
            return arith(OPS[n], x, y)
        if n == "neg" and tr.startswith("core::ops"): return neg(x) if x else None
        if n == "branch" and tr.endswith("Try"):
            if not isinstance(x, tuple) or x[0] != "v": return None
            opt = ga.startswith("core::option")
            out = {}
            for i, fs in x[1]:
                if opt: out[0 if i == 1 else 1] = fs if i == 1 else ()
                else: out[i] = fs
            return ("v", tuple(sorted(out.items())))
        if n == "from_residual": return ("v", ((0 if dest.startswith("core::option") else 1, ()),))
        isopt = d.startswith("core::option::Option"); isres = d.startswith("core::result::Result")
        if isopt or isres: return self.optres(n, isopt, args, x, y)
        if n.startswith("classify_eccentricity") and x is not None and num(x):
            a = atoms(x)
            return ("v", tuple((k, ()) for k in sorted({{"0": 0, "p": 0, "1": 1}.get(z, 2) for z in a})))      # Elliptic, Parabolic, Hyperbolic
        if n == "contains" and "range" in d:
            rng = x
            lo, hi = field(rng, "start"), field(rng, "end")
            incl = "RangeInclusive" in d
            if "RangeFrom" in d: return compare("Ge", y, lo)
            if "RangeTo" in d: return compare("Le" if incl or "ToInclusive" in d else "Lt", y, hi)
            a, c = compare("Ge", y, lo), compare("Le" if incl else "Lt", y, hi)
            return ("b", frozenset(p and q for p in a[1] for q in c[1]))
        if d.endswith("RangeInclusive::<Idx>::new"): return ("t", (("end", y), ("start", x)))
        if n in ("call", "call_mut", "call_once") and tr.startswith("core::ops::function"):
            a = [v for m, v in y[1]] if isinstance(y, tuple) and y[0] == "t" else []
            return self.apply(x, a)
        if n == "then" and d.startswith("core::bool"):
            if x and x[0] == "b":
                return ("v", tuple(((1, (("0", self.apply(y, [])),)) if z else (0, ())) for z in sorted(x[1])))
            return None
        if n == "then_some" and d.startswith("core::bool"):
            if x and x[0] == "b": return ("v", tuple(((1, (("0", y),)) if z else (0, ())) for z in sorted(x[1])))
            return None
        if n in ("iter", "into_iter", "iter_mut", "as_slice", "to_vec", "as_mut_slice", "rev", "cloned", "copied", "by_ref", "deref", "to_owned", "clone", "into_vec", "into_boxed_slice", "as_ref", "collect", "peekable", "borrow", "box_assume_init_into_vec_unsafe"):
            if isinstance(x, tuple) and x[0] in ("s", "t", "f", "k", "v", "b"):
                if n == "rev" and x[0] == "t": return ("t", tuple((str(i), v) for i, (m, v) in enumerate(reversed(x[1]))))
                return x
        if n == "filter" and tr.endswith("Iterator") and isinstance(x, tuple) and listlike(x):
            vs = [v for m, v in x[1]] if x[0] == "t" else [x[1]]
            rs = [self.apply(y, [v]) for v in vs]; rs = [r[1] if isinstance(r, tuple) and r[0] == "b" else {True, False} for r in rs]
            if all(r == {False} for r in rs): return ("t", ())
            if all(len(r) == 1 for r in rs): return x if x[0] == "s" else ("t", tuple((str(i), v) for i, v in enumerate(v for v, r in zip(vs, rs) if True in r)))
            e = BOTTOM
            for v, r in zip(vs, rs): e = join(e, v) if True in r else e
            return ("s", e, x[0] == "t" and any(r == {True} for r in rs))
        if n in ("skip", "take", "step_by", "skip_while", "take_while") and tr.endswith("Iterator") and isinstance(x, tuple) and listlike(x):
            if x[0] == "t" and n in ("skip", "take") and y and y[0] == "k": return ("t", tuple((str(i), v) for i, (m, v) in enumerate(x[1][int(y[1]):] if n == "skip" else x[1][:int(y[1])])))
            z = aslist(x); return ("s", z[1], False)
        if n == "windows" and isinstance(x, tuple) and x[0] == "t" and listlike(x) and y and y[0] == "k":
            w = int(y[1]); vs = [v for m, v in x[1]]
            return ("t", tuple((str(i), ("t", tuple((str(q), v) for q, v in enumerate(vs[i:i + w])))) for i in range(len(vs) - w + 1)))
        if n == "enumerate":
            if isinstance(x, tuple) and x[0] == "s": return ("s", ("t", (("0", None), ("1", x[1]))), x[2])
            if isinstance(x, tuple) and x[0] == "t": return ("t", tuple((i, ("t", (("0", ("k", float(i))), ("1", v)))) for i, v in x[1]))
            return None
        if n == "zip" and isinstance(x, tuple) and x[0] == "s":
            return ("s", ("t", (("0", x[1]), ("1", elem(self.plain(y))))), x[2] and isinstance(y, tuple) and y[0] == "s" and y[2])
        if n == "contains" and "slice" in d and isinstance(x, tuple) and x[0] in ("t", "s"):
            def eq(v):
                if isinstance(v, tuple) and isinstance(y, tuple) and v[0] == y[0] == "b": return {True} if v == y and len(v[1]) == 1 else {False} if not v[1] & y[1] else {True, False}
                return set(compare("Eq", v, y)[1])
            rs = [eq(v) for m, v in x[1]] if x[0] == "t" else [eq(x[1])]
            if rs and any(r == {True} for r in rs) and (x[0] == "t" or x[2]): return TRUE
            return FALSE if all(r == {False} for r in rs) else BOTH
        if n == "try_for_each" and tr.endswith("Iterator") and isinstance(x, tuple) and x[0] in ("t", "s"):
            rs = [self.apply(y, [v]) for v in ([v for m, v in x[1]] if x[0] == "t" else [x[1]])]
            bad = 0 if dest.startswith("core::option") else 1
            if any(isinstance(r, tuple) and r[0] == "v" and {i for i, fs in r[1]} == {bad} for r in rs) and (x[0] == "t" or x[2]): return ("v", ((bad, ()),))
            return None
        if n == "map" and ("core::array" in d or tr.endswith("Iterator")):
            if isinstance(x, tuple) and x[0] == "s": return ("s", self.apply(y, [x[1]]), x[2])
            if isinstance(x, tuple) and x[0] == "t": return ("t", tuple((i, self.apply(y, [v])) for i, v in x[1]))
            return None
        if n in ("sum", "product", "fold") and tr.endswith("Iterator") and isinstance(x, tuple) and x[0] in ("t", "s"):
            acc = ("k", 0.0 if n == "sum" else 1.0) if n != "fold" else y
            step = (lambda a, v: arith("Add" if n == "sum" else "Mul", a, v)) if n != "fold" else (lambda a, v: self.apply(args[2], [a, v]))
            if x[0] == "t":
                for m, v in x[1]: acc = step(acc, v)
                return acc
            if not x[2]: return None
            acc = step(acc, x[1])
            for z in range(6):
                nx = join(acc, step(acc, x[1]))
                if nx == acc: return acc
                acc = nx
            return None
        if n in ("any", "all", "find", "position") and tr.endswith("Iterator"):
            return self.scan(n, x, y)
        if n in ("first", "last") and "slice" in d and isinstance(x, tuple) and x[0] in ("t", "s"):
            if x[0] == "t": return ("v", ((1, (("0", x[1][0 if n == "first" else -1][1]),)),)) if x[1] else ("v", ((0, ()),))
            return ("v", ((0, ()),) * (not x[2]) + ((1, (("0", x[1]),)),))
        if n == "len" and isinstance(x, tuple) and x[0] == "t" and all(m.isdigit() for m, v in x[1]): return ("k", float(len(x[1])))
        if n in ("chunks_exact", "chunks") and isinstance(x, tuple) and x[0] == "t" and y and y[0] == "k" and y[1] > 0:
            c = int(y[1]); vs = [v for m, v in x[1]]
            gs = [vs[z:z + c] for z in range(0, len(vs), c) if n == "chunks" or z + c <= len(vs)]
            return ("t", tuple((str(z), ("t", tuple((str(q), v) for q, v in enumerate(g)))) for z, g in enumerate(gs)))
        if n == "is_empty" and isinstance(x, tuple) and x[0] == "t": return TRUE if not x[1] else FALSE
        if n == "len" and isinstance(x, tuple) and x[0] == "s" and x[2]: return F("P") if x[2] == 2 else F("1", "P")
        if n == "index" and tr == "core::ops::index::Index" and isinstance(x, tuple) and x[0] in ("s", "t") and (y is None or num(y)):
            return field(x, str(int(y[1]))) if x[0] == "t" and y and y[0] == "k" else elem(x)
        if n == "is_empty" and isinstance(x, tuple) and x[0] == "s" and x[2]: return FALSE
        if d.startswith("tempoch") or WRAP.search(d):
            # instants behave as the number they carry, as far as NaN and infinities go
            if n in ("try_new", "new") and x is not None and num(x):
                if atoms(x) & set(SPECIAL) == atoms(x) and n == "try_new": return ("v", ((1, ()),))
                return x if n == "new" else ("v", ((0, (("0", x),)), (1, ())))
            if n in ("value", "raw", "clone"): return x if x is None or num(x) else None
            if n in ("to", "to_j2000s") and x is not None and num(x): return ("f", atoms(x)) if atoms(x) <= set(SPECIAL) else None
        if n in THROUGH and len(args) == 1 and not crate: return x
        return NotImplemented

    def plain(self, v): return v

    def test(self, x, f):
        if x is None or not num(x): return BOTH
        return ("b", frozenset(f(a) for a in atoms(x)))

    def scan(self, n, x, f):
        items = [v for m, v in x[1]] if isinstance(x, tuple) and x[0] == "t" else [x[1]] if isinstance(x, tuple) and x[0] == "s" else None
        if items is None: return BOTH if n in ("any", "all") else None
        nonempty = x[0] == "t" and bool(items) or x[0] == "s" and x[2]
        res = [self.apply(f, [v]) for v in items]
        res = [r if isinstance(r, tuple) and r[0] == "b" else BOTH for r in res]
        want = n != "all"
        hit = nonempty and any(r[1] == {want} for r in res)
        miss = all(r[1] == {not want} for r in res)
        if n in ("any", "all"):
            return ("b", frozenset([want] if hit else [not want] if miss else [True, False]))
        e = (1, (("0", elem(x)),))
        if n == "position": e = (1, ())
        return ("v", (e,)) if hit else ("v", ((0, ()),)) if miss else ("v", ((0, ()), e))

    def optres(self, n, isopt, args, x, y):
        if not isinstance(x, tuple) or x[0] != "v":
            return NotImplemented if False else None
        good = 1 if isopt else 0; vs = dict(x[1])
        ok = vs.get(good); bad = (1 - good) in vs
        pay = dict(ok).get("0") if ok is not None else None
        def make(g, opt, okpay=None, keepbad=bad):
            out = {}
            if g: out[1 if opt else 0] = (("0", okpay),)
            if keepbad: out[0 if opt else 1] = ()
            return ("v", tuple(sorted(out.items()))) if out else None
        if n in ("is_some", "is_ok"): return ("b", frozenset([True] * (ok is not None) + [False] * bad))
        if n in ("is_none", "is_err"): return ("b", frozenset([False] * (ok is not None) + [True] * bad))
        if n in ("map_err", "as_ref", "as_mut", "inspect", "inspect_err", "cloned", "copied", "as_deref", "clone", "take", "iter"): return x
        if n in ("ok_or", "ok_or_else"): return make(ok is not None, False, pay)
        if n == "ok": return make(ok is not None, True, pay)
        if n == "map": return make(ok is not None, isopt, self.apply(y, [pay]))
        if n in ("and_then",):
            r = self.apply(y, [pay]) if ok is not None else BOTTOM
            if r is None: return None
            return join(make(False, isopt), r) if bad else r
        if n in ("unwrap", "expect", "unwrap_unchecked"):
            return pay if ok is not None else PANIC
        if n in ("unwrap_or",): return join(pay, y) if bad and ok is not None else y if bad else pay
        if n in ("unwrap_or_else",):
            z = self.apply(y, [None]); return join(pay, z) if bad and ok is not None else z if bad else pay
        if n in ("is_some_and", "is_ok_and"):
            r = self.apply(y, [pay]) if ok is not None else FALSE
            r = r if isinstance(r, tuple) and r[0] == "b" else BOTH
            return ("b", r[1] | {False}) if bad else r
        if n == "filter":
            r = self.apply(y, [pay]) if ok is not None else FALSE
            r = r if isinstance(r, tuple) and r[0] == "b" else BOTH
            return make(True in r[1], True, pay, bad or False in r[1])
        return None


def same(x, y):
    """whether two enum values can be equal and can differ"""
    out = set()
    for i, fs in x[1]:
        for j, gs in y[1]:
            if i != j: out.add(False); continue
            f, g = dict(fs), dict(gs)
            if not f and not g: out.add(True); continue
            for k in set(f) | set(g):
                a, c = f.get(k), g.get(k)
                out |= same(a, c) if all(isinstance(v, tuple) and v[0] == "v" for v in (a, c)) else {True, False}
    return out


def refused(v, good):
    """no success can come out: an error, nothing, NaN, or a panic"""
    if v is BOTTOM: return True
    if not isinstance(v, tuple): return False
    if v[0] == "v": return all(i != good for i, fs in v[1])
    if num(v): return atoms(v) == {"nan"}
    return False


def accepted(v, good):
    """a success may come out"""
    if v is BOTTOM: return False
    if not isinstance(v, tuple): return True
    if v[0] == "v": return any(i == good for i, fs in v[1])
    if num(v): return atoms(v) != {"nan"}
    return True


def tail(path):
    """Type::method, Type as Trait>::method, or the full path of a free function, without generics"""
    m = re.match(r"<(.*) as (.*)>::(\w+)$", path)
    if m: return f"{last(m.group(1))} as {last(m.group(2))}>::{m.group(3)}"
    p = re.sub(r"::<[^:]*>", "", path).split("::")
    return "::".join(p[-2:]) if len(p) > 1 and p[-2][:1].isupper() else "::".join(p[1:])


def last(t): return t.split("<")[0].split("::")[-1]


def place(a, v):
    """the value whose field a is v: [] an element of a list, [2+] of a list of two or more, [i/n] an element of an array
    of n, ? the value of an Option, <i> the content of the enum's variant i, <i:f> its field f"""
    for p in reversed(a):
        if "/" in p:                         # the other elements are any number
            at, n = p[1:-1].split("/"); n = int(n)
            v = ("t", tuple((str(z), v if at in ("all", str(z)) else F(*ALL)) for z in range(n)))
        elif p == "[]": v = ("s", v, True)
        elif p == "[2+]": v = ("s", v, 2)
        elif p == "?": v = ("v", ((1, (("0", v),)),))
        elif p[0] == "<":
            i, _, f = p[1:-1].partition(":"); v = ("v", ((int(i), ((f or "0", v),)),))
        else: v = ("t", ((p, v),))
    return v


def merge(x, y):
    if x is None or y is None: return x or y
    if x[0] == "t":
        d = dict(x[1])
        for n, v in y[1]:
            o = d.get(n)
            d[n] = v if o == F(*ALL) else o if v == F(*ALL) else merge(o, v)
        return ("t", tuple(sorted(d.items(), key=lambda z: (len(z[0]), z[0]))))
    if x[0] == "v":
        i, f = x[1][0]; j, g = y[1][0]
        return ("v", ((i, merge(("t", f), ("t", g))[1]),)) if i == j else x
    if x[0] == "s": return ("s", merge(x[1], y[1]), min(x[2], y[2]))
    return y


def value(t):
    """a class, a number, or any value"""
    if t == "any": return None
    try: return ("k", float(t)) if t not in SPECIAL and t not in ("-", "p", "P") else F(t)
    except ValueError: return F(t)


def seed(b, path, v):
    """arguments of b with the value v at path; `position:name.field when position:name.field=value ...`"""
    path, _, other = path.partition(" when ")
    args = {}
    for spec in [(path, v)] + [(o.rsplit("=", 1)[0], value(o.rsplit("=", 1)[1])) for o in other.split()]:
        i, a = spec[0].split(":", 1); i = int(i)
        if i > b.argc: return None
        args[i] = merge(args.get(i), place(a.split(".")[1:], spec[1]))
    return tuple(args.get(k) for k in range(1, b.argc + 1))
