"""Demand-driven range analysis of floating-point numbers over MIR.

A bound returned here is safe against rounding: products, clamps, min/max, trigonometric values and a component divided
by the norm it belongs to stay inside their interval in IEEE arithmetic; a sum of products does not, and gets the plain
interval sum (which exceeds 1 for a dot product).
"""
import math
from mir import pl, callee
from flow import Defs

INF = math.inf
TOP = (-INF, INF)
SAME = ("value", "new", "to", "clone", "into", "from", "to_array", "as_f64", "deref", "new_unchecked", "copied", "cloned", "as_ref", "borrow")
NORM = {"magnitude", "distance", "norm", "length"}
COMP = {"x", "y", "z"}


def join(a, b): return (min(a[0], b[0]), max(a[1], b[1]))


def mulr(a, b):
    ps = []
    for x in a:
        for y in b:
            ps.append(0.0 if x == 0 or y == 0 else x * y)
    return (min(ps), max(ps))


class Ranges:
    def __init__(self, db):
        self.db = db; self.defs = {}; self.memo = {}; self.args = {}; self.callers = None

    def d(self, b):
        if b.id not in self.defs: self.defs[b.id] = Defs(b)
        return self.defs[b.id]

    # ----- structural identity of a value (only through single definitions) -----
    def key(self, b, op, depth=0):
        if op[0] == "k":
            k = op[1]
            for x in ("f", "i"):
                if x in k: return ("k", float(k[x]))
            return ("k?", str(k))
        return self.pkey(b, op[1], depth)

    def pkey(self, b, place, depth=0):
        l, pr = pl(place)
        base = self.lkey(b, l, depth)
        for e in pr:
            if e == "*": base = base[1] if base[0] == "&" else base
            elif e[0] == ".":
                base = base[2][e[1]] if base[0] == "agg" and e[1] < len(base[2]) else ("fld", e[1], base)
            elif e[0] == "[]": base = ("idx", self.lkey(b, e[1], depth + 1), base)
            else: base = ("prj", str(e), base)
        return base

    def lkey(self, b, l, depth):
        D = self.d(b)
        if 0 < l <= b.argc: return ("arg", l) if not D.full.get(l) else ("loc", b.id, l)
        x = D.single(l)
        if x is None or depth > 40: return ("loc", b.id, l)
        kind, r = x[2]
        if kind == "call":
            dn, rn, rec = callee(r)
            n = (rn or dn or "?").split("::")[-1]
            args = tuple(self.key(b, a, depth + 1) for a in r[2])
            if n in SAME and len(args) == 1: return args[0]
            return ("call", n, args)
        if r[0] == "use": return self.key(b, r[1], depth + 1)
        if r[0] == "ref": return ("&", self.pkey(b, r[2], depth + 1))
        if r[0] == "bin": return ("bin", r[1], self.key(b, r[2], depth + 1), self.key(b, r[3], depth + 1))
        if r[0] == "un": return ("un", r[1], self.key(b, r[2], depth + 1))
        if r[0] == "agg": return ("agg", str(r[1][:2]), tuple(self.key(b, o, depth + 1) for o in r[2]))
        return ("loc", b.id, l)

    # ----- ranges -----
    def op(self, b, op, at, ctx=(), stack=()):
        if op[0] == "k":
            for x in ("f", "i"):
                if x in op[1]:
                    v = float(op[1][x]); return (v, v)
            return TOP
        return self.place(b, op[1], at, ctx, stack)

    def place(self, b, place, at, ctx, stack):
        l, pr = pl(place)
        out = self.local(b, l, pr, at, ctx, stack)
        if not pr: out = self.guard(b, l, at, out, ctx)
        return out

    def edge(self, b, bi, l, key):
        """refinements a switch at the end of block bi gives for local l: {target: (lo, hi)}"""
        t = b.blocks[bi][1]
        if t[0] != "switch" or t[1][0] == "k": return {}
        x = self.d(b).single(pl(t[1][1])[0])
        if x is None or x[2][0] != "rv" or x[2][1][0] != "bin": return {}
        _, cop, p, q = x[2][1]
        if cop not in ("Lt", "Le", "Gt", "Ge"): return {}
        ks = {("loc", b.id, l), key}; kab = ("call", "abs", (key,))
        kp, kq = self.key(b, p), self.key(b, q)
        if kp in ks or kp == kab: ab = kp == kab; c = kq; o2 = cop
        elif kq in ks or kq == kab: ab = kq == kab; c = kp; o2 = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}[cop]
        else: return {}
        if c[0] == "un" and c[1] == "Neg" and c[2][0] == "k": c = ("k", -c[2][1])
        if c[0] != "k": return {}
        c = c[1]; out = {}
        f = next((x[1] for x in t[2] if int(x[0]) == 0), None); tr = t[3]
        if f is None or f == tr: return {}
        for tgt, truth in ((f, False), (tr, True)):
            # the negation of a comparison also holds for NaN, which no interval describes: ranges speak of numbers only
            o3 = o2 if truth else {"Lt": "Ge", "Le": "Gt", "Gt": "Le", "Ge": "Lt"}[o2]
            if o3 in ("Lt", "Le"): out[tgt] = (-c if ab else -INF, c)
            elif not ab: out[tgt] = (c, INF)
        return out

    def guard(self, b, l, at, r, ctx):
        """comparisons of this single-definition local with constants that dominate the use"""
        if at is None or self.d(b).single(l) is None and not (0 < l <= b.argc): return r
        key = self.lkey(b, l, 0)
        for bi in b.reachable():
            for tgt, (lo, hi) in self.edge(b, bi, l, key).items():
                if b.dominates(tgt, at) and len(b.preds()[tgt]) == 1: r = (max(r[0], lo), min(r[1], hi))
        return r

    def paths(self, b, l, at, ctx, stack):
        """range of a local assigned in several places, over every path back to an assignment"""
        defs = {}
        for bi, si, x, ln in self.d(b).full[l]: defs.setdefault(bi, []).append((si, x))
        out = None; work = [(at, TOP, frozenset())]; n = 0
        while work:
            bi, g, seen = work.pop(); n += 1
            if n > 400: return TOP
            for p in b.preds()[bi]:
                if p in seen: continue
                e = self.edge(b, p, l, ("loc", b.id, l)).get(bi)
                g2 = (max(g[0], e[0]), min(g[1], e[1])) if e else g
                if g2[0] > g2[1]: continue
                if p in defs:
                    si, (kind, r) = defs[p][-1]
                    v = self.call(b, r, [], p, ctx, stack) if kind == "call" else self.rv(b, r, [], p, ctx, stack)
                    v = (max(v[0], g2[0]), min(v[1], g2[1]))
                    out = v if out is None else join(out, v)
                else: work.append((p, g2, seen | {p}))
        return TOP if out is None else out

    def local(self, b, l, pr, at, ctx, stack):
        D = self.d(b)
        if (b.id, l, str(pr), at) in stack or len(stack) > 60: return TOP
        stack = stack + ((b.id, l, str(pr), at),)
        if 0 < l <= b.argc and not D.full.get(l):
            if not pr and l - 1 < len(ctx): return ctx[l - 1]
            return TOP if pr or ctx else self.arg(b, l)
        ds = D.full.get(l) or []
        if not ds or (D.part.get(l) and not pr): return TOP
        if pr and D.part.get(l): return TOP
        if len(ds) > 1 and not pr and at is not None and not any(x[0] == at for x in ds):
            v = self.paths(b, l, at, ctx, stack)
            if v != TOP: return v
        out = None
        for bi, si, (kind, r), ln in ds:
            v = self.call(b, r, pr, bi, ctx, stack) if kind == "call" else self.rv(b, r, pr, bi, ctx, stack)
            out = v if out is None else join(out, v)
            if out == TOP: break
        return out

    def rv(self, b, r, pr, at, ctx, stack):
        k = r[0]
        if k == "use":
            if r[1][0] == "k": return TOP if pr else self.op(b, r[1], at, ctx, stack)
            l, p2 = pl(r[1][1])
            return self.place(b, r[1][1] if not pr else [l] + list(p2) + list(pr), at, ctx, stack)
        if k == "agg" and pr and pr[0] != "*" and pr[0][0] == "." and pr[0][1] < len(r[2]):
            o = r[2][pr[0][1]]
            if len(pr) == 1: return self.op(b, o, at, ctx, stack)
            if o[0] != "k":
                l, p2 = pl(o[1]); return self.local(b, l, list(p2) + list(pr[1:]), at, ctx, stack)
            return TOP
        if k == "ref" and pr and pr[0] == "*":
            l, p2 = pl(r[2])
            return self.place(b, [l] + list(p2) + list(pr[1:]) if (p2 or pr[1:]) else l, at, ctx, stack)
        if pr: return TOP
        if k == "bin": return self.bin(b, r[1], r[2], r[3], at, ctx, stack)
        if k == "un" and r[1] == "Neg":
            x = self.op(b, r[2], at, ctx, stack); return (-x[1], -x[0])
        if k == "cast":
            x = self.op(b, r[2], at, ctx, stack); return x
        return TOP

    def bin(self, b, o, p, q, at, ctx, stack):
        if o.startswith("Mul"):
            x = self.op(b, p, at, ctx, stack); y = self.op(b, q, at, ctx, stack)
            z = mulr(x, y)
            if self.key(b, p) == self.key(b, q): z = (max(0.0, z[0]), z[1] if z[1] > 0 else max(x[0] ** 2, x[1] ** 2))
            return z
        if o.startswith("Add") or o.startswith("Sub"):
            x = self.op(b, p, at, ctx, stack); y = self.op(b, q, at, ctx, stack)
            if o.startswith("Sub"): y = (-y[1], -y[0])
            return (x[0] + y[0], x[1] + y[1])
        if o == "Div":
            if self.is_norm_of(self.key(b, p), self.key(b, q)): return (-1.0, 1.0)
            x = self.op(b, p, at, ctx, stack); y = self.op(b, q, at, ctx, stack)
            if y[0] > 0 or y[1] < 0:
                return mulr(x, (min(1 / y[0] if y[0] else INF, 1 / y[1]), max(1 / y[0], 1 / y[1])))
            if x[0] >= 0 and y[0] >= 0: return (0.0, INF)
            return TOP
        return TOP

    def squares(self, k):
        if k[0] == "bin" and k[1] == "Add":
            a, c = self.squares(k[2]), self.squares(k[3])
            return None if a is None or c is None else a + c
        if k[0] == "bin" and k[1] == "Mul" and k[2] == k[3]: return [k[2]]
        if k[0] == "call" and k[1] in ("powi", "powf") and len(k[2]) == 2 and k[2][1] == ("k", 2.0): return [k[2][0]]
        return None

    def is_norm_of(self, x, r):
        if r[0] == "call" and r[1] == "sqrt" and len(r[2]) == 1:
            s = self.squares(r[2][0])
            return s is not None and x in s
        if r[0] == "call" and r[1] == "hypot" and x in r[2]: return True
        if r[0] == "call" and r[1] in NORM and r[2]:
            st = lambda k: k[1] if k[0] == "&" else k
            if x[0] == "call" and x[1] in COMP and x[2] and st(x[2][0]) == st(r[2][0]): return True
        return False

    def call(self, b, t, pr, at, ctx, stack):
        dn, rn, rec = callee(t)
        path = rn or dn or "?"
        n = path.split("::")[-1]
        A = lambda i: self.op(b, t[2][i], at, ctx, stack)
        if rec and rec.get("id") in self.db.bodies and len(stack) < 40:
            cb = self.db.bodies[rec["id"]]
            if cb.kind in ("fn", "closure"):
                cc = tuple(A(i) for i in range(len(t[2])))
                key = (cb.id, cc, str(pr))
                if key in self.memo: return self.memo[key] or TOP
                self.memo[key] = None
                v = self.ret(cb, pr, cc, stack)
                self.memo[key] = v
                return v
        if n in ("sin", "cos"): return (-1.0, 1.0)
        if n == "sin_cos": return (-1.0, 1.0) if pr else TOP
        if n in SAME and t[2] and (n not in ("new", "into", "from") or len(t[2]) == 1):
            if n == "to": return (max(0.0, A(0)[0]) if A(0)[0] >= 0 else -INF, INF)
            return A(0) if not pr else TOP
        if pr: return TOP
        if n == "clamp" and len(t[2]) == 3:
            lo, hi = A(1), A(2); x = A(0)
            return (max(x[0], lo[0]), min(x[1], hi[1]))
        if n == "min" and len(t[2]) == 2:
            x, y = A(0), A(1); return (min(x[0], y[0]), min(x[1], y[1]))
        if n == "max" and len(t[2]) == 2:
            x, y = A(0), A(1); return (max(x[0], y[0]), max(x[1], y[1]))
        if n == "abs":
            x = A(0); m = max(abs(x[0]), abs(x[1])); return (0.0 if x[0] <= 0 <= x[1] else min(abs(x[0]), abs(x[1])), m)
        if n == "sqrt":
            x = A(0); return (math.sqrt(max(0.0, x[0])), math.sqrt(x[1]) if 0 <= x[1] < INF else INF)
        if n == "powi" or n == "powf":
            e = A(1)
            if e[0] == e[1] == 2.0:
                x = A(0); m = max(x[0] * x[0], x[1] * x[1]); return (0.0 if x[0] <= 0 <= x[1] else min(x[0] ** 2, x[1] ** 2), m)
            if e[0] == e[1] and e[0] % 2 == 0: return (0.0, INF)
            x = A(0)
            return (0.0, INF) if x[0] >= 0 else TOP
        if n in ("exp", "cosh", "hypot", "magnitude", "distance", "norm", "length", "magnitude_squared", "distance_squared", "norm_squared"): return (0.0, INF)
        if n == "tanh" or n == "signum": return (-1.0, 1.0)
        if n == "to_radians": return mulr(A(0), (math.pi / 180,) * 2)
        if n == "to_degrees": return mulr(A(0), (180 / math.pi,) * 2)
        if n in ("atan2",): return (-math.pi, math.pi)
        if n in ("atan", "asin"): return (-math.pi / 2, math.pi / 2)
        if n == "acos": return (0.0, math.pi)
        if n == "rem_euclid":
            m = A(1); return (0.0, m[1]) if m[0] > 0 else TOP
        if n in ("mul", "div", "add", "sub") and len(t[2]) == 2:
            return self.bin(b, {"mul": "Mul", "div": "Div", "add": "Add", "sub": "Sub"}[n], t[2][0], t[2][1], at, ctx, stack)
        if n == "neg":
            x = A(0); return (-x[1], -x[0])
        if n == "mul_add":
            x = mulr(A(0), A(1)); y = A(2); return (x[0] + y[0], x[1] + y[1])
        if n in ("len", "count"): return (0.0, INF)
        return TOP

    def arg(self, b, l):
        """range of a parameter of a function only the crate can call: the join over its call sites"""
        k = (b.id, l)
        if k in self.args: return self.args[k]
        self.args[k] = TOP
        sig = self.db.sigs.get(b.id)
        if b.kind != "fn" or sig is None or sig["pub"] or b.d.get("trait"): return TOP
        if self.callers is None:
            self.callers = {}; self.taken = set()
            for c in self.db.local_fns():
                for bi in c.reachable():
                    for p, r, ln in c.blocks[bi][0]: self.fnrefs(r)
                    t = c.blocks[bi][1]
                    if t[0] != "call": continue
                    for a in t[2]: self.fnrefs(a)
                    _, _, rec = callee(t)
                    if rec and rec.get("id"): self.callers.setdefault(rec["id"], []).append((c, bi, t))
        cs = self.callers.get(b.id)
        if not cs or b.id in self.taken: return TOP
        out = None
        for c, bi, t in cs:
            v = self.op(c, t[2][l - 1], bi)
            out = v if out is None else join(out, v)
        self.args[k] = out
        return out

    def fnrefs(self, x):
        if isinstance(x, dict):
            if "fn" in x and isinstance(x["fn"], dict): self.taken.add(x["fn"].get("id"))
        elif isinstance(x, (list, tuple)):
            for y in x: self.fnrefs(y)

    def ret(self, cb, pr, ctx, stack):
        out = self.local(cb, 0, pr, None, ctx, stack)
        return out
