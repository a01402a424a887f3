"""Abstract evaluation of MIR in a term domain.

Values are hash-consed terms.  Reals are kept as multivariate polynomials over opaque atoms (so
re-association, hoisting and helper extraction do not matter), rotations as reduced words of a free
group, typed quantities as their magnitude together with exact unit ratios.  Functions of the crate
are inlined; loops, dependencies and trait methods of abstract parameters stay uninterpreted but
keep their identity, arguments and type arguments.  Paths are enumerated on switches whose
discriminant is not determined.
"""
import math
from fractions import Fraction
import tys
from mir import pl, callee, succs


class T:
    __slots__ = ("op", "a", "h", "id")
    tab = {}

    def __repr__(self):
        return show(self)


def mk(op, *a):
    k = (op,) + tuple(("T", x.id) if isinstance(x, T) else x for x in a)
    t = T.tab.get(k)
    if t is None:
        t = T(); t.op = op; t.a = a; t.id = len(T.tab); t.h = None
        T.tab[k] = t
    return t


def show(t, d=0):
    if not isinstance(t, T): return str(t)
    if d > 7: return "…"
    if t.op == "poly":
        out = []
        for m, c in t.a[0]:
            f = "*".join((show(BYID[i], d + 1) + (f"^{e}" if e != 1 else "")) for i, e in m)
            out.append(f"{c:.12g}" + ("*" + f if f else ""))
        return "(" + " + ".join(out) + ")" if out else "0"
    if t.op == "const": return repr(t.a[0])
    if t.op == "var": return str(t.a[0])
    if t.op == "call": return f"{str(t.a[0]).split('::')[-1] if not str(t.a[0]).startswith('<') else t.a[0]}[{t.a[1]}]({', '.join(show(x, d+1) for x in t.a[2:])})"
    if t.op == "rot": return "·".join((f"R{g[0]}({show(BYID[g[1]], d+1)})" if g[0] in "xyz" else f"M{'⁻¹' if g[2] < 0 else ''}[{show(BYID[g[1]], d+1)}]") for g in t.a[0]) or "I"
    if t.op == "fld": return f"{show(t.a[0], d+1)}.{t.a[1]}"
    return f"{t.op}({', '.join(show(x, d+1) for x in t.a)})"


class _ById:
    def __init__(self): self.l = []
    def __getitem__(self, i):
        if i >= len(self.l):
            self.l = list(T.tab.values())
        return self.l[i]


BYID = _ById()


# ---------------------------------------------------------------- polynomials
def num(c):
    return mk("poly", (((), float(c)),) if c else ())


def is_poly(t):
    return t.op == "poly"


def as_poly(t):
    if t.op == "poly": return t.a[0]
    if t.op == "const" and isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool):
        return num(t.a[0]).a[0]
    return ((((t.id, 1),), 1.0),)


def from_poly(d):
    items = tuple(sorted((m, c) for m, c in d.items() if abs(c) > 0))
    # an atom on its own stays an atom
    if len(items) == 1 and items[0][1] == 1.0 and len(items[0][0]) == 1 and items[0][0][0][1] == 1:
        return BYID[items[0][0][0][0]]
    return mk("poly", tuple((m, float(f"{c:.13g}")) for m, c in items))


def padd(x, y, s=1.0):
    d = dict(as_poly(x))
    for m, c in as_poly(y):
        v = d.get(m, 0.0) + s * c
        if abs(v) <= 1e-15 * max(abs(c), abs(d.get(m, 0.0))): v = 0.0
        d[m] = v
    return from_poly(d)


def pscale(x, k):
    return from_poly({m: c * k for m, c in as_poly(x)})


def pneg(x): return pscale(x, -1.0)


def pmul(x, y):
    a, b = as_poly(x), as_poly(y)
    if len(a) * len(b) > 400:
        l, r = sorted((x, y), key=lambda t: t.id)
        return mk("mul", l, r)
    d = {}
    for m1, c1 in a:
        for m2, c2 in b:
            e = dict(m1)
            for i, k in m2: e[i] = e.get(i, 0) + k
            m = tuple(sorted((i, k) for i, k in e.items() if k))
            d[m] = d.get(m, 0.0) + c1 * c2
    return from_poly(d)


def pinv(y):
    p = as_poly(y)
    if len(p) == 1:
        m, c = p[0]
        return from_poly({tuple((i, -k) for i, k in m): 1.0 / c})
    return mk("inv", y)


def const_of(t):
    if t.op == "poly":
        if not t.a[0]: return 0.0
        if len(t.a[0]) == 1 and t.a[0][0][0] == (): return t.a[0][0][1]
    if t.op == "const" and isinstance(t.a[0], (int, float)): return t.a[0]
    return None


# ---------------------------------------------------------------- rotations
def rot(word):
    out = []
    for g in word:
        if g[0] in "xyz":
            a = BYID[g[1]]
            if const_of(a) == 0: continue
            if out and out[-1][0] == g[0]:
                s = padd(BYID[out[-1][1]], a)
                out.pop()
                if const_of(s) != 0: out.append((g[0], s.id, 1))
                continue
        elif out and out[-1][0] == "M" and out[-1][1] == g[1] and out[-1][2] == -g[2]:
            out.pop(); continue
        out.append(g)
    out = tuple(out)
    if len(out) < len(word) and out != tuple(word):
        return rot(out)
    return mk("rot", out)


def rinv(t):
    return rot(tuple((g[0], pneg(BYID[g[1]]).id, 1) if g[0] in "xyz" else (g[0], g[1], -g[2]) for g in reversed(as_rot(t))))


def as_rot(t):
    if t.op == "rot": return t.a[0]
    if t.op == "ref": raise Budget("unresolved reference")
    return (("M", t.id, 1),)


def rmul(x, y): return rot(as_rot(x) + as_rot(y))


def raxis(ax, a):
    return rot(((ax, a.id, 1),))


# ---------------------------------------------------------------- vectors (free module over rotated atoms)
def lv_terms(v):
    """linear terms {atom id: coefficient term} of an array value"""
    if v.op == "lv": return {a: BYID[k] for a, k in v.a[0]}
    return {v.id: num(1)}


def lv_make(d):
    d = {a: k for a, k in d.items() if const_of(k) != 0}
    if len(d) == 1:
        (a, k), = d.items()
        if const_of(k) == 1: return BYID[a]
    return mk("lv", tuple(sorted((a, k.id) for a, k in d.items())))


def lv_add(x, y, s=1.0):
    d = dict(lv_terms(x))
    for a, k in lv_terms(y).items():
        d[a] = padd(d.get(a, num(0)), k, s)
    return lv_make(d)


def lv_scale(x, k):
    return lv_make({a: pmul(c, k) for a, c in lv_terms(x).items()})


def vec3(x, y, z):
    """array of three components; recognised as a linear combination of vectors when it is one"""
    raw = mk("agg", ("array",), x, y, z)
    ds = []
    for i, c in enumerate((x, y, z)):
        d = {}
        for m, k in as_poly(c):
            base = None
            for j, e in m:
                t = BYID[j]
                if t.op == "idx" and e == 1 and const_of(t.a[1]) == i and base is None: base = (j, t.a[0])
            if base is None: return raw
            rest = from_poly({tuple((j, e) for j, e in m if j != base[0]): k})
            d[base[1].id] = padd(d.get(base[1].id, num(0)), rest)
        ds.append(d)
    if ds[0] != ds[1] or ds[1] != ds[2]: return raw
    return lv_make(ds[0])


def apply_rot(r, v):
    w = as_rot(r)
    if not w: return v
    if v.op == "pt": return mk("pt", v.a[0], v.a[1], apply_rot(r, v.a[2]))
    if v.op == "lv":
        d = {}
        for a, k in v.a[0]:
            t = apply_rot(r, BYID[a])
            d[t.id] = padd(d.get(t.id, num(0)), BYID[k])
        return lv_make(d)
    if v.op == "apply":
        rr = rmul(rot(w), v.a[0])
        return mk("apply", rr, v.a[1]) if rr.a[0] else v.a[1]
    return mk("apply", rot(w), v)


def arr_of(v):
    return v.a[2] if v.op == "pt" else mk("arr", v)


def params_of(v):
    return v.a[1] if v.op == "pt" else mk("params", v)


# ---------------------------------------------------------------- units
PI = math.pi
UNITS = {
    "Radian": 1.0, "Degree": PI / 180, "Arcminute": PI / 10800, "Arcsecond": PI / 648000,
    "MilliArcsecond": PI / 648e6, "MicroArcsecond": PI / 648e9, "HourAngle": PI / 12, "Turn": 2 * PI,
    "Milliradian": 1e-3, "Gradian": PI / 200,
}
TIMEU = {"Second": 1.0, "Minute": 60.0, "Hour": 3600.0, "Day": 86400.0, "Millisecond": 1e-3, "Microsecond": 1e-6,
         "Nanosecond": 1e-9, "Week": 604800.0, "JulianYear": 31557600.0, "JulianCentury": 3155760000.0, "Century": 3155760000.0, "Year": 31557600.0}
LENU = {"Meter": 1.0, "Kilometer": 1e3, "AstronomicalUnit": 149597870700.0, "Centimeter": 1e-2, "Millimeter": 1e-3}


def unit_ratio(u1, u2):
    a, b = u1.split("::")[-1], u2.split("::")[-1]
    if a == b: return 1.0
    for tab in (UNITS, TIMEU, LENU):
        if a in tab and b in tab: return tab[a] / tab[b]
    return None


class Budget(Exception):
    pass


class State:
    __slots__ = ("store", "pc", "nframe")

    def __init__(self, store=None, pc=None):
        self.store = store if store is not None else {}
        self.pc = pc if pc is not None else {}

    def fork(self):
        return State(dict(self.store), dict(self.pc))


MAXDEPTH = 60


class Interp:
    def __init__(self, db, opaque=(), models=None, max_paths=4000, inline_deps=()):
        self.db = db
        self.opaque = set(opaque)
        self.models = dict(MODELS)
        if models: self.models.update(models)
        self.frames = 0
        self.max_paths = max_paths
        self.steps = 0
        self.loopy = {}
        self.inline_deps = tuple(inline_deps)
        self.unmodelled = {}
        self.impl_index = {}
        for im in db.impls:
            if "trait" in im:
                self.impl_index.setdefault(im["trait"], []).append(im)
        self.memo = {}
        self.inlined = set()

    # -- trait dispatch on substituted types
    def resolve(self, trait, name, args):
        """args: list of type strings (Self first, then trait params, then method params)"""
        targs = [tys.parse(a) for a in args]
        for im in self.impl_index.get(trait, ()):
            pats = [tys.parse(x) for x in im["targs"]]
            if len(pats) > len(targs): continue
            gen = self.impl_generics(im)
            m = {}
            if all(tys.match(p, t, gen, m) for p, t in zip(pats, targs)):
                for n, i in im["items"]:
                    if n == name and i in self.db.bodies:
                        b = self.db.bodies[i]
                        extra = [g for g in b.d.get("generics", []) if g not in gen and g != "Self"]
                        rest = targs[len(pats):]
                        mm = {k: v for k, v in m.items()}
                        for g, t in zip(extra, rest): mm[g] = t
                        return b, mm
        # default method
        tr = self.db.traits.get(trait)
        if tr:
            for n, i, hasdef in tr["items"]:
                if n == name and hasdef and i in self.db.bodies:
                    b = self.db.bodies[i]
                    gens = b.d.get("generics", [])
                    return b, dict(zip(gens, targs))
        return None

    def impl_generics(self, im):
        g = im.get("_gen")
        if g is None:
            g = set()
            for n, i in im["items"]:
                b = self.db.bodies.get(i)
                if b is not None:
                    g |= set(b.d.get("generics", []))
            im["_gen"] = g
        return g

    def has_loop(self, b):
        r = self.loopy.get(b.id)
        if r is None:
            order = {x: n for n, x in enumerate(b.rpo())}
            r = any(s in order and order[s] <= order[x] for x in order for s in succs(b.blocks[x]))
            self.loopy[b.id] = r
        return r

    # -- places
    def read_local(self, st, fr, l):
        v = st.store.get((fr, l))
        if v is None:
            v = mk("undef", fr, l)
        return v

    def proj(self, st, fr, v, projs):
        variant = None
        for e in projs:
            if e == "*":
                if v.op == "ref":
                    v = self.read_loc(st, v.a[0])
                continue
            if e == "?": v = mk("proj?", v); continue
            k = e[0]
            if k == "as":
                variant = e[2]; continue
            if k == ".":
                v = field(v, e[1], e[2], variant); variant = None
            elif k == "[]":
                v = index(v, self.read_local(st, fr, e[1]))
            elif k == "[c]":
                v = index(v, num(e[1]) if not e[3] else mk("fromend", e[1]))
            else:
                v = mk("sub", v, str(e[1:]))
        return v

    def read_loc(self, st, loc):
        fr, l, projs = loc
        return self.proj(st, fr, self.read_local(st, fr, l), projs)

    def read(self, st, fr, p):
        l, projs = pl(p)
        return self.proj(st, fr, self.read_local(st, fr, l), projs)

    def norm_loc(self, st, fr, p):
        """location a place denotes, following refs; None if it lives behind an opaque value"""
        l, projs = pl(p)
        base = (fr, l, ())
        for e in projs:
            if e == "*":
                v = self.read_loc(st, base)
                if v.op == "ref":
                    base = v.a[0]
                else:
                    return None
            else:
                if e[0] == "[]":
                    i = self.read_local(st, fr, e[1])
                    e = ("[v]", i)
                else:
                    e = tuple(e)
                base = (base[0], base[1], base[2] + (e,))
        return base

    def write(self, st, fr, p, v):
        loc = self.norm_loc(st, fr, p)
        if loc is None: return
        self.write_loc(st, loc, v)

    def write_loc(self, st, loc, v):
        f, l, projs = loc
        st.store[(f, l)] = self.upd(self.read_local(st, f, l), list(projs), v)

    def upd(self, base, projs, v):
        if not projs: return v
        e = projs[0]
        if e[0] == "as":
            return self.upd(base, projs[1:], v)
        if e[0] == ".":
            sub = field(base, e[1], e[2], None)
            nv = self.upd(sub, projs[1:], v)
            if base.op == "agg" and e[1] < len(base.a) - 1:
                a = list(base.a); a[1 + e[1]] = nv
                return mk("agg", *a)
            return mk("upd", base, e[2], nv)
        if e[0] in ("[v]", "[c]"):
            i = e[1] if e[0] == "[v]" else num(e[1])
            sub = index(base, i)
            nv = self.upd(sub, projs[1:], v)
            c = const_of(i)
            if base.op == "agg" and c is not None and c < len(base.a) - 1:
                a = list(base.a); a[1 + int(c)] = nv
                return mk("agg", *a)
            return mk("updi", base, i, nv)
        return mk("updx", base, str(e), v)

    # -- operands
    def operand(self, st, fr, b, o, ts):
        if o[0] != "k":
            return self.read(st, fr, o[1])
        return self.const(b, o[1], ts)

    def const(self, b, k, ts):
        if "fn" in k:
            r = k["fn"]
            return mk("fn", r["p"], tuple(tys.show(tys.subst(tys.parse(x), ts)) for x in r["a"]), r.get("id"), r.get("r"),
                      tuple(tys.show(tys.subst(tys.parse(x), ts)) for x in r.get("ra", ())), r.get("t"))
        if "promoted" in k:
            pb = self.db.bodies.get(f"{k['def']}::promoted[{k['promoted']}]")
            if pb is not None:
                outs = list(self.run(pb, [], ts, State()))
                if len(outs) == 1: return outs[0][1]
            return mk("promoted", k["def"], k["promoted"])
        if "f" in k: return num(float(k["f"])) if k["f"] not in ("NaN", "inf", "-inf") else mk("const", k["f"])
        if "i" in k: return num(k["i"]) if abs(k["i"]) < 2**53 else mk("const", k["i"])
        if "b" in k: return mk("bool", bool(k["b"]))
        if "str" in k: return mk("str", k["str"])
        if "ch" in k: return num(k["ch"])
        if "def" in k:
            cs = [x for x in self.db.by_path.get(k["def"], ()) if x.kind in ("const", "depconst")]
            ty = self.db.types[k["ty"]]
            if "hex" in k and ty.replace("[", "").startswith("f64"):
                return decode_hex(ty, k["hex"])
            if len(cs) == 1 and not self.has_loop(cs[0]):
                cb = cs[0]
                sub = {}
                try:
                    outs = list(self.run(cb, [], sub, State()))
                    if len(outs) == 1: return outs[0][1]
                except Budget:
                    pass
            if "st" in k: return mk("static", k["st"])
            if k["def"] in NAMED_CONST: return NAMED_CONST[k["def"]]
            return mk("constdef", k["def"], tuple(tys.show(tys.subst(tys.parse(x), ts)) for x in k.get("a", ())))
        if "hex" in k:
            ty = self.db.types[k["ty"]]
            if ty.replace("[", "").startswith("f64"): return decode_hex(ty, k["hex"])
            return mk("hex", ty, k["hex"])
        if "closure" in k:
            return mk("agg", ("closure", k["closure"]))
        if "ct" in k:
            t = tys.show(tys.subst(tys.parse(k["ct"]), ts))
            return num(int(t)) if t.isdigit() else mk("ct", t)
        ty = self.db.types[k["ty"]]
        if "bits" in k: return mk("bits", ty, k["bits"])
        if "st" in k: return mk("static", k["st"])
        if "mem" in k: return mk("mem", ty, k["mem"])
        if ty == "()": return UNIT
        return mk("zst", tys.show(tys.subst(tys.parse(ty), ts)))

    def rvalue(self, st, fr, b, r, ts):
        k = r[0]
        if k == "use": return self.operand(st, fr, b, r[1], ts)
        if k == "ref" or k == "raw":
            if r[1] == "mut" or (k == "raw"):
                loc = self.norm_loc(st, fr, r[2])
                if loc is not None:
                    return mk("ref", loc)
            return self.read(st, fr, r[2])
        if k == "bin":
            return binop(r[1], self.operand(st, fr, b, r[2], ts), self.operand(st, fr, b, r[3], ts))
        if k == "un":
            v = self.operand(st, fr, b, r[2], ts)
            if r[1] == "Neg": return pneg(v)
            if r[1] == "Not":
                return neg_bool(v)
            return mk("un", r[1], v)
        if k == "cast":
            v = self.operand(st, fr, b, r[2], ts)
            kind = r[1]
            if kind in ("IntToFloat", "FloatToFloat") or kind.startswith("coerce") or kind in ("PtrToPtr", "Transmute", "Subtype"):
                return v
            if kind == "IntToInt":
                if const_of(v) is not None: return v
                return mk("cast", self.db.types[r[3]], v) if v.op in ("bool",) else v
            return mk("cast", self.db.types[r[3]], v)
        if k == "discr":
            return discr(self.db, self.read(st, fr, r[1]))
        if k == "agg":
            ops = [self.operand(st, fr, b, x, ts) for x in r[2]]
            kk = r[1]
            if kk[0] == "adt":
                if len(kk[5]) != len(ops) and len(ops) == 1:
                    return mk("agg", ("union", kk[1], kk[5][0]), *ops)
                return mk("agg", ("adt", kk[1], kk[2], kk[3], tuple(kk[5])), *ops)
            if kk[0] == "closure": return mk("agg", ("closure", kk[1]), *ops)
            if kk[0] == "array" and len(ops) == 3: return vec3(*ops)
            return mk("agg", (kk[0],), *ops)
        if k == "repeat":
            v = self.operand(st, fr, b, r[1], ts)
            if r[2].isdigit() and int(r[2]) <= 64: return mk("agg", ("array",), *([v] * int(r[2])))
            return mk("repeat", v, r[2])
        if k == "setdiscr": return mk("setdiscr", r[1])
        return mk("rv", str(r[:2]))

    # -- execution
    def run(self, b, args, ts, st, depth=0):
        """yields (state, value) for every returning path"""
        self.frames += 1
        fr = self.frames
        if depth == 0: self.steps = 0
        for i, a in enumerate(args): st.store[(fr, i + 1)] = a
        work = [(0, st)]
        n = 0
        while work:
            bi, st = work.pop()
            while True:
                self.steps += 1
                if self.steps > self.max_paths * 400: raise Budget()
                bb = b.blocks[bi]
                if bb is None: break
                for p, r, ln in bb[0]:
                    self.write(st, fr, p, self.rvalue(st, fr, b, r, ts))
                t = bb[1]; k = t[0]
                if k == "goto": bi = t[1]; continue
                if k == "drop": bi = t[2]; continue
                if k == "ret":
                    n += 1
                    if n > self.max_paths: raise Budget()
                    v = self.read_local(st, fr, 0) if (fr, 0) in st.store else UNIT
                    if depth:
                        for i in range(len(b.locals)): st.store.pop((fr, i), None)
                    yield st, v
                    break
                if k == "assert":
                    bi = t[4]; continue
                if k == "switch":
                    d = self.operand(st, fr, b, t[1], ts)
                    c = const_of(d)
                    if d.op == "bool": c = int(d.a[0])
                    if c is None and d.op == "not":
                        pass
                    if c is None:
                        kn = st.pc.get(d)
                        if isinstance(kn, (int, float)): c = kn
                    if c is not None:
                        for v, x in t[2]:
                            if v == c: bi = x; break
                        else: bi = t[3]
                        continue
                    excl = st.pc.get(d, ())
                    opts = []
                    for v, x in t[2]:
                        if isinstance(excl, tuple) and v in excl: continue
                        opts.append((x, v))
                    ob = b.blocks[t[3]]
                    if not (ob is None or (ob[1][0] == "unreach" and not ob[0])):
                        vals = tuple(v for v, _ in t[2])
                        if vals == (0,): opts.append((t[3], 1))
                        else: opts.append((t[3], (excl if isinstance(excl, tuple) else ()) + vals))
                    for x, v in opts:
                        s2 = st.fork()
                        s2.pc[d] = v
                        if d.op == "bin" and d.a[0] in NEGCMP and v in (0, 1):
                            s2.pc[mk("bin", NEGCMP[d.a[0]], d.a[1], d.a[2])] = 1 - v
                        work.append((x, s2))
                    break
                if k == "call":
                    if t[4] is None: break
                    args2 = [self.operand(st, fr, b, x, ts) for x in t[2]]
                    fv = self.operand(st, fr, b, t[1], ts)
                    outs = list(self.call(st, fv, args2, depth, b, t))
                    if not outs: break
                    for s2, v in outs[1:]:
                        self.write(s2, fr, t[3], v)
                        work.append((t[4], s2))
                    st, v = outs[0]
                    self.write(st, fr, t[3], v)
                    bi = t[4]
                    continue
                break

    def call(self, st, fv, args, depth, b=None, t=None):
        """list of (state, value)"""
        if fv.op == "agg" and fv.a[0][0] == "closure":
            cb = self.db.bodies.get(fv.a[0][1])
            if cb is not None and depth < MAXDEPTH and not self.has_loop(cb):
                return list(self.run(cb, [fv] + list(args), {}, st, depth + 1))
            return [(st, mk("call", "closure", fv.a[0][1], *(list(fv.a[1:]) + list(args))))]
        if fv.op != "fn":
            return [(st, mk("call", "?", "", fv, *args))]
        p, ga, cid, r, ra, trait = fv.a
        name = r or p
        for key in (r, p):
            m = self.models.get(key)
            if m is not None and key is r and False: continue
            if m is not None:
                out = m(self, st, name, ga, ra, args, depth)
                if out is not None:
                    return out if isinstance(out, list) else [(st, out)]
        key2 = (p or "").split("::")[-1]
        m = self.models.get("*::" + key2)
        if m is not None:
            out = m(self, st, name, ga, ra, args, depth)
            if out is not None:
                return out if isinstance(out, list) else [(st, out)]
        body = self.db.bodies.get(cid) if cid else None
        sub = None
        if body is not None:
            gens = body.d.get("generics")
            if gens is not None and len(gens) == len(ra):
                sub = {g: tys.parse(x) for g, x in zip(gens, ra)}
            else:
                sub = {}
        if trait and (r is None):
            res = self.resolve(trait, p.split("::")[-1], list(ga))
            if res is not None: body, sub = res
        if body is not None and body.kind == "depfn" and not body.path.startswith(self.inline_deps or ("\0",)):
            body = None
        if body is not None and body.path not in self.opaque and name not in self.opaque and depth < MAXDEPTH and not self.has_loop(body):
            self.inlined.add(body.id)
            a2 = list(args)
            return list(self.run(body, a2, sub, st, depth + 1))
        self.unmodelled[name] = self.unmodelled.get(name, 0) + 1
        vals = []
        for i, a in enumerate(args):
            if a.op == "ref":
                vals.append(self.read_loc(st, a.a[0]))
            else:
                vals.append(a)
        res = mk("call", body.path if body is not None else name, ",".join(ra if r else ga), *vals)
        for i, a in enumerate(args):
            if a.op == "ref":
                self.write_loc(st, a.a[0], mk("after", i, res))
        return [(st, res)]

    def apply(self, st, f, args, depth):
        return self.call(st, f, args, depth + 1)

    def eval(self, b, args, ts=None):
        return [(s, v) for s, v in self.run(b, args, ts or {}, State())]


UNIT = mk("agg", ("tuple",))
NEGCMP = {"Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt", "Eq": "Ne", "Ne": "Eq"}


def decode_hex(ty, h):
    import struct
    n = len(h) // 16
    fl = [struct.unpack("<d", bytes.fromhex(h[16 * i:16 * i + 16]))[0] for i in range(n)]
    t = tys.parse(ty)

    def build(t, it):
        if t[1] == "[;]":
            return mk("agg", ("array",), *[build(t[2][0], it) for _ in range(int(t[2][1][1]))])
        return num(next(it))
    return build(t, iter(fl))


def field(v, i, name, variant):
    if v.op == "agg":
        k = v.a[0]
        if k[0] == "adt" and variant is not None and k[3] != variant: return mk("undef", 0, 0)
        if k[0] != "union" and i + 1 < len(v.a): return v.a[1 + i]
        if k[0] == "union" and k[2] == name: return v.a[1]
    if v.op == "upd":
        if v.a[1] == name: return v.a[2]
        return field(v.a[0], i, name, variant)
    if v.op == "phi": pass
    return mk("fld", v, (variant + "." + name) if variant else name)


def index(v, i):
    c = const_of(i)
    if v.op == "lv" and c is not None:
        r = num(0)
        for a, k in v.a[0]: r = padd(r, pmul(BYID[k], mk("idx", BYID[a], num(c))))
        return r
    if v.op == "agg" and c is not None and c == int(c) and 0 <= c < len(v.a) - 1: return v.a[1 + int(c)]
    if v.op == "updi":
        if v.a[1] is i: return v.a[2]
        c2 = const_of(v.a[1])
        if c is not None and c2 is not None: return index(v.a[0], i)
    return mk("idx", v, i)


def discr(db, v):
    if v.op == "agg" and v.a[0][0] == "adt": return num(v.a[0][2])
    return mk("discr", v)


def neg_bool(v):
    if v.op == "bool": return mk("bool", not v.a[0])
    if v.op == "not": return v.a[0]
    return mk("not", v)


def binop(op, x, y):
    if op in ("Add", "AddUnchecked"): return padd(x, y)
    if op in ("Sub", "SubUnchecked"): return padd(x, y, -1.0)
    if op in ("Mul", "MulUnchecked"): return pmul(x, y)
    if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
        return mk("agg", ("tuple",), binop(op[:3], x, y), mk("bool", False))
    if op == "Div":
        return pmul(x, pinv(y))
    a, b = const_of(x), const_of(y)
    if x.op == "bool": a = int(x.a[0])
    if y.op == "bool": b = int(y.a[0])
    if a is not None and b is not None:
        f = {"Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b, "Eq": a == b, "Ne": a != b}
        if op in f: return mk("bool", f[op])
    if op in ("Eq", "Ne") and x is y: return mk("bool", op == "Eq")
    if op in ("Gt", "Ge"):
        return mk("bin", {"Gt": "Lt", "Ge": "Le"}[op], y, x)
    return mk("bin", op, x, y)


# ---------------------------------------------------------------- models
MODELS = {}


def model(*names):
    def d(f):
        for n in names: MODELS[n] = f
        return f
    return d


def some(v): return mk("agg", ("adt", "core::option::Option", 1, "Some", ("0",)), v)
NONE = mk("agg", ("adt", "core::option::Option", 0, "None", ()))
def ok(v): return mk("agg", ("adt", "core::result::Result", 0, "Ok", ("0",)), v)
def err(v): return mk("agg", ("adt", "core::result::Result", 1, "Err", ("0",)), v)


def cases(st, v, good, bad, gi, bi):
    """split an Option/Result value: [(state, is_good, payload or err)]"""
    if v.op == "agg" and v.a[0][0] == "adt":
        g = v.a[0][3] == good
        return [(st, g, v.a[1] if len(v.a) > 1 else UNIT)]
    d = mk("discr", v)
    kn = st.pc.get(d)
    if kn == gi: return [(st, True, mk("fld", v, good + ".0"))]
    if kn == bi: return [(st, False, mk("fld", v, bad + ".0"))]
    s2 = st.fork(); st.pc[d] = gi; s2.pc[d] = bi
    return [(st, True, mk("fld", v, good + ".0")), (s2, False, mk("fld", v, bad + ".0"))]


def opt(st, v): return cases(st, v, "Some", "None", 1, 0)
def res(st, v): return cases(st, v, "Ok", "Err", 0, 1)


O = "core::option::Option::<T>::"
R = "core::result::Result::<T, E>::"


@model(O + "map")
def _(I, st, n, ga, ra, a, d):
    out = []
    for s, g, p in opt(st, a[0]):
        if g: out += [(s2, some(v)) for s2, v in I.apply(s, a[1], [p], d)]
        else: out.append((s, NONE))
    return out


@model(O + "and_then")
def _(I, st, n, ga, ra, a, d):
    out = []
    for s, g, p in opt(st, a[0]):
        if g: out += I.apply(s, a[1], [p], d)
        else: out.append((s, NONE))
    return out


@model(O + "unwrap_or")
def _(I, st, n, ga, ra, a, d): return [(s, p if g else a[1]) for s, g, p in opt(st, a[0])]


@model(O + "unwrap_or_else")
def _(I, st, n, ga, ra, a, d):
    out = []
    for s, g, p in opt(st, a[0]):
        if g: out.append((s, p))
        else: out += I.apply(s, a[1], [], d)
    return out


@model(O + "or_else")
def _(I, st, n, ga, ra, a, d):
    out = []
    for s, g, p in opt(st, a[0]):
        if g: out.append((s, some(p)))
        else: out += I.apply(s, a[1], [], d)
    return out


@model(O + "or")
def _(I, st, n, ga, ra, a, d): return [(s, some(p) if g else a[1]) for s, g, p in opt(st, a[0])]


@model(O + "unwrap", O + "expect")
def _(I, st, n, ga, ra, a, d): return [(s, p) for s, g, p in opt(st, a[0]) if g]


@model(O + "is_some")
def _(I, st, n, ga, ra, a, d): return [(s, mk("bool", g)) for s, g, p in opt(st, a[0])]


@model(O + "is_none")
def _(I, st, n, ga, ra, a, d): return [(s, mk("bool", not g)) for s, g, p in opt(st, a[0])]


@model(O + "ok_or")
def _(I, st, n, ga, ra, a, d): return [(s, ok(p) if g else err(a[1])) for s, g, p in opt(st, a[0])]


@model(O + "ok_or_else")
def _(I, st, n, ga, ra, a, d):
    out = []
    for s, g, p in opt(st, a[0]):
        if g: out.append((s, ok(p)))
        else: out += [(s2, err(v)) for s2, v in I.apply(s, a[1], [], d)]
    return out


@model(O + "as_ref", O + "as_mut", O + "copied", O + "cloned", O + "as_deref", "core::option::Option::<&T>::copied", "core::option::Option::<&T>::cloned")
def _(I, st, n, ga, ra, a, d): return a[0] if a[0].op != "ref" else None


@model(R + "map")
def _(I, st, n, ga, ra, a, d):
    out = []
    for s, g, p in res(st, a[0]):
        if g: out += [(s2, ok(v)) for s2, v in I.apply(s, a[1], [p], d)]
        else: out.append((s, err(p)))
    return out


@model(R + "map_err")
def _(I, st, n, ga, ra, a, d):
    out = []
    for s, g, p in res(st, a[0]):
        if not g: out += [(s2, err(v)) for s2, v in I.apply(s, a[1], [p], d)]
        else: out.append((s, ok(p)))
    return out


@model(R + "and_then")
def _(I, st, n, ga, ra, a, d):
    out = []
    for s, g, p in res(st, a[0]):
        if g: out += I.apply(s, a[1], [p], d)
        else: out.append((s, err(p)))
    return out


@model(R + "unwrap_or")
def _(I, st, n, ga, ra, a, d): return [(s, p if g else a[1]) for s, g, p in res(st, a[0])]


@model(R + "unwrap_or_else")
def _(I, st, n, ga, ra, a, d):
    out = []
    for s, g, p in res(st, a[0]):
        if g: out.append((s, p))
        else: out += I.apply(s, a[1], [p], d)
    return out


@model(R + "unwrap", R + "expect")
def _(I, st, n, ga, ra, a, d): return [(s, p) for s, g, p in res(st, a[0]) if g]


@model(R + "ok")
def _(I, st, n, ga, ra, a, d): return [(s, some(p) if g else NONE) for s, g, p in res(st, a[0])]


@model(R + "is_ok")
def _(I, st, n, ga, ra, a, d): return [(s, mk("bool", g)) for s, g, p in res(st, a[0])]


CF = "core::ops::control_flow::ControlFlow"


@model("core::ops::try_trait::Try::branch")
def _(I, st, n, ga, ra, a, d):
    isopt = "option::Option" in ga[0].split("<")[0]
    out = []
    for s, g, p in (opt if isopt else res)(st, a[0]):
        if g: out.append((s, mk("agg", ("adt", CF, 0, "Continue", ("0",)), p)))
        else: out.append((s, mk("agg", ("adt", CF, 1, "Break", ("0",)), NONE if isopt else err(p))))
    return out


@model("core::ops::try_trait::FromResidual::from_residual")
def _(I, st, n, ga, ra, a, d):
    if a[0].op == "agg" and a[0].a[0][3] == "Err":
        return err(mk("call", "From::from", ga[0], a[0].a[1]))
    return a[0]


@model("core::clone::Clone::clone", "core::borrow::Borrow::borrow", "core::ops::deref::Deref::deref", "core::convert::AsRef::as_ref",
       "alloc::vec::Vec::<T, A>::as_slice", "core::convert::identity", "alloc::boxed::Box::<T>::new")
def _(I, st, n, ga, ra, a, d):
    if a[0].op == "ref": return I.read_loc(st, a[0].a[0])
    return a[0]


@model("core::convert::Into::into", "core::convert::From::from")
def _(I, st, n, ga, ra, a, d):
    if len(ga) >= 2 and ga[0] == ga[1]: return a[0]
    if n.endswith("Into<U>>::into") or n == "core::convert::Into::into":
        res_ = I.resolve("core::convert::From", "from", [ga[1], ga[0]])
        if res_:
            b, m = res_
            return list(I.run(b, a, m, st, d + 1))
    return None


@model("core::ops::function::FnOnce::call_once", "core::ops::function::FnMut::call_mut", "core::ops::function::Fn::call")
def _(I, st, n, ga, ra, a, d):
    f = a[0]
    if f.op == "ref": f = I.read_loc(st, f.a[0])
    args = list(a[1].a[1:]) if a[1].op == "agg" else [a[1]]
    return I.call(st, f, args, d)


# f64
F = "std::f64::<impl f64>::"
CF64 = "core::f64::<impl f64>::"


def canon_sign(p):
    q = as_poly(p)
    if q and q[0][1] < 0: return pneg(p), -1
    return p, 1


def t_sin(x):
    c = const_of(x)
    if c is not None: return num(math.sin(c))
    y, s = canon_sign(x)
    return pscale(mk("sin", y), s)


def t_cos(x):
    c = const_of(x)
    if c is not None: return num(math.cos(c))
    y, _ = canon_sign(x)
    return mk("cos", y)


@model(F + "sin")
def _(I, st, n, ga, ra, a, d): return t_sin(a[0])


@model(F + "cos")
def _(I, st, n, ga, ra, a, d): return t_cos(a[0])


@model(F + "sin_cos")
def _(I, st, n, ga, ra, a, d): return mk("agg", ("tuple",), t_sin(a[0]), t_cos(a[0]))


@model(F + "mul_add")
def _(I, st, n, ga, ra, a, d): return padd(pmul(a[0], a[1]), a[2])


@model(F + "powi")
def _(I, st, n, ga, ra, a, d):
    c = const_of(a[1])
    if c is not None and 0 <= c <= 6:
        r = num(1)
        for _ in range(int(c)): r = pmul(r, a[0])
        return r


@model(CF64 + "to_radians")
def _(I, st, n, ga, ra, a, d): return pscale(a[0], PI / 180)


@model(CF64 + "to_degrees")
def _(I, st, n, ga, ra, a, d): return pscale(a[0], 180 / PI)


def fun1(op):
    def f(I, st, n, ga, ra, a, d):
        c = const_of(a[0])
        if c is not None and hasattr(math, op) and op in ("sqrt", "exp", "floor"):
            try: return num(getattr(math, op)(c))
            except ValueError: pass
        return mk("f:" + op, *a)
    return f


for _o in ("sqrt", "exp", "floor", "ceil", "abs", "tan", "asin", "acos", "atan", "atan2", "ln", "log10", "rem_euclid", "min", "max",
           "trunc", "round", "powf", "hypot", "signum", "is_nan", "is_finite", "cbrt", "clamp", "div_euclid", "copysign", "sinh", "cosh", "tanh", "is_sign_negative", "recip"):
    MODELS[F + _o] = fun1(_o); MODELS[CF64 + _o] = fun1(_o)

# qtty quantities: value in unit
Q = "qtty_core::quantity::Quantity::<U, S>::"


def unit_arg(ty):
    t = tys.parse(ty)
    return t


@model(Q + "new", Q + "value", Q + "value_ref", "qtty_core::quantity::Quantity::<U>::new", "qtty_core::quantity::Quantity::<U>::value", "qtty_core::quantity::Quantity::<U>::new_const")
def _(I, st, n, ga, ra, a, d): return a[0] if a[0].op != "ref" else I.read_loc(st, a[0].a[0])


def uname(t):
    return tys.show(t)


def scale_unit(u):
    """unit type tree -> (factor to base, base string)"""
    n = u[1].split("::")[-1]
    for base, tab in (("rad", UNITS), ("s", TIMEU), ("m", LENU)):
        if n in tab: return tab[n], base
    if n in ("Per", "Prod") and len(u[2]) == 2:
        a, b = scale_unit(u[2][0]), scale_unit(u[2][1])
        if a and b:
            return (a[0] / b[0], f"({a[1]}/{b[1]})") if n == "Per" else (a[0] * b[0], f"({a[1]}*{b[1]})")
    return None


def to_model(I, st, n, ga, ra, a, d):
    # generic args of Quantity<U,S>::to<T>: (U, S, T)
    us = [tys.parse(x) for x in ga]
    if len(us) < 2: return None
    u, t = us[0], us[-1]
    if u == t: return a[0]
    x, y = scale_unit(u), scale_unit(t)
    if x and y and x[1] == y[1]: return pscale(a[0], x[0] / y[0])
    if (x and not y) or (y and not x) or (not x and not y):
        val = lambda un, sc: num(sc[0]) if sc else mk("unit", uname(un))
        return pmul(a[0], pmul(val(u, x), pinv(val(t, y))))
    return mk("to", uname(u), uname(t), a[0])


for nm in ("to", "to_const", "to_lossy"):
    MODELS[Q + nm] = to_model
    MODELS["qtty_core::quantity::Quantity::<U>::" + nm] = to_model


def q_unary(f):
    def g(I, st, n, ga, ra, a, d):
        if "qtty_core::quantity::Quantity" not in n: return None
        return f(a)
    return g


def is_angle(u): return u[1].split("::")[-1] in UNITS


def q_trig(op):
    def g(I, st, n, ga, ra, a, d):
        if "qtty_core::quantity::Quantity" not in n: return None
        u = scale_unit(tys.parse(ga[0])) if ga else None
        x = pscale(a[0], u[0]) if u else mk("rad", ga[0] if ga else "", a[0])
        if op == "sin": return t_sin(x)
        if op == "cos": return t_cos(x)
        if op == "sin_cos": return mk("agg", ("tuple",), t_sin(x), t_cos(x))
        return mk("f:" + op, x)
    return g


for nm in ("sin", "cos", "sin_cos", "tan"):
    for pre in (Q, "qtty_core::quantity::Quantity::<U>::"):
        MODELS[pre + nm] = q_trig(nm)


def arith(op):
    def g(I, st, n, ga, ra, a, d):
        if len(ga) < 1: return None
        l = ga[0]; r = ga[1] if len(ga) > 1 else l
        l0 = l.lstrip("&").strip(); r0 = r.lstrip("&").strip()
        x = a[0] if a[0].op != "ref" else I.read_loc(st, a[0].a[0])
        y = (a[1] if a[1].op != "ref" else I.read_loc(st, a[1].a[0])) if len(a) > 1 else None
        isq = lambda s: s.startswith("qtty_core::quantity::Quantity") or s in ("f64", "f32")
        if l0.startswith("affn::ops::rotation::Rotation3"):
            if r0.startswith("affn::ops::rotation::Rotation3"): return rmul(x, y)
            return apply_rot(x, y)
        kl, kr = affn_kind(l0), affn_kind(r0)
        if kl and op == "neg": return mk("pt", kl, params_of(x), lv_scale(arr_of(x), num(-1)))
        if kl and kr and op in ("add", "sub"):
            k = "V" if (kl, kr, op) == ("P", "P", "sub") else kl
            return mk("pt", k, params_of(x) if k == "P" else UNIT, lv_add(arr_of(x), arr_of(y), 1.0 if op == "add" else -1.0))
        if kl and op in ("mul", "div") and isq(r0):
            return mk("pt", kl, params_of(x), lv_scale(arr_of(x), y if op == "mul" else pinv(y)))
        if op == "neg" and isq(l0): return pneg(x)
        if isq(l0) and isq(r0):
            if op == "add": return padd(x, y)
            if op == "sub": return padd(x, y, -1.0)
            if op == "mul": return pmul(x, y)
            if op == "div": return pmul(x, pinv(y))
        return None
    return g


for o, t in (("add", "Add"), ("sub", "Sub"), ("mul", "Mul"), ("div", "Div"), ("neg", "Neg")):
    MODELS[f"core::ops::arith::{t}::{o}"] = arith(o)

# affine types: a point/vector/direction is its centre parameters plus a component array
def deref(I, st, v): return I.read_loc(st, v.a[0]) if v.op == "ref" else v


def _affn():
    KI = {"P": "affn::cartesian::position::Position::<C, F, U>::", "V": "affn::cartesian::vector::Vector::<F, U>::", "D": "affn::cartesian::direction::Direction::<F>::"}
    for kd, pre in KI.items():
        for i, ax in enumerate("xyz"):
            MODELS[pre + ax] = lambda I, st, n, ga, ra, a, d, i=i: index(arr_of(deref(I, st, a[0])), num(i))
        MODELS[pre + "as_array"] = lambda I, st, n, ga, ra, a, d: arr_of(deref(I, st, a[0]))
        MODELS[pre + "center_params"] = lambda I, st, n, ga, ra, a, d: params_of(deref(I, st, a[0]))
        for nm in ("new", "new_unchecked", "new_const"):
            MODELS[pre + nm] = lambda I, st, n, ga, ra, a, d, kd=kd: mk("pt", kd, UNIT, vec3(*a)) if len(a) == 3 else None
        MODELS[pre + "new_with_params"] = lambda I, st, n, ga, ra, a, d, kd=kd: mk("pt", kd, a[0], vec3(*a[1:]))
        MODELS[pre + "from_array"] = lambda I, st, n, ga, ra, a, d, kd=kd: mk("pt", kd, UNIT if len(a) == 1 else a[0], a[-1])
        MODELS[pre + "from_array_origin"] = lambda I, st, n, ga, ra, a, d, kd=kd: mk("pt", kd, UNIT, a[-1])
        MODELS[pre + "scale"] = lambda I, st, n, ga, ra, a, d, kd=kd: mk("pt", kd, params_of(deref(I, st, a[0])), lv_scale(arr_of(deref(I, st, a[0])), a[1]))

        def to_unit(I, st, n, ga, ra, a, d, kd=kd):
            v = deref(I, st, a[0])
            us = [tys.parse(x) for x in ga]
            u, t = us[-2], us[-1]
            x, y = scale_unit(u), scale_unit(t)
            if u == t: k = num(1)
            elif x and y and x[1] == y[1]: k = num(x[0] / y[0])
            else: k = mk("uratio", uname(u), uname(t))
            return mk("pt", kd, params_of(v), lv_scale(arr_of(v), k))
        MODELS[pre + "to_unit"] = to_unit
    for t in ("position::Position::<C, F, U>::", "direction::Direction::<F>::"):
        s_, c_ = "affn::spherical::" + t, "affn::cartesian::" + t

        def to_sph(I, st, n, ga, ra, a, d):
            v = deref(I, st, a[0])
            return v.a[0] if v.op == "cart" else mk("sph", v)

        def to_cart(I, st, n, ga, ra, a, d):
            v = deref(I, st, a[0])
            return v.a[0] if v.op == "sph" else mk("cart", v)
        MODELS[s_ + "from_cartesian"] = MODELS[c_ + "to_spherical"] = to_sph
        MODELS[s_ + "to_cartesian"] = MODELS[c_ + "from_spherical"] = to_cart


_affn()


def affn_kind(t):
    t = t.lstrip("&").strip()
    return {"affn::cartesian::position::Position": "P", "affn::cartesian::vector::Vector": "V", "affn::cartesian::direction::Direction": "D"}.get(t.split("<")[0])


# rotations
A = "affn::ops::rotation::Rotation3::"


def rx(ax): return lambda I, st, n, ga, ra, a, d: raxis(ax, a[0])


for ax in "xyz": MODELS[A + "r" + ax] = rx(ax)


def fused(axes):
    def g(I, st, n, ga, ra, a, d):
        r = rot(())
        for ax, x in zip(axes, a): r = rmul(r, raxis(ax, x))
        return r
    return g


MODELS[A + "fused_rx_rz"] = fused("xz"); MODELS[A + "fused_rz_rx"] = fused("zx")
MODELS[A + "fused_rx_rz_rx"] = fused("xzx"); MODELS[A + "fused_rz_ry_rz"] = fused("zyz")
MODELS[A + "fused_rx_rz_rx_rz"] = fused("xzxz")
MODELS[A + "from_euler_zxz"] = lambda I, st, n, ga, ra, a, d: fused("zxz")(I, st, n, ga, ra, [a[2], a[1], a[0]], d)
MODELS[A + "from_euler_xyz"] = lambda I, st, n, ga, ra, a, d: fused("zyx")(I, st, n, ga, ra, [a[2], a[1], a[0]], d)
MODELS[A + "inverse"] = MODELS[A + "transpose"] = lambda I, st, n, ga, ra, a, d: rinv(a[0])
MODELS[A + "compose"] = lambda I, st, n, ga, ra, a, d: rmul(a[0], a[1])
MODELS["affn::ops::rotation::Rotation3::IDENTITY"] = lambda *x: rot(())


@model(A + "apply_array", A + "apply_vec", A + "apply_xyz")
def _(I, st, n, ga, ra, a, d):
    if n.endswith("apply_xyz"): return None
    return apply_rot(a[0], a[1])


@model(A + "from_matrix_unchecked")
def _(I, st, n, ga, ra, a, d):
    m = a[0]
    if m.op == "agg" and all(r.op == "agg" for r in m.a[1:]):
        rows = [list(r.a[1:]) for r in m.a[1:]]
        tr = mk("agg", ("array",), *[mk("agg", ("array",), *[rows[j][i] for j in range(3)]) for i in range(3)])
        ident = all(const_of(rows[i][j]) == (1 if i == j else 0) for i in range(3) for j in range(3))
        if ident: return rot(())
        if tr.id < m.id: return rot((("M", tr.id, -1),))
    return rot((("M", m.id, 1),))


@model("core::default::Default::default")
def _(I, st, n, ga, ra, a, d):
    if "Rotation3" in ga[0]: return rot(())
    if ga[0] == "f64" or ga[0].startswith("qtty_core::quantity::Quantity"): return num(0)
    return None


@model("std::sync::once_lock::OnceLock::<T>::get_or_init")
def _(I, st, n, ga, ra, a, d): return I.apply(st, a[1], [], d)


TM = "tempoch_core::model::time::Time::<S, F>::"


def strip_ref(I, st, v):
    return I.read_loc(st, v.a[0]) if v.op == "ref" else v


@model(TM + "raw")
def _(I, st, n, ga, ra, a, d):
    v = strip_ref(I, st, a[0])
    if v.op == "time" and v.a[0] == ga: return v.a[1]
    return mk("raw", ga, v)


@model(TM + "new")
def _(I, st, n, ga, ra, a, d):
    v = a[0]
    if v.op == "raw" and v.a[0] == ga: return v.a[1]
    return mk("time", ga, v)


def assign(op):
    f = arith(op)
    def g(I, st, n, ga, ra, a, d):
        if a[0].op != "ref": return None
        cur = I.read_loc(st, a[0].a[0])
        v = f(I, st, n, ga, ra, [cur, a[1]], d)
        if v is None or isinstance(v, list): return None
        I.write_loc(st, a[0].a[0], v)
        return UNIT
    return g


for o, t in (("add", "Add"), ("sub", "Sub"), ("mul", "Mul"), ("div", "Div")):
    MODELS[f"core::ops::arith::{t}Assign::{o}_assign"] = assign(o)

_old_from = MODELS["core::convert::From::from"]


@model("core::convert::Into::into", "core::convert::From::from")
def _(I, st, n, ga, ra, a, d):
    QN = "qtty_core::quantity::Quantity<"
    if len(ga) >= 2 and ga[0].startswith(QN) and ga[1].startswith(QN):
        dst, src = (ga[0], ga[1]) if "From" in n else (ga[1], ga[0])
        u, t = tys.parse(src)[2][0], tys.parse(dst)[2][0]
        return to_model(I, st, n, (tys.show(u), tys.show(t)), ra, a, d)
    return _old_from(I, st, n, ga, ra, a, d)


for nm in ("sin", "cos", "sin_cos", "tan"):
    MODELS["qtty_core::units::angular::<impl qtty_core::quantity::Quantity<U, S>>::" + nm] = (lambda op: lambda I, st, n, ga, ra, a, d: q_trig(op)(I, st, "qtty_core::quantity::Quantity", ga, ra, a, d))(nm)


@model("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne", "core::cmp::PartialOrd::lt", "core::cmp::PartialOrd::le", "core::cmp::PartialOrd::gt", "core::cmp::PartialOrd::ge")
def _(I, st, n, ga, ra, a, d):
    t = ga[0].lstrip("&")
    if t.startswith("qtty_core::quantity::Quantity") or t in ("f64", "usize", "i32", "u32", "i64", "u8") or t.startswith("tempoch_core::model::time::Time"):
        op = {"eq": "Eq", "ne": "Ne", "lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[n.split("::")[-1]]
        return binop(op, strip_ref(I, st, a[0]), strip_ref(I, st, a[1]))
    return None


@model(A + "as_matrix")
def _(I, st, n, ga, ra, a, d):
    w = as_rot(strip_ref(I, st, a[0]))
    if len(w) == 1 and w[0][0] == "M" and w[0][2] == 1 and BYID[w[0][1]].op == "agg": return BYID[w[0][1]]
    return mk("mat", rot(w))


NAMED_CONST = {"affn::ops::rotation::Rotation3::IDENTITY": rot(())}
