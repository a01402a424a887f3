"""P02 centre shifts: zero on the diagonal, antisymmetric, additive through the solar-system barycentre; every
centre-changing conversion adds exactly the provider's shift; parameterised centres come back to where they started.

Deciding step: shift bodies are evaluated symbolically into linear combinations of rotated position vectors
(a free module over opaque sources such as `sun_barycentric(jd)`); two shifts are equal iff the combinations are.
"""
import sym, mir
from sym import mk, lv_add, lv_make, lv_terms, const_of
from report import Check
from r_p01 import cond, show, short, describe

CSP = "CenterShiftProvider"
HUB = "Barycentric"
ZERO = mk("lv", ())


def norm(v):
    if v.op == "agg" and v.a[0][0] == "array" and all(const_of(x) == 0 for x in v.a[1:]): return ZERO
    return v


def comb(v):
    """normal form of a linear combination: {source id: coefficient id}"""
    d = {}
    for a, k in lv_terms(norm(v)).items():
        t = sym.BYID[a]
        if t.op == "arr": t = t.a[0]
        if t.op == "apply" and t.a[1].op == "arr": t = mk("apply", t.a[0], t.a[1].a[0])
        if norm(t) is ZERO: continue
        d[t.id] = sym.padd(d.get(t.id, sym.num(0)), k)
    return {a: k.id for a, k in d.items() if const_of(k) != 0}


def add(x, y, s=1.0):
    x = norm(x); y = norm(y)
    return lv_add(mk("arr", x) if x.op == "apply" else x, mk("arr", y) if y.op == "apply" else y, s)


def providers(db):
    P = {}
    for b in db.bodies.values():
        if (b.d.get("trait") or "").endswith("::" + CSP):
            a, c = map(short, b.d["targs"][1:3])
            P[(a, c)] = b
    return P


def run(db):
    ck = Check("P02", "symbolic evaluation of every centre-shift body to linear combinations of rotated position vectors; antisymmetry, zero diagonal, additivity through the barycentre, and conversions add exactly the shift")
    P = providers(db)
    ck.count("shift providers", len(P)); ck.floor("shift providers", 60)
    jd, ctx = mk("var", "jd"), mk("var", "ctx")
    I = sym.Interp(db)
    ev = lambda k, st=None: I.run(P[k], [jd, ctx], {}, st or sym.State())
    for (a, b), body in sorted(P.items()):
        if a == b or a in ("C", "C1"):
            for s, v in ev((a, b)):
                ck.ob(); ck.count("zero shifts")
                if comb(v): ck.violation(f"zero:{a}", f"{body.where()} the shift {a}->{b} is not zero: {show(v)}")
            continue
        if (b, a) not in P:
            ck.violation(f"missing-inverse:{a}->{b}", f"{body.where()} {a}->{b} is offered but {b}->{a} is not"); continue
        done = {}
        for s, v in ev((a, b)):
            for s2, w in ev((b, a), s.fork()):
                ck.ob(); ck.count("antisymmetric pairs")
                if comb(add(v, w)):
                    done.setdefault("a", f"{body.where()} shift {a}->{b} plus shift {b}->{a} ({P[(b,a)].where()}) is {text(add(v, w))}, not zero, under {cond(s2)}")
            if HUB not in (a, b) and (a, HUB) in P and (HUB, b) in P:
                for s2, u in ev((a, HUB), s.fork()):
                    for s3, w in ev((HUB, b), s2):
                        ck.ob(); ck.count("barycentric triangles")
                        d = comb(add(add(u, w), v, -1.0))
                        if d: done.setdefault("h", f"{body.where()} shift {a}->{b} differs from {a}->{HUB}->{b} by {text(add(add(u, w), v, -1.0))} under {cond(s3)}")
        if "a" in done: ck.violation(f"antisymmetry:{a}->{b}", done["a"])
        if "h" in done: ck.violation(f"additive:{a}->{b}", done["h"])
    sources(db, ck, I, P)
    generic(db, ck, I)
    roundtrips(db, ck, I)
    ext(db, ck, I)
    ck.floor("antisymmetric pairs", 80); ck.floor("barycentric triangles", 50)
    return ck.finish("Every centre-shift provider was evaluated on every path; the resulting vector combinations were compared exactly. Centre-changing conversions were evaluated and compared with position + shift.")


def text(v):
    return " + ".join(f"{sym.show(sym.BYID[k])[:40]}*{sym.show(sym.BYID[a])[:160]}" for a, k in comb(v).items())[:500]


SRC = {"Heliocentric": "sun_barycentric", "Geocentric": "earth_barycentric"}


def sources(db, ck, I, P):
    """the barycentric leg of a centre is that very body's barycentric position, with a plus sign"""
    jd, ctx = mk("var", "jd"), mk("var", "ctx")
    for (a, b), body in sorted(P.items()):
        if b != HUB or a == HUB: continue
        for s, v in I.run(body, [jd, ctx], {}, sym.State()):
            t = {sym.BYID[x]: sym.BYID[k] for x, k in comb(v).items()}
            if a in SRC:
                ck.ob(); ck.count("source vectors")
                good = len(t) == 1 and all(const_of(k) == 1 for k in t.values()) and all(
                    x.op == "apply" and x.a[1].op == "call" and x.a[1].a[0].endswith("::" + SRC[a]) and x.a[1].a[2] is jd for x in t)
                if not good: ck.violation(f"source:{a}", f"{body.where()} the shift {a}->{HUB} is not the {SRC[a]} vector of the context's ephemeris: {text(v)}")
            elif a not in ("Moon",) and not a.startswith("SunEarth"):
                own = [x for x in db.bodies.values() if x.kind == "fn" and x.path.endswith(f"::<impl bodies::solar_system::{a}>::vsop87e")]
                if len(own) != 1: continue
                for s2, w in I.run(own[0], [jd], {}, s.fork()):
                    ck.ob(); ck.count("source vectors")
                    want = w.a[2] if w.op == "pt" else mk("arr", w)
                    good = len(t) == 1 and all(const_of(k) == 1 for k in t.values()) and all(x.op == "apply" and same(x.a[1], want) for x in t)
                    if not good: ck.violation(f"source:{a}", f"{body.where()} the shift {a}->{HUB} is not the barycentric position of {a}: {text(v)}")
            elif a == "Moon":
                ck.ob(); ck.count("source vectors")
                names = sorted(x.a[1].a[0].split("::")[-1] if x.op == "apply" and x.a[1].op == "call" else "?" for x in t)
                if names != ["earth_barycentric", "moon_geocentric"] or not all(float(const_of(k) or 0) > 0 for k in t.values()):
                    ck.violation("source:Moon", f"{body.where()} the shift Moon->{HUB} is not earth_barycentric + moon_geocentric: {text(v)}")
    ck.floor("source vectors", 5)


def same(x, y):
    strip = lambda t: t.a[0] if t.op == "arr" else t
    return strip(x) is strip(y)


def generic(db, ck, I):
    """Position<C1>::to_center_as::<C2> adds shift<C1,C2>"""
    for b in db.bodies.values():
        if b.kind != "fn" or not (b.d.get("trait") or "").endswith("::TransformCenter") or not b.path.endswith("to_center_as"): continue
        c1 = sym.tys.parse(b.d["self"])[2][0][1]; c2 = sym.tys.parse(b.d["targs"][1])[1]
        if "::" in c1: continue
        self_, par, jd, ctx = (mk("var", x) for x in ("self", "params", "jd", "ctx"))
        ck.count("generic centre conversions")
        for s, v in I.run(b, [self_, par, jd, ctx], {}, sym.State()):
            ck.ob()
            ok = v.op == "pt" and linear_ok(v.a[2], self_, c1, c2, jd, lambda c: c is ctx, None)
            if not ok: ck.violation(f"generic:{c1}->{c2}", f"{b.where()} the generic centre conversion is not position + shift<{c1},{c2}>(jd, ctx): {show(v)[:300]}")
    ck.floor("generic centre conversions", 1)


def roundtrips(db, ck, I):
    """Geocentric -> parameterised centre -> Geocentric is the identity"""
    T = {}
    for b in db.bodies.values():
        if b.kind == "fn" and (b.d.get("trait") or "").endswith("::TransformCenter") and b.path.endswith("to_center_as"):
            T[(sym.tys.parse(b.d["self"])[2][0][1].split("::")[-1], sym.tys.parse(b.d["targs"][1])[1].split("::")[-1])] = b
    jd, ctx = mk("var", "jd"), mk("var", "ctx"); U = mk("agg", ("tuple",))
    for (a, c), f in sorted(T.items()):
        if "::" in a or (c, a) not in T or len(a) <= 2: continue
        if a != "Geocentric": continue
        ck.count("parameterised round trips")
        self_ = mk("var", "self"); par = mk("var", "params")
        for s, v in I.run(f, [self_, par, jd, ctx], {}, sym.State()):
            if v.op == "pt" and v.a[1] is not par:
                ck.violation(f"params:{a}->{c}", f"{f.where()} the converted position does not carry the requested centre parameters: {show(v.a[1])[:200]}")
            for s2, w in I.run(T[(c, a)], [v, U, jd, ctx], {}, s.fork()):
                ck.ob()
                if w.op != "pt": ck.violation(f"roundtrip:{c}", f"{f.where()} cannot follow {a}->{c}->{a}"); continue
                d = comb(add(w.a[2], sym.arr_of(self_), -1.0))
                if d: ck.violation(f"roundtrip:{c}", f"{f.where()} {a}->{c}->{a} moves the position by {text(add(w.a[2], sym.arr_of(self_), -1.0))} under {cond(s2)}")
    ck.floor("parameterised round trips", 2)


def ext(db, ck, I):
    """Position::to / to_with = position plus shift, then rotation (or the converse), never anything else"""
    for b in db.bodies.values():
        if b.kind != "fn" or not (b.d.get("trait") or "").endswith("AstroExt"): continue
        nm = b.path.split("::")[-1]
        if nm not in ("to", "to_with"): continue
        self_, jd, ctx = mk("var", "self"), mk("var", "jd"), mk("var", "ctx")
        ck.count("combined conversions")
        gens = b.d.get("generics", [])
        c1, f1 = [x[1] for x in sym.tys.parse(b.d["self"])[2][:2]]
        okc = (lambda c: c.op == "call" and "astro_context" in c.a[0]) if nm == "to" else (lambda c: c.op == "call" and "astro_context" in c.a[0] and c.a[2] is ctx)
        for s, v in I.run(b, [self_, jd, ctx][:b.argc], {}, sym.State()):
            ck.ob()
            if not (v.op == "pt" and linear_ok(v.a[2], self_, c1, "C2", jd, okc, (f1, "F2"))):
                ck.violation(f"ext:{nm}", f"{b.where()} {nm} is not rotation<{f1},F2>(position + shift<{c1},C2>): {show(v)[:300]}")
    ck.floor("combined conversions", 2)


def gargs(c): return [sym.tys.show(y) for y in sym.tys.parse("X<" + c.a[1] + ">")[2]]


def linear_ok(arr, self_, c1, c2, jd, okctx, frames):
    """arr == [R](self) + unit * [R](shift<c1,c2>), R the rotation between `frames` when given"""
    def unrot(x):
        """(number of frame rotations applied, inner) or None when another rotation is there"""
        if x.op != "apply": return 0, x
        w = x.a[0].a[0]
        if len(w) != 1 or w[0][0] != "M" or w[0][2] != 1: return None
        c = sym.BYID[w[0][1]]
        if c.op != "call" or not c.a[0].endswith("FrameRotationProvider::rotation"): return None
        if frames is None or gargs(c)[1:3] != list(frames) or c.a[2] is not jd or not okctx(c.a[3]): return None
        return 1, (x.a[1].a[0] if x.a[1].op == "arr" else x.a[1])
    t = {sym.BYID[x]: sym.BYID[k] for x, k in comb(arr).items()}
    if len(t) != 2: return False
    seen = set()
    for x, k in t.items():
        r = unrot(x)
        if r is None: return False
        n, c = r
        if c is self_:
            if const_of(k) != 1 or n != (1 if frames else 0): return False
            seen.add("self")
        elif c.op == "call" and c.a[0].endswith(CSP + "::shift"):
            g = gargs(c)
            if g[1:3] != [c1, c2] or c.a[2] is not jd or not okctx(c.a[3]): return False
            if frames and g[3] != frames[0 if n else 1]: return False
            if not unit_scale(k): return False
            seen.add("shift")
    return seen == {"self", "shift"}


def unit_scale(k):
    """1, or astronomical units expressed in the position's own unit"""
    p = sym.as_poly(k)
    if len(p) != 1: return False
    m, c = p[0]
    if not m: return c == 1
    return len(m) == 1 and m[0][1] == -1 and sym.BYID[m[0][0]].op == "unit" and c == sym.LENU["AstronomicalUnit"]
