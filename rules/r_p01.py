"""P01 frame rotations: exact inverses, path independence, and every public way of asking for a
frame change applies exactly the provider's rotation.

Deciding step: each rotation is evaluated symbolically into a reduced word of the free group generated
by Rx/Ry/Rz(angle) and opaque matrices; angles are polynomials over opaque atoms (series, EOP values).
Two rotations are equal on a path iff their reduced words are identical.
"""
import multiprocessing as mp, os
import sym, mir, flow
from sym import mk, rot, rmul, rinv
from report import Check

FRP = "FrameRotationProvider"
HUB = "ICRS"
SHIFT_TRAITS = ("TransformFrame",)


def short(s): return s.split("::")[-1]


def providers(db):
    P = {}
    for b in db.bodies.values():
        if (b.d.get("trait") or "").endswith("::" + FRP):
            a, c = map(short, b.d["targs"][1:3])
            P[(a, c)] = b
    return P


_G = {}


def _work(task):
    kind, args = task
    db, P, I = _G["db"], _G["P"], _G["I"]
    out = []

    def chain(legs, st=None):
        work = [(st or sym.State(), rot(()))]
        for l in legs:
            nw = []
            for s, w in work:
                for s2, v in I.run(P[l], [mk("var", "jd"), mk("var", "ctx")], {}, s):
                    nw.append((s2, rmul(v, w)))
            work = nw
        return work

    n = 0
    try:
        a, b = args
        if kind == "inv":
            for s, v in chain([(a, b)]):
                for s2, w in chain([(b, a)], s.fork()):
                    n += 1
                    d = rmul(w, v)
                    if d is not rot(()):
                        out.append((f"inverse:{a}->{b}", f"{P[(a,b)].where()} {a}->{b} followed by {b}->{a} ({P[(b,a)].where()}) is not the identity; residual word {show(d)} under {cond(s2)}"))
        elif kind == "hub":
            for s, v in chain([(a, b)]):
                for s2, w in chain([(a, HUB), (HUB, b)], s.fork()):
                    n += 1
                    d = rmul(rinv(w), v)
                    if d is not rot(()):
                        out.append((f"hub:{a}->{b}", f"{P[(a,b)].where()} the direct rotation {a}->{b} differs from {a}->{HUB}->{b}; residual word {show(d)} under {cond(s2)}"))
        elif kind == "id":
            for s, v in chain([(a, a)]):
                n += 1
                if v is not rot(()):
                    out.append((f"identity:{a}", f"{P[(a,a)].where()} rotation {a}->{a} is {show(v)}"))
    except sym.Budget as e:
        out.append((f"undecided:{kind}:{args[0]}->{args[1]}", f"analysis budget exceeded: {e}"))
    seen = {}
    for k, m in out: seen.setdefault(k, m)
    return n, list(seen.items()), len(I.inlined), kind


def show(t):
    s = sym.show(t)
    return s if len(s) < 400 else s[:400] + "…"


def cond(s):
    return "; ".join(f"{sym.show(k)[:60]}={v}" for k, v in list(s.pc.items())[:4]) or "no condition"


def rotations_of(I, body, args, ts):
    """[(state, word)] of the rotations applied to `self` by a transform body"""


def run(db):
    ck = Check("P01", "symbolic evaluation of every frame-rotation body to reduced words of the free rotation group; word identity on each path")
    P = providers(db)
    frames = sorted({a for a, _ in P} | {b for _, b in P})
    concrete = [(a, b) for (a, b) in P if not (a == "F" or b == "F")]
    ck.count("rotation providers", len(P)); ck.count("frames", len([f for f in frames if f != "F"]))
    ck.floor("rotation providers", 150)
    tasks = []
    for (a, b) in concrete:
        if a == b: tasks.append(("id", (a, a))); continue
        if (b, a) in P:
            tasks.append(("inv", (a, b)))
        else:
            ck.violation(f"missing-inverse:{a}->{b}", f"{P[(a,b)].where()} {a}->{b} is offered but {b}->{a} is not")
        if a != HUB and b != HUB:
            if (a, HUB) in P and (HUB, b) in P:
                tasks.append(("hub", (a, b)))
    obliquity_lemma(db, ck)
    I = sym.Interp(db, models=nut_models(db))
    _G.update(db=db, P=P, I=I)
    ctx = mp.get_context("fork")
    with ctx.Pool(min(8, os.cpu_count() or 1)) as pool:
        res = pool.map(_work, tasks, chunksize=4)
    for n, viol, ninl, kind in res:
        ck.ob(n); ck.count({"inv": "inverse pairs", "hub": "hub triangles", "id": "identities"}[kind]); ck.count("paths", n)
        for k, m in viol: ck.violation(k, m)
    ck.floor("inverse pairs", 150); ck.floor("hub triangles", 100)
    named(db, ck, P)
    transforms(db, ck, P)
    return ck.finish("Every frame-rotation provider body was evaluated on every path into a reduced free-group word; inverse pairs, "
                     "identity and hub triangles were compared word by word, as were the fixed-frame conversions and the public conversion methods that must apply the provider's rotation.")


OBL = "siderust::astro::precession::mean_obliquity_iau2006"
NUT = "siderust::astro::nutation::NutationModel::nutation"


def nut_models(db):
    """the abstract nutation model's mean obliquity is the IAU 2006 polynomial (lemma below)"""
    obl = db.fn(OBL)

    def m(I, st, n, ga, ra, a, d):
        c = mk("call", NUT, ",".join(ga), *a)
        (s, v), = list(I.run(obl, list(a), {}, st, d + 1))
        return mk("upd", c, "mean_obliquity", v)
    return {NUT: m} if obl is not None else {}


def obliquity_lemma(db, ck):
    """every constructed nutation value carries mean_obliquity_iau2006 of the same epoch (or a copied field)"""
    for b in db.local_fns():
        df = None
        for bb in b.blocks:
            if not bb: continue
            for p, r, ln in bb[0]:
                if r[0] == "agg" and r[1][0] == "adt" and "mean_obliquity" in r[1][5] and "nutation" in r[1][1].lower():
                    df = df or flow.Defs(b)
                    o = df.origin(r[2][r[1][5].index("mean_obliquity")])
                    ck.ob(); ck.count("mean-obliquity constructions")
                    good = (o[0] == "call" and mir.callee(o[1])[0] == OBL and df.origin(o[1][2][0])[0] == "arg") or \
                           (o[0] in ("call", "arg", "local") and o[2] and o[2][-1][0] == "." and o[2][-1][2] == "mean_obliquity")
                    if not good:
                        ck.violation(f"obliquity:{b.path}", f"{b.where(ln)} {b.path} builds nutation angles whose mean obliquity is not the precession model's mean obliquity of the same date: mean-of-date -> true-of-date no longer composes with precession")
    ck.floor("mean-obliquity constructions", 3)


def eval_rot(I, body, args, ts=None):
    return list(I.run(body, args, ts or {}, sym.State()))


# (function, frame from, frame to): free functions documented to be that rotation
NAMED = [
    ("siderust::coordinates::transform::frames::bias::frame_bias_icrs_to_j2000", "ICRS", "EquatorialMeanJ2000"),
    ("siderust::coordinates::transform::frames::bias::frame_bias_j2000_to_icrs", "EquatorialMeanJ2000", "ICRS"),
    ("siderust::coordinates::transform::frames::bias::obliquity_eq_to_ecl", "EquatorialMeanJ2000", "EclipticMeanJ2000"),
    ("siderust::coordinates::transform::frames::bias::obliquity_ecl_to_eq", "EclipticMeanJ2000", "EquatorialMeanJ2000"),
    ("siderust::coordinates::transform::frames::bias::icrs_to_ecliptic_j2000", "ICRS", "EclipticMeanJ2000"),
    ("siderust::coordinates::transform::frames::bias::ecliptic_j2000_to_icrs", "EclipticMeanJ2000", "ICRS"),
    ("siderust::astro::earth_rotation_provider::itrs_to_equatorial_mean_j2000_rotation", "ITRF", "EquatorialMeanJ2000"),
]
INVERSES = [
    ("siderust::astro::precession::gcrs_to_ecliptic_of_date_matrix", "siderust::astro::precession::ecliptic_of_date_to_gcrs_matrix"),
    ("siderust::astro::precession::gcrs_to_true_ecliptic_of_date_matrix", "siderust::astro::precession::true_ecliptic_of_date_to_gcrs_matrix"),
    ("siderust::astro::precession::mean_equatorial_to_ecliptic_of_date_matrix", "siderust::astro::precession::ecliptic_of_date_to_mean_equatorial_matrix"),
    ("siderust::astro::precession::mean_equatorial_to_true_ecliptic_of_date_matrix", "siderust::astro::precession::true_ecliptic_of_date_to_mean_equatorial_matrix"),
]


def argvars(b):
    out = []
    for i in range(b.argc):
        t = b.ty(i + 1)
        out.append(mk("var", "jd") if "Time<" in t and i == 0 else mk("var", "ctx") if "AstroContext" in t else mk("var", f"a{i}"))
    return out


def named(db, ck, P):
    I = sym.Interp(db, models=nut_models(db))
    for path, a, b in NAMED:
        f = db.fn(path)
        if f is None or (a, b) not in P: continue
        ck.count("named rotations")
        sub = {g: sym.tys.parse(g) for g in f.d.get("generics", [])}
        bad = None
        for s, v in I.run(f, argvars(f), sub, sym.State()):
            for s2, w in I.run(P[(a, b)], [mk("var", "jd"), mk("var", "ctx")], {}, s.fork()):
                ck.ob()
                if rmul(rinv(w), v) is not rot(()) and bad is None: bad = (v, w)
        if bad:
            res = "".join(f"{g[0]}{len(sym.as_poly(sym.BYID[g[1]]))}" for g in rmul(rinv(bad[1]), bad[0]).a[0])
            ck.violation(f"named:{short(path)}:{res}", f"{f.where()} {short(path)} = {show(bad[0])} but the provider's {a}->{b} is {show(bad[1])}")
    for p, q in INVERSES:
        f, g = db.fn(p), db.fn(q)
        if f is None or g is None: continue
        ck.count("named rotations")
        for s, v in I.run(f, argvars(f), {}, sym.State()):
            for s2, w in I.run(g, argvars(g), {}, s.fork()):
                ck.ob()
                if rmul(w, v) is not rot(()):
                    ck.violation(f"named-inverse:{short(p)}", f"{g.where()} {short(q)} is not the inverse of {short(p)}: residual {show(rmul(w, v))}")


def frame_of(ty, pos):
    t = sym.tys.parse(ty)
    return t[2][pos][1].split("::")[-1] if t[2] else None


KINDS = {"Position": (1, "P"), "Direction": (0, "D"), "Vector": (0, "V")}


def describe(ty):
    """(kind, spherical?, frame) of a coordinate type"""
    t = sym.tys.parse(ty)
    nm = t[1].split("::")
    if nm[-1] not in KINDS or "affn" not in nm[0]: return None
    return nm[-1], "spherical" in nm, t[2][KINDS[nm[-1]][0]][1].split("::")[-1]


def strip_pt(v):
    return v if v.op == "pt" else None


def transforms(db, ck, P):
    """every conversion method must apply exactly the provider's rotation to its operand"""
    I = sym.Interp(db)
    for b in db.bodies.values():
        tr = (b.d.get("trait") or "").split("::")[-1]
        nm = b.path.split("::")[-1]
        if b.kind != "fn": continue
        if tr == "TransformFrame" and nm == "to_frame":
            fixed_transform(ck, I, P, b)
        elif tr.endswith("AstroExt") and nm in ("to_frame", "to_frame_with"):
            ext_transform(ck, I, b, nm)
    ck.floor("fixed frame conversions", 15); ck.floor("context frame conversions", 8)


def fixed_transform(ck, I, P, b):
    src = describe(b.d["self"]); dst = describe(b.d["targs"][1])
    if not src or not dst or src[1] or src[2] in ("F", "F1"): return
    a, c = src[2], dst[2]
    if (a, c) not in P: return
    ck.count("fixed frame conversions")
    self_ = mk("var", "self")
    for s, v in I.run(b, [self_], {}, sym.State()):
        for s2, w in I.run(P[(a, c)], [mk("var", "jd"), mk("var", "ctx")], {}, s.fork()):
            ck.ob()
            want = sym.apply_rot(w, sym.arr_of(self_))
            key = f"convert:{src[0]}:{a}->{c}"
            if v.op != "pt":
                ck.violation(key, f"{b.where()} {src[0]}<{a}>::to_frame does not reduce to a rotation of its operand: {show(v)}")
            elif v.a[2] is not want:
                ck.violation(key, f"{b.where()} {src[0]}<{a}> -> {c} yields {show(v.a[2])} but the provider's rotation gives {show(want)}")
            elif src[0] == "Position" and v.a[1] is not sym.params_of(self_):
                ck.violation(key, f"{b.where()} Position<{a}> -> {c} does not keep the centre parameters of its operand: {show(v.a[1])}")


def ext_transform(ck, I, b, nm):
    self_, jd, ctx = mk("var", "self"), mk("var", "jd"), mk("var", "ctx")
    ck.count("context frame conversions")
    key = f"ext:{b.d['self'].split('::')[-1].split('<')[0]}:{'spherical' if 'spherical' in b.d['self'] else 'cartesian'}:{nm}"
    for s, v in I.run(b, [self_, jd, ctx][:b.argc], {}, sym.State()):
        ck.ob()
        arr = sym.arr_of(self_)
        if v.op == "sph":
            v = v.a[0]; arr = sym.arr_of(mk("cart", self_))
        gens = b.d.get("generics", [])
        f1 = "F"; f2 = "F2"
        ok = False
        if v.op == "pt" and v.a[2].op == "apply" and v.a[2].a[1] is arr:
            w = v.a[2].a[0].a[0]
            if len(w) == 1 and w[0][0] == "M" and w[0][2] == 1:
                c = sym.BYID[w[0][1]]
                if c.op == "call" and c.a[0].endswith(FRP + "::rotation"):
                    ta = [sym.tys.show(x) for x in sym.tys.parse("X<" + c.a[1] + ">")[2]]
                    cx = c.a[3]
                    okctx = (cx.op == "call" and "astro_context" in cx.a[0] and (cx.a[2] is ctx or nm == "to_frame"))
                    ok = ta[1:3] == [f1, f2] and c.a[2] is jd and okctx
        if not ok:
            ck.violation(key, f"{b.where()} {key} does not apply rotation<{f1},{f2}>(jd, ctx) exactly once to its operand: {show(v)}")
