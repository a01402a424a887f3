"""P06: no number changes its unit without a conversion.

Units are inferred for plain numbers by a context-sensitive dataflow over MIR: a number taken out of a Quantity<U>
carries U; trigonometry, unit conversions by known factors, products, quotients, powers, struct fields, tuples, calls
and closures propagate it; parameters and fields whose documented name ends in a unit start with that unit. Wrapping,
adding, comparing, passing or storing a number where another unit is required is the violation.
"""
import re
import units as U
from report import Check

_R = lambda n, d=None: U.mk(*U.BASE[n]) if d is None else U.mul(U.mk(*U.BASE[n]), U.mk(*U.BASE[d]), -1)
TOK = {"deg": _R("Degree"), "degrees": _R("Degree"), "rad": U.ONE, "radians": U.ONE, "km": _R("Kilometer"), "m": _R("Meter"), "metres": _R("Meter"), "meters": _R("Meter"),
       "au": _R("AstronomicalUnit"), "arcsec": _R("Arcsecond"), "mas": _R("MilliArcsecond"), "days": _R("Day"), "seconds": _R("Second"), "secs": _R("Second"), "sec": _R("Second"),
       "hours": _R("Hour"), "minutes": _R("Minute"), "kg": _R("Kilogram"), "nm": _R("Nanometer"), "hpa": _R("Hectopascal"), "us": _R("Microsecond"), "yr": _R("Year"), "hz": _R("Hertz"),
       "years": _R("Year"), "kms": _R("Kilometer", "Second")}
TIME = {"s": _R("Second"), "sec": _R("Second"), "second": _R("Second"), "day": _R("Day"), "d": _R("Day"), "yr": _R("Year"), "year": _R("Year"), "s2": U.mul(_R("Second"), _R("Second"))}


AXIS = {"x", "y", "z", "r", "t", "n"}


def name_tag(owner, n):
    """unit documented by a parameter or field name, None when the name documents none"""
    w = n.lower().split("_")
    if len(w) < 2: return None
    if len(w) >= 3 and w[-1] in TIME and w[-2] in TOK and w[-2] not in ("sec", "seconds", "secs", "us", "yr", "days", "hours", "minutes", "years"):
        return U.mul(TOK[w[-2]], TIME[w[-1]], -1)
    if "per" in w or w[-1] not in TOK: return None
    if w[-1] in ("m",) and len(w[-2]) <= 1 and w[0] not in AXIS: return None
    return TOK[w[-1]]


def infer(db, fields, viol):
    def rep(b, ln, what, got, want, ctx):
        viol.setdefault((b.path, what, U.name(got), U.name(want)), (b.where(ln or b.span[1]), ctx))
    inf = U.Infer(db, fields=fields, report=rep, name_tag=name_tag)
    for b in db.local_fns(): inf.fn(b, [None] * b.argc)
    inf.flush()
    return inf


def run(db):
    ck = Check("P06", "context-sensitive unit inference over MIR (dimension exponents and scale) for every number taken out of, or put into, a typed quantity")
    fields = {}
    for _ in range(2):
        viol = {}
        inf = infer(db, fields, viol)
        fields = {}
        for k, s in inf.newfields.items():
            us = []
            for x, w in s:
                if U.is_u(x) and not any(U.same(x, y) for y in us): us.append(x)
            if len(us) == 1: fields[k] = us[0]
            elif len(us) > 1:
                viol[(k[0], f"field {k[1]}", U.name(us[0]), U.name(us[1]))] = ("+".join(sorted({w.split("::")[-1] for x, w in s if U.is_u(x)})), ())
    for (path, what, got, want), (where, ctx) in sorted(viol.items(), key=str):
        via = "" if not ctx else " reached through " + " > ".join(f"{p.split('::')[-1]}:{l}" for p, l in ctx)
        ck.violation(f"{path}|{what}|{got}|{want}", f"{where} in {path}: {what} takes a number in {got} where {want} is required{via}")
    ck.ob(len(inf.site_ids)); ck.count("checked sites", len(inf.site_ids)); ck.count("sites with both units known", len(inf.known))
    for w in ("Quantity::new", "Add", "Sub", "sin", "cos", "to_radians", "to_degrees", "atan2", "asin"): ck.count(f"{w} sites", inf.sites.get(w, 0))
    ck.count("fields with an inferred unit", len(fields)); ck.count("contexts analysed", len(inf.memo))
    for k in sorted(inf.known, key=str)[:30]: ck.sample(f"{k[2]} at {db.bodies[k[0]].where(k[1])} agrees")
    ck.floor("checked sites", 700); ck.floor("sites with both units known", 330); ck.floor("Quantity::new sites", 240); ck.floor("fields with an inferred unit", 35)
    ck.assume.append("a number multiplied by an unrecognised constant, or coming from a polynomial, text or an external crate, has no inferred unit and is not judged")
    return ck.finish("every body of the crate was analysed once without context and again for every combination of argument units it is called with")
