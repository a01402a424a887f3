"""P05: an instant or day count in one time scale or format is never used as another."""
import scales
from mir import pl, callee
from report import Check

# day counts of the epochs that instants are shifted by, and lengths of the units that day counts are divided by
EPOCH = {2400000.5: "MJD zero point", 2451545.0: "J2000.0 in JD", 51544.5: "J2000.0 in MJD"}
SPAN = {36525.0: "Julian century", 365250.0: "Julian millennium"}


def constant(o):
    if o[0] != "k" or "f" not in o[1]: return None
    try: return float(o[1]["f"])
    except (TypeError, ValueError): return None


def shifts(ck, db):
    """constants added to or taken from a day count, and centuries divided out of one, that miss the exact value"""
    for b in db.local_fns():
        sites = []
        for bi in b.reachable():
            stmts, t = b.blocks[bi][0], b.blocks[bi][1]
            for p, r, ln in stmts:
                if r[0] == "bin": sites.append((r[1], r[2], r[3], ln))
                elif r[0] in ("use", "agg"): sites += [("hold", o, None, ln) for o in (r[2] if r[0] == "agg" else [r[1]])]
            if t[0] == "call": sites += [("pass", o, None, t[5]) for o in t[2]]
        for op, x, y, ln in sites:
            for c in (constant(o) for o in (x, y) if o is not None):
                if c is None: continue
                for e, what in EPOCH.items():
                    if not abs(abs(c) - e) <= 1.0: continue
                    ck.ob(); ck.count("epoch constants")
                    if abs(c) != e: ck.violation(f"{b.path}|epoch|{c}", f"{b.where(ln)} in {b.path}: a day count is shifted by {c!r}, {abs(c) - e:+g} days off the {what} ({e!r})")
            c = constant(y) if y is not None and op == "Div" else None
            for e, what in SPAN.items():
                if c is None or not abs(c - e) <= 0.02 * e: continue
                ck.ob(); ck.count("century divisors")
                if c != e: ck.violation(f"{b.path}|span|{c}", f"{b.where(ln)} in {b.path}: days are divided by {c!r}, which is not the {what} ({e!r})")



def run(db):
    ck = Check("P05", "interprocedural label propagation over MIR: time scale and day-count format of every instant and of the plain numbers taken out of it, up to every argument, field, return, comparison and polynomial")
    viol = {}
    S = scales.Scales(db, lambda b, ln, what, x, y, ctx: viol.setdefault((b.path, what, x, y), (b.where(ln), ctx)))
    for b in db.local_fns(): S.fn(b, [None] * b.argc)
    S.flush()
    for (path, what, x, y), (where, ctx) in sorted(viol.items()):
        a, c = x.split("::")[-1], y.split("::")[-1]
        via = "" if not ctx else " reached through " + " > ".join(f"{p.split('::')[-1]}:{l}" for p, l in ctx)
        how = f"an instant in {a} meets one in {c}" if what.startswith("difference") else f"an instant in {a} is used where {c} is meant"
        ck.violation(f"{path}|{what}|{a}|{c}", f"{where} in {path} ({what}): {how}{via}")
    shifts(ck, db)
    ck.floor("epoch constants", 20); ck.floor("century divisors", 3)
    for k, v in S.sites.items():
        ck.count(f"{k} sites", len(v)); ck.ob(len(v))
    ck.count("sites with a known scale", len(S.known)); ck.count("contexts analysed", len(S.memo))
    for k in sorted(S.known, key=str)[:30]: ck.sample(f"{k[2]} at {db.bodies[k[0]].where(k[1])} keeps its time scale")
    ck.floor("argument sites", 250); ck.floor("sites with a known scale", 350)
    ck.assume.append("TT may be used for TDB only where the types say so; UTC obtained from TT through the documented delta-T approximation counts as UTC")
    return ck.finish("the scale of an instant comes from its type, from the name that documents it (jd_ut1, et_s, epoch_utc) or from the conversion that produced it, and survives copies, wrapping in and out of the TT-typed carrier, small offsets and JD/MJD shifts")
