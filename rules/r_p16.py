"""P16: every argument of an inverse sine or cosine is inside [-1, 1] under rounding."""
from mir import callee
from report import Check
from ranges import Ranges


def run(db):
    ck = Check("P16", "rounding-safe range analysis over MIR of every argument of asin and acos")
    R = Ranges(db)
    for b in db.local_fns():
        for bi in b.reachable():
            t = b.blocks[bi][1]
            if t[0] != "call": continue
            dn, rn, rec = callee(t)
            n = (rn or dn or "").split("::")[-1]
            if n not in ("asin", "acos") or rec and rec.get("id") in db.bodies: continue
            lo, hi = R.op(b, t[2][0], bi)
            ck.ob(); ck.count("inverse sine and cosine sites")
            if lo >= -1.0 and hi <= 1.0:
                ck.sample(f"{n} at {b.where(t[5])}: argument in [{lo:.6g}, {hi:.6g}]")
                continue
            ck.violation(f"{b.path}|{n}|[{lo:.4g},{hi:.4g}]", f"{b.where(t[5])} in {b.path}: the argument of {n} ranges over [{lo:.4g}, {hi:.4g}]; rounding or the inputs can push it outside [-1, 1], and the result is NaN")
    ck.floor("inverse sine and cosine sites", 18)
    ck.assume.append("a NaN that is already an input of the expression is not this property's concern; ranges describe numbers")
    return ck.finish("ranges follow clamps, min/max, comparisons on the way to the site, products, trigonometric values, components divided by their own norm, local helpers and the call sites of crate-private functions")
