"""P07: components never move from one frame or centre label to another without a transformation."""
import labels
from report import Check

# two names of one origin
SAME_CENTRE = [{"Geocentric", "EarthCenter"}]


def short(s): return s.split("<")[0].split("::")[-1]


def run(db):
    ck = Check("P07", "interprocedural label propagation over MIR: frame and centre of every component taken out of a coordinate, up to every constructor, sum and product")
    viol = {}
    L = labels.Labels(db, lambda b, ln, what, x, y, ctx: viol.setdefault((b.path, what, x, y), (b.where(ln), ctx)))
    for b in db.local_fns(): L.fn(b, [None] * b.argc)
    L.flush()
    for (path, what, x, y), (where, ctx) in sorted(viol.items()):
        a, c = short(x), short(y)
        if any({a, c} <= s for s in SAME_CENTRE): continue
        via = "" if not ctx else " reached through " + " > ".join(f"{p.split('::')[-1]}:{l}" for p, l in ctx)
        what2 = {"constructor": f"components labelled {a} are relabelled {c} without a transformation", "product": f"components in {a} are multiplied with components in {c}",
                 "sum or comparison": f"components in {a} are added to, subtracted from or compared with components in {c}"}[what]
        ck.violation(f"{path}|{what}|{a}|{c}", f"{where} in {path}: {what2}{via}")
    for k, v in L.sites.items():
        ck.count(f"{k} sites", len(v)); ck.ob(len(v))
    ck.count("sites with known labels", len(L.known)); ck.count("contexts analysed", len(L.memo))
    for k in sorted(L.known, key=str)[:30]: ck.sample(f"{k[2]} at {db.bodies[k[0]].where(k[1])} keeps its label")
    ck.floor("constructor sites", 110); ck.floor("sites with known labels", 90)
    ck.assume.append("the result of applying a rotation matrix carries no label: that it is the right matrix for its two frames is P01's concern")
    return ck.finish("every body was analysed without context and again for every combination of argument labels it is called with; a label survives copies, arrays, scaling and same-frame sums, and ends at a rotation or a dot product")
