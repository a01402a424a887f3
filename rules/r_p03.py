"""P03: a computation that is given a context (ephemeris, EOP provider, nutation model) uses that one.

A body *accepts* a slot when its signature is generic over the slot's trait or takes a context / dyn-ephemeris
value.  From such a body we follow calls into callees that do not themselves accept the slot (those have no way to
be given the caller's choice).  Reaching a use of the slot with a concrete provider type is a violation: the
caller's choice was silently replaced by a default.  Passing a concrete provider type as generic argument of a
callee that does accept the slot is a violation as well.
"""
import re
import mir, flow
from mir import callee
from report import Check

SLOTS = {
    "ephemeris": dict(
        traits=("ephemeris::Ephemeris", "ephemeris::DynEphemeris"),
        inputs=re.compile(r"dyn ephemeris::DynEphemeris|context::(AstroContext|ModelContext|DynAstroContext)<|dynamics::context::DynamicsContext"),
        free=re.compile(r"ephemeris::vsop87::.*<impl bodies::solar_system::(Earth|Sun)>::vsop87|ephemeris::elp2000::"),
    ),
    "Earth-orientation provider": dict(
        traits=("astro::eop::EopProvider",),
        inputs=re.compile(r"context::(AstroContext|ModelContext|DynAstroContext)<|dyn astro::eop::EopProvider"),
        free=None,
    ),
    "nutation model": dict(
        traits=("astro::nutation::NutationModel",),
        inputs=re.compile(r"context::ModelContext<"),
        free=re.compile(r"^siderust::astro::nutation::(?!NutationModel)"),
    ),
}


def accepts(db):
    """body id -> set of slots"""
    impl_preds = {}
    for im in db.impls:
        for n, i in im["items"]: impl_preds[i] = im["preds"]
    out = {}
    for i, s in db.sigs.items():
        ps = list(s["preds"]) + list(impl_preds.get(i, []))
        st = set()
        for name, sl in SLOTS.items():
            for p in ps:
                m = re.match(r"([A-Za-z_']\w*): (.*)$", p)
                if m and m.group(2).split("<")[0] in sl["traits"] and m.group(1) != "Self": st.add(name)
            if any(sl["inputs"].search(x) for x in s["in"]): st.add(name)
            if any(p for p in ps if "context::TransformContext" in p and not p.startswith("Self")): st.add(name)
        out[i] = st
    return out


def providers(db):
    """slot -> concrete provider types"""
    r = {}
    for name, sl in SLOTS.items():
        r[name] = set()
        for im in db.impls:
            t = im.get("trait") or ""
            if any(t.endswith("::" + x) or t == x or t == "siderust::" + x for x in sl["traits"]):
                if re.fullmatch(r"[A-Z]\w{0,3}", im["self"]): continue
                r[name].add(im["self"].split("<")[0])
    return r



STD = re.compile(r"^(core|alloc|std|serde\w*)::")


def uses(db, prov, b):
    """slot -> list of (line, what): concrete provider used or handed on in this body"""
    out = {}
    for bi, t in b.calls():
        d, r, rec = callee(t)
        if not d: continue
        args = rec.get("a", [])
        for name, ps in prov.items():
            if rec.get("t") and STD.match(rec["t"]) and not d.endswith("Default::default"): continue
            hit = [a for a in args if any(re.search(r"(^|[<( ,&])" + re.escape(p) + r"($|[<>), ])", a) for p in ps)]
            # a context type printed without arguments has the defaults for all of them
            hit = hit or [a for a in args if re.search(r"(^|[<( ,&])coordinates::transform::context::(Dyn)?AstroContext($|[>), ])", a)]
            if hit: out.setdefault(name, []).append((t[5], f"{d} on {hit[0]}")); continue
            fr = SLOTS[name]["free"]
            if fr and fr.search(r or d) and not rec.get("t"): out.setdefault(name, []).append((t[5], r or d))
        if d.endswith("Default::default") and args and args[0] == "astro::eop::EopValues":
            out.setdefault("Earth-orientation provider", []).append((t[5], "default EopValues"))
        if "tempoch" in d and d.endswith(("Time::<S, F>::to_with", "Time::<S, F>::to")) and any("scale::UT1" in a or a == "UT1" for a in args):
            if not any("EopValues" in b.ty(i) for i in range(1, b.argc + 1)):
                out.setdefault("Earth-orientation provider", []).append((t[5], "conversion to UT1 without Earth-orientation values"))
    for bb in b.blocks:
        for p, r, ln in (bb[0] if bb else ()):
            if r[0] == "agg" and r[1][0] == "adt" and "astro::eop::EopValues" in str(r[1]):
                out.setdefault("Earth-orientation provider", []).append((ln, "EopValues built on the spot"))
    return out


def run(db):
    ck = Check("P03", "call-graph effect analysis: from each function accepting a context slot, no path through slot-less callees reaches a use of a concrete provider of that slot")
    acc = accepts(db); prov = providers(db); cg = flow.CallGraph(db)
    for name, ps in prov.items():
        ck.count(f"concrete {name} types", len(ps)); ck.floor(f"concrete {name} types", 1)
    use = {b.id: uses(db, prov, b) for b in db.local_fns()}
    selfty = {}
    for im in db.impls:
        for n, i in im["items"]: selfty[i] = (im["self"].split("<")[0], im.get("trait") or "")
    slot_trait = lambda tr: any(tr.endswith(x) for sl in SLOTS.values() for x in sl["traits"])

    def edges(x):
        b = db.bodies[x]
        for bi, t in b.calls():
            d, r, rec = callee(t)
            if not d: continue
            tr = rec.get("t") or ""
            if tr and not r and (STD.match(tr) or slot_trait(tr)): continue
            for y in cg.targets(t): yield y
        for y, bi, t in cg.out(x):
            if t is None or (y not in cg.targets(t)): yield y

    owner = {}
    for b in db.local_fns():
        if b.kind == "closure" and b.d.get("parent"): owner[b.id] = b.d["parent"]
    for name in SLOTS:
        for b in db.local_fns():
            if name not in acc.get(b.id, ()): continue
            out = (db.sigs.get(b.id) or {}).get("out", "")
            if name.startswith("Earth") and "EopValues" in out: continue     # the lookup itself: picks the epoch to ask for
            ck.ob(); ck.count(f"functions accepting {name}")
            if b.id in selfty and selfty[b.id][0] in prov[name]: continue
            par = {b.id: None}; st = [b.id]
            while st:
                x = st.pop(); xb = db.bodies[x]
                for ln, w in use.get(x, {}).get(name, []):
                    chain = []; y = x
                    while y: chain.append(db.bodies[y].path); y = par[y]
                    key = f"{name.split()[0]}:{b.path}->{w}"
                    ck.violation(key, f"{b.where()} {b.path} is given the {name} but {xb.where(ln)} uses {w} (path: {' <- '.join(chain[:5])})")
                for y in edges(x):
                    if y in par or y not in db.bodies: continue
                    yb = db.bodies[y]
                    if name in acc.get(y, ()): continue
                    if y in selfty and selfty[y][0] in prov[name]: continue
                    if name.startswith("Earth") and any("EopValues" in yb.ty(i) for i in range(1, yb.argc + 1)): continue
                    par[y] = x; st.append(y); ck.count("call-graph edges followed")
        ck.floor(f"functions accepting {name}", 40)
    return ck.finish("Each function that accepts an ephemeris, an Earth-orientation provider or a nutation model was followed through all callees that cannot receive the caller's choice.")
