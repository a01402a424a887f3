"""P08: ephemerides and kernels answer inside their coverage and refuse everything outside it."""
import re
import classes
from classes import F, seed, tail, value
from mir import callee, pl
from report import Check

BAD = "nan inf -inf"
UNIT = ("0 p 1", BAD + " - P")                       # coverage [0, 1]
SHIFT = ("10 11.5 22", BAD + " - 0 p 1 9.9 22.1")    # coverage [10, 22]
DAY = "2451545"


def cheb(at, init, intlen, n):
    return f" when 1:self.{at}init={init} 1:self.{at}intlen={intlen} 1:self.{at}n_records={n}"


def table(at, first, last):
    return f" when 1:self.{at}[0/2]{first}=0 1:self.{at}[1/2]{last}=1"


def kernels(seg, ids, lo, hi, init, intlen, n):
    return " ".join([f"1:self.{seg}.{k}={v}" for k, v in ids.items()] + [f"1:self.{seg}.start_et={lo} 1:self.{seg}.end_et={hi} 1:self.{seg}.descriptor.init={init} 1:self.{seg}.descriptor.intlen={intlen} 1:self.{seg}.descriptor.n_records={n}"])


# function -> [(epoch and coverage, (classes and numbers inside, outside))]
TABLE = {}
for v in ("<0>.", "<1>."):
    TABLE.setdefault("SpkSegment::evaluate", []).extend([("2:et" + cheb(v, 0, 1, 1), UNIT), ("2:et" + cheb(v, 10, 4, 3), SHIFT)])
for v in ("<2>.", "<3>."):
    TABLE["SpkSegment::evaluate"].append(("2:et" + table(v + "epochs.", "", "") + f" 1:self.{v}n_records=2", UNIT))
for f in ("ChebSegment::evaluate_type2", "ChebSegment::evaluate_type3", "DynSegmentDescriptor::try_position_et", "DynSegmentDescriptor::try_velocity_et"):
    TABLE[f] = [("2:et" + cheb("", 0, 1, 1), UNIT), ("2:et" + cheb("", 10, 4, 3), SHIFT)]
for f in ("DynSegmentStack::try_position_et", "DynSegmentStack::try_velocity_et"):
    TABLE[f] = [("2:et when " + kernels("segments.[]", {}, 0, 1, -50, 100, 1), UNIT), ("2:et when " + kernels("segments.[]", {}, -50, 50, 10, 4, 3), SHIFT)]
TABLE["CkSegment1::evaluate"] = [("2:sclkdp" + table("records.", ".sclkdp", ".sclkdp"), ("0 p 1", "- P inf -inf"))]
TABLE["CkKernel::rotation"] = [("3:sclkdp when 1:self.segments.[].inst_id=7 2:inst_id=7 1:self.segments.[].start_sclkdp=0 1:self.segments.[].end_sclkdp=1", UNIT)]
TABLE["SclkKernel::et_to_sclkdp"] = [("2:et" + table("coefficients.", ".et", ".et"), ("0 p 1 P", "- -inf"))]
TABLE["SclkKernel::sclkdp_to_et"] = [("2:sclkdp" + table("coefficients.", ".sclkdp", ".sclkdp"), ("0 p 1 P", "- -inf"))]
JD = ("2451545", "2451544 2451546 2451545.0002 2451544.9998 nan")
TABLE["SpkKernelSet::try_geometric_state"] = [("4:jd when 2:target=5 3:observer=0 " + kernels("segments.[]", {"target_id": 5, "center_id": 0}, a, b, i, n, 1), JD) for a, b, i, n in ((-10, 10, -1000000, 2000000), (-1000000, 1000000, -10, 20))]
LAG = ("2451545 2451544 2451546", "2451543.9 2451546.1 nan")
TABLE["ephemeris::lagrange::evaluate_records"] = [("3:jd when 1:records.[0/5]=0 1:records.[1/5]=86400 2:ncoeff=1", LAG)]
TABLE["ephemeris::lagrange::fit::evaluate_fitted"] = [("2:jd when 1:fitted.records.[0/5]=0 1:fitted.records.[1/5]=86400 1:fitted.ncoeff=1", LAG)]
TABLE["SpkKernel::state"] = [(f"4:epoch when 2:target={a} 3:center={b} 1:self.segments.[].target=1 1:self.segments.[].center=0 1:self.segments.[].start_tdb_seconds=0 1:self.segments.[].end_tdb_seconds=1", ("0 p 1", "- P inf -inf")) for a, b in ((1, 0), (0, 1))]
for f in ("SpkKernelSet::try_edge_position_et", "SpkKernelSet::try_edge_velocity_et"):
    TABLE[f] = [("4:et when 2:target_id=5 3:center_id=0 " + kernels("segments.[]", {"target_id": 5, "center_id": 0}, 0, 1, -50, 100, 1), UNIT)]


CLOCK = " ".join(f"1:self.coefficients.[{i}/2].{f}={v}" for i, r in ((0, (0, -5, 1)), (1, (1, 5, 1))) for f, v in zip(("et", "sclkdp", "rate"), r))

# function -> [(inputs, result path, {epoch classes: classes the result must lie in})]
LOOKUP = {
    "KernelSegment::from_indexed": [("1:segment.start_et when 1:segment.end_et=22", p, {"10": w}) for p, w in (("start_et", "10"), ("end_et", "22"))],
    "DynSegmentStack::single": [("2:start_et when 3:end_et=22", "segments.[]." + p, {"10": w}) for p, w in (("start_et", "10"), ("end_et", "22"))],
    "DynSegmentStack::from_spk_segment": [("1:seg.init when 1:seg.intlen=4 1:seg.n_records=3", "segments.[]." + p, {"10": w}) for p, w in (("start_et", "10"), ("end_et", "22"))],
    "DynSegmentStack::for_indexed_pair": [(f"1:indexed.[].target_id when 2:target_id=5 3:center_id=7 1:indexed.[].center_id={c}", "segments", {str(t): "none"}) for t, c in ((5, 8), (6, 7))] + [("1:indexed.[].start_et when 2:target_id=5 3:center_id=7 1:indexed.[].target_id=5 1:indexed.[].center_id=7 1:indexed.[].end_et=22", "segments.[]." + p, {"10": w}) for p, w in (("start_et", "10"), ("end_et", "22"))],
    "ThrustArc::is_active": [("2:epoch when 1:self.start=0 1:self.stop=1", "", {"- 1 P": "no", "0 p": "yes"})],
    "pod::force::thrust::thrust_acceleration": [("3:epoch when 1:arc.start=0 1:arc.stop=1 2:spacecraft_mass=P", f"<0>.{i}", {"- 1 P": "0"}) for i in range(3)],
    "LeapSecondKernel::tai_minus_utc_at": [("2:tdb when 1:self.leap_table.[0/2].0=0 1:self.leap_table.[0/2].1=5 1:self.leap_table.[1/2].0=1 1:self.leap_table.[1/2].1=-7", "", {"-": "0", "0 p": "5", "1 P": "-7"})],
    "ProcessNoise::sigma_at": [("2:elapsed when " + " ".join(f"1:self.<2:intervals>.[{i}/2].duration=1 1:self.<2:intervals>.[{i}/2].{f}={v}" for i, v in ((0, 5), (1, -7))), str(k), {"- 0 p": "5", "1 P": "-7"}) for k, f in ((0, "sigma_pos_m"), (1, "sigma_vel_mps"))],
    "formats::iers::eop::interpolate": [("2:mjd when 1:records.[0/2].mjd=0 1:records.[1/2].mjd=1 1:records.[0/2].eop.%s=5 1:records.[1/2].eop.%s=-7" % (f, f), "<1>.eop." + f, {"- 0": "5", "1 P": "-7", "p": "other 5 -7"}) for f in ("xp", "yp", "dut1", "lod", "dx", "dy")],
    "SpkSegment::start_tdb_seconds": [(f"1:self.{v}.init when 1:self.{v}.intlen=4 1:self.{v}.n_records=3", "", {"10": "10"}) for v in ("<0>", "<1>")] + [(f"1:self.{v}.epochs.[0/2] when 1:self.{v}.epochs.[1/2]=22", "", {"10": "10"}) for v in ("<2>", "<3>")],
    "SpkSegment::end_tdb_seconds": [(f"1:self.{v}.init when 1:self.{v}.intlen=4 1:self.{v}.n_records=3", "", {"10": "22"}) for v in ("<0>", "<1>")] + [(f"1:self.{v}.epochs.[1/2] when 1:self.{v}.epochs.[0/2]=10", "", {"22": "22"}) for v in ("<2>", "<3>")],
    "SclkKernel::et_to_sclkdp": [("2:et when " + CLOCK, "<0>", {"0 p": "- -5", "1 P": "P 5"})],
    "SclkKernel::sclkdp_to_et": [("2:sclkdp when " + CLOCK.replace(".et", ".x").replace(".sclkdp", ".et").replace(".x", ".sclkdp"), "<0>", {"0 p": "- -5", "1 P": "P 5"})],
}


def pol(n):
    t = set(re.split(r"_+", (n or "").lower())); lo = bool(t & {"start", "begin", "first"}); hi = bool(t & {"end", "stop", "last"})
    return lo != hi and (1 if hi else -1)


SAME = {"clone", "into", "from", "unwrap", "expect", "branch", "to_owned", "value", "to_string", "copied", "cloned", "new", "raw"}


def defs(b):
    d = {}
    for bb in b.blocks:
        if bb is None: continue
        for p, r, ln in bb[0]: d.setdefault(pl(p)[0], []).append((tuple(pl(p)[1]), r))
        if bb[1][0] == "call": d.setdefault(pl(bb[1][3])[0], []).append(((), ("call", bb[1])))
    return d


def origin(b, D, o, seen=frozenset(), need=()):
    """names of the fields and functions a value is taken from as it is"""
    if o[0] == "k": return {None}
    l, pr = pl(o[1]); fs = [e[2] for e in pr if isinstance(e, (list, tuple)) and e[0] == "."]
    named = [f for f in fs if not f.isdigit()]
    if named: return {named[-1]}
    path = tuple(fs) + need
    if (l, path) in seen: return set()
    seen = seen | {(l, path)}
    if 1 <= l <= b.argc: return {b.names.get(l)}
    out = set()
    for dp, r in D.get(l, ()):
        if dp: out.add(None)
        elif r[0] == "use": out |= origin(b, D, r[1], seen, path)
        elif r[0] == "cast": out |= origin(b, D, r[2], seen, path)
        elif r[0] == "ref": out |= origin(b, D, ("c", r[2]), seen, path)
        elif r[0] == "agg" and r[1][0] == "tuple" and path and path[0].isdigit() and int(path[0]) < len(r[2]): out |= origin(b, D, r[2][int(path[0])], seen, path[1:])
        elif r[0] == "call":
            n = (callee(r[1])[0] or "?").split("::")[-1]
            out |= origin(b, D, r[1][2][0], seen, path) if n in SAME and r[1][2] else {n}
        else: out.add(None)
    return out


def bounds(db, ck):
    """a start bound is never filled from an end bound, nor the reverse"""
    for b in db.local_fns():
        D = None
        for bb in b.blocks:
            for p, r, ln in bb[0] if bb else ():
                if r[0] != "agg" or r[1][0] != "adt" or len(r[1]) < 6 or r[1][1] not in db.adts or r[1][1].startswith("core::"): continue
                fs = [(f, o) for f, o in zip(r[1][5], r[2]) if pol(f)]
                if not fs: continue
                D = D or defs(b); got = {f: {pol(x) if x else 0 for x in origin(b, D, o)} for f, o in fs}
                for f, q in got.items():
                    ck.ob(); ck.count("coverage bounds")
                    if -pol(f) in q and (pol(f) == 1 or not any(0 in w for w in got.values())):
                        ck.violation(f"{b.path}|{f}|bound", f"{b.where(ln) if ln else b.where()} in {b.path.replace('siderust::', '')}: the bound {f} of {r[1][1].split('::')[-1]} is filled from the opposite bound")


def at(v, path):
    for p in path.split(".") if path else ():
        if v is None: return None
        if p == "[]": v = classes.elem(v); continue
        v = classes.field(classes.variant(v, int(p[1:-1])), "0") if p[0] == "<" else classes.field(v, p)
    return v


def run(db):
    ck = Check("P08", "abstract interpretation of MIR over classes of epochs relative to the coverage: success must be unreachable outside it and reachable inside it, ends included")
    E = classes.Eval(db); by = {}
    for b in db.local_fns():
        if b.kind == "fn": by.setdefault(tail(b.path), []).append(b)
    done = 0
    for suffix, rows in TABLE.items():
        for b in by.get(suffix, ()):
            done += 1; short = b.path.replace("siderust::", "")
            for path, (inside, outside) in rows:
                for c in (inside + " " + outside).split():
                    args = seed(b, path, value(c))
                    if args is None: ck.violation(f"{b.path}|{path}|gone", f"{b.where()} in {b.path}: the epoch argument is no longer there"); continue
                    out = E.run(b, args); ck.ob()
                    if c in outside.split():
                        ck.count("epochs outside")
                        if not classes.refused(out, 0): ck.violation(f"{b.path}|{path}|{c}|refuse", f"{b.where()} in {short}: epoch {c} outside the coverage ({path}) can reach a successful result")
                        elif c == "P": ck.sample(f"{short}: {path}: later epochs are refused")
                    else:
                        ck.count("epochs inside")
                        if not classes.accepted(out, 0): ck.violation(f"{b.path}|{path}|{c}|accept", f"{b.where()} in {short}: epoch {c} inside the coverage ({path}) is always refused")
    for suffix, rows in LOOKUP.items():
        for b in by.get(suffix, ()):
            done += 1; short = b.path.replace("siderust::", "")
            for path, res, want in rows:
                for cs, ok in want.items():
                    for c in cs.split():
                        args = seed(b, path, value(c))
                        if args is None: ck.violation(f"{b.path}|{path}|gone", f"{b.where()} in {b.path}: the epoch argument is no longer there"); continue
                        got = at(E.run(b, args), res); ck.ob(); ck.count("lookups")
                        if ok == "none": good = got == ("t", ())
                        elif ok.startswith("other"): good = not any(got == value(o) for o in ok.split()[1:])
                        elif ok in ("yes", "no"): good = got is None or got[0] != "b" or (ok == "yes") in got[1]
                        else:
                            vs = [value(o) for o in ok.split()]
                            if got is None or not (isinstance(got, tuple) and classes.num(got)): ck.count("lookups undecided"); continue
                            good = any(got == v or v[0] == "f" and v[1] & set(classes.atoms(got)) or got[0] == "f" and set(classes.atoms(v)) & set(got[1]) for v in vs)
                        if not good: ck.violation(f"{b.path}|{path}|{c}|lookup", f"{b.where()} in {short}: for {path.split(' ')[0].split(':')[1]} = {c} the entry used is not the one that covers it ({path}: {res or 'result'} should be {ok})")
    ck.count("entry points", done); bounds(db, ck)
    ck.floor("entry points", 22); ck.floor("epochs inside", 60); ck.floor("epochs outside", 120); ck.floor("lookups", 50); ck.floor("coverage bounds", 30)
    return ck.finish("coverage and epoch are the seeded inputs, coefficients and everything else are unknown; success is a path to a returned Ok not ruled out by the position of the epoch")
