"""P18: no field is lost when a record is read or written."""
import re
from fieldflow import Fields
from mir import callee, pl
from report import Check

# fields that do not come from the file, with the reason
READ_EXEMPT = {
    "parse_mode": "the mode the caller asked for",
    "data_type": "the segment type that selected the reader",
    "unsupported_obs": "a count the reader keeps, not a field of the file",
    "components": "fixed by the segment type that selected the reader",
}
READ_ENTRY = {("parse_tle", "TLE.name"): "a two-line set has no name line"}
WRITE_EXEMPT = {"SpacecraftProperties": "mass and area models are not part of an orbit product", ("format_tle", "TLE.name"): "a two-line set has no name line", ("to_tle", "Omm.ephemeris_type"): "TLE has no such field", "parse_mode": "how the file was read, not a field of it"}
WRITE_WHEN = {("write_cpf", "CpfFile.time_step_s"): "a step that is not positive is written as the default of 60 s"}
TWINS = {"parse_radii": "two radii describe an ellipsoid of revolution"}
SINKS = {"write_str", "push_str", "write_all", "push", "write_char", "extend_from_slice", "extend", "insert_str", "to_string", "field", "join"}


def okty(rt):
    if not rt.startswith("core::result::Result<"): return rt
    s = rt[len("core::result::Result<"):]; d = 0
    for i, c in enumerate(s):
        if c in "<([": d += 1
        if c in ">)]": d -= 1
        if c == "," and d == 0: return s[:i]
    return s


def leaves(F, types, pub=True):
    for a in sorted(types):
        for v in F.db.adts[a]["variants"]:
            for f in v[1]:
                if f[0].isdigit(): continue
                if any(F.db.adts[x]["kind"] == "Struct" for x in F.inner(f[1])) : continue
                yield (a, f[0]), f[1]


def sink(b, c, t, hot, rec):
    n = c.split("::")[-1]
    if c.startswith("core::fmt::rt::Argument") or "core::fmt::rt::Argument" in c: return any(hot)
    if "serialize" in n or c.startswith(("serde", "quick_xml", "toml")): return any(hot)
    return n in SINKS and any(hot[1:])


DROPS = {"filter", "skip", "step_by", "skip_while", "take_while", "map_while", "dedup", "dedup_by", "dedup_by_key", "retain", "retain_mut", "truncate", "split_off", "chunks_exact"}


def emptiness(t):
    """the condition asks whether something is there at all"""
    return re.search(r"::(is_empty|is_some|is_none)'", t) or "len" in t and "'i': 0" in t


def dropped(b, A):
    """calls that leave out some of a list of records"""
    names = [a.split("::")[-1] for a in A]
    for bi, bb in enumerate(b.blocks):
        if bb is None or bb[1][0] != "call" or not bb[1][2]: continue
        c = callee(bb[1])[0] or ""; n = c.split("::")[-1]; ts = [b.ty(pl(o[1])[0]) if o[0] != "k" else "" for o in bb[1][2]]
        if not any(re.search(rf"\b{k}\b", ts[0]) for k in names): continue
        if n in DROPS or n == "take" and "Iterator" in c or n == "index" and len(ts) > 1 and re.search(r"ops::(range::)?Range(To|From|Inclusive|ToInclusive)?\b", ts[1]): yield bi, n


def short_ranges(F, b):
    """counted loops that leave out the first or the last of a list"""
    for bb in b.blocks:
        for p, r, ln in bb[0] if bb else ():
            if r[0] != "agg" or r[1][0] != "adt" or r[1][1].split("::")[-1] not in ("Range", "RangeInclusive") or len(r[2]) < 2: continue
            lo, hi = F.tree(b, r[2][0]), F.tree(b, r[2][1]); t = repr(hi)
            if "len" not in t or "*" in b.ty(pl(p)[0]): continue
            if "Sub" in t or "saturating_sub" in t or lo[0] == "k" and "'i': 0" not in lo[1]: yield ln


def readers(db, F):
    for b in db.local_fns():
        if b.kind != "fn" or not b.d.get("pub") or "::formats::" not in b.path or "{" in b.path or " as " in b.path: continue
        n = b.path.split("::")[-1]
        if not re.match(r"(read|parse|from_text|from_bytes|from_str|open|load)", n) or not b.ty(0).startswith("core::result::Result<"): continue
        if any(F.inner(b.ty(i)) and not re.search(r"Mode|Options", b.ty(i)) for i in range(1, b.argc + 1)): continue
        A = F.inner(okty(b.ty(0)))
        if A: yield b, A


def writers(db, F):
    for b in db.local_fns():
        if b.kind != "fn" or not b.d.get("pub") or "{" in b.path or " as " in b.path: continue
        n = b.path.split("::")[-1]
        if "::formats::" in b.path and re.match(r"(write|format_tle$|to_tle$)", n) or "::pod::product::" in b.path and n.startswith("write"):
            A = set()
            for i in range(1, b.argc + 1):
                if not re.search(r"Writer<|impl Write", b.ty(i)): A |= F.inner(b.ty(i))
            if A: yield b, A


def run(db):
    ck = Check("P18", "interprocedural taint on MIR with one cell per record field: input to every field of what a reader returns, every field of what a writer is given to its output")
    F = Fields(db)
    seen = set(); pairs = set()
    def part(b, P, A, verb):
        for c, (got, whole, n) in P.items():
            if c[0] not in A or whole or None in got or not got: continue
            ck.ob(); ck.count("component lists")
            if len(got) < n: ck.violation(f"{b.path}|{c[0].split('::')[-1]}.{c[1]}|components", f"{b.where()} in {b.path.replace('siderust::', '')}: only components {sorted(map(str, got))} of the {n} of {c[0].split('::')[-1]}.{c[1]} are {verb}")
    def drops(x, A, b):
        for bi, n in dropped(x, A):
            if (x.id, bi) in seen: continue
            seen.add((x.id, bi)); l = x.blocks[bi][1]
            ck.violation(f"{x.path}|{n}|records", f"{x.where(l[-1] if isinstance(l[-1], int) else None)} in {x.path.replace('siderust::', '')}: some records are left out ({n}) on the way through {b.path.replace('siderust::', '')}")
    for b, A in readers(db, F):
        short = b.path.replace("siderust::", ""); bs = F.reach(b)
        C, T, hit = F.flow(bs, b, params=range(1, b.argc + 1))
        for x in bs: drops(x, A, b)
        if not any(x in C for x, ty in leaves(F, A)): ck.count("readers that read nothing"); continue
        ck.count("readers")
        for (a, f), ty in leaves(F, A):
            key = f"{a.split('::')[-1]}.{f}"
            if f in READ_EXEMPT or (b.path.split("::")[-1], key) in READ_ENTRY: ck.count("fields not in the file"); continue
            ck.ob(); ck.count("fields read")
            if (a, f) not in C: ck.violation(f"{a}|{f}|read", f"{b.where()} in {short}: {key} is never filled from the input")
        for x in bs:
            if x.id in pairs: continue
            pairs.add(x.id)
            for ln, what, f, g in F.twins(x):
                if what.split("<")[0] not in ("array", *(a for a in A), *(a.replace("siderust::", "") for a in A)) and not re.search(r"affn|qtty|cartesian", what): continue
                ck.count("repeats examined")
                if x.path.split("::")[-1] in TWINS: continue
                ck.violation(f"{x.path}|{what}|{f}={g}|twins", f"{x.where(ln)} in {x.path.replace('siderust::', '')}: {f} and {g} of {what.split('::')[-1]} are given the same value")
        part(b, F.parts(bs, True), A, "filled")
        ck.sample(f"{short}: every field of {', '.join(sorted(x.split('::')[-1] for x in A))}")
    for b, A in writers(db, F):
        short = b.path.replace("siderust::", ""); bs = F.reach(b); ck.count("writers"); out = F.inner(okty(b.ty(0))); B = {x.id: x for x in bs}
        for x in bs:
            drops(x, A, b)
            for ln in short_ranges(F, x) if x.kind != "depfn" and (x.id, ln) not in seen else ():
                seen.add((x.id, ln)); ck.violation(f"{x.path}|range|records", f"{x.where(ln)} in {x.path.replace('siderust::', '')}: the loop leaves out an end of the list it counts through")
        part(b, F.parts(bs, False), A, "written")
        cells = [((a, f[0]), f[1]) for a in sorted(A) for v in db.adts[a]["variants"] for f in v[1]]; sw = {}; hits = {}; reached = {}
        for c, ty in cells:
            C, T, hits[c] = F.flow(bs, b, cells=[c], sink=sink); sw[c] = F.switches
            reached[c] = hits[c] or any(x in out and (x, g) != c for x, g in C)
        S = F.sites(bs)
        for c, ty in leaves(F, A):
            key = f"{c[0].split('::')[-1]}.{c[1]}"
            if (b.path.split("::")[-1], key) in WRITE_EXEMPT or c[0].split("::")[-1] in WRITE_EXEMPT or c[1] in WRITE_EXEMPT: ck.count("fields not written"); continue
            ck.ob(); ck.count("fields written")
            if not reached[c]: ck.violation(f"{b.path}|{key}|write", f"{b.where()} in {short}: {key} never reaches the output"); continue
            if not hits[c] or (b.path.split("::")[-1], key) in WRITE_WHEN: continue
            ck.ob(); ck.count("fields written on every path")
            own = {g for g, t in cells if c[0] in F.inner(t)} | {c}
            def decided(x, bi):
                """decisions on values, other than whether this very field is empty, that guard a block"""
                r = []
                for s in F.control(B[x]).get(bi, ()):
                    by = {g for g, t in cells if (x, s) in sw[g]}
                    if F.presence(B[x], s) or by <= own and emptiness(repr(F.tree(B[x], B[x].blocks[s][1][1]))): continue
                    if by <= own and (c not in by or re.match(r"alloc::(string::String|vec::Vec)|core::option::Option", ty)) and (s in F.control(B[x]).get(s, ()) and "Sub" not in (t := repr(F.tree(B[x], B[x].blocks[s][1][1]))) and "sub" not in t or c in by): continue
                    r.append((x, s, by))
                return r
            live = {b.id}; ch = True
            while ch:
                ch = False
                for x in B:
                    if x not in live and any(y in live and not decided(y, i) for y, i in S.get(x, ())): live.add(x); ch = True
            at = [(x.id, i) for x, i in hits[c] if i in F.control(x)]
            if not at or any(x in live and not decided(x, i) for x, i in at): continue
            d = next((d for x, i in at for d in decided(x, i)), None)
            if d is None: ck.count("fields written by undecided callees"); continue
            l = B[d[0]].blocks[d[1]][0]
            ck.violation(f"{b.path}|{key}|skipped", f"{B[d[0]].where(l[-1][2] if l else None)} in {short}: {key} is written only under a decision on {', '.join(sorted(g[0].split('::')[-1] + '.' + g[1] for g in d[2])) or 'something else'}")
    ck.floor("readers", 25); ck.floor("writers", 10); ck.floor("fields read", 200); ck.floor("fields written", 100); ck.floor("fields written on every path", 90)
    return ck.finish("a field is filled if some value computed from the input, or chosen by a decision on it, is stored in it; it is written if a value computed from it, or chosen by a decision on it, is formatted or appended; refusing paths do not count")
