"""P09: no input makes a file or text reader panic, recurse without bound or allocate without bound."""
import multiprocessing as mp
import re, sys, time
from report import Check

AREAS = ("src/formats/", "src/spice/", "src/catalogs/", "src/data/", "src/ephemeris/runtime_backend", "src/pod/run/dataset")
TEXT = re.compile(r"^(&str|&\[u8\]|alloc::string::String|&(mut )?alloc::string::String|alloc::vec::Vec<u8>|&\[u8; \d+\]|&std::path::Path)$")
GENERIC = re.compile(r"^((&mut )?[A-Z]\w*|impl .*)$")
DEADLINE = 150


def reader(b):
    """public, outcome is Result or Option, and the argument is text, bytes, a path or something to read from"""
    if b.kind != "fn" or not b.d.get("pub") or not b.span[0].startswith(AREAS): return False
    ret = b.ty(0)
    if not re.match(r"^core::(result::Result|option::Option)<", ret): return False
    unit = re.match(r"^core::result::Result<\(\),", ret)
    tys = [b.ty(i) for i in range(1, b.argc + 1)]
    if any(TEXT.match(t) for t in tys): return not any(GENERIC.match(t) and "&mut" in t for t in tys)
    if any(GENERIC.match(t) for t in tys): return not unit and not any(re.match(r"^&mut [A-Z]\w*$", t) for t in tys)
    return b.path.endswith("::next") and b.d.get("trait", "").endswith("Iterator") and "formats" in b.path


def work(job):
    bid, generic, inline = job
    from safecalls import Engine
    b = DB.bodies[bid]
    e = Engine(DB, None, inline=None if inline else lambda c: c.id not in ROOTS)
    t = time.time(); e.deadline = t + DEADLINE
    v, s, o = e.root(b, generic)
    late = time.time() > e.deadline
    return bid, generic, inline, time.time() - t, [(x[0], x[1], x[2], x[3], x[4], x[5], x[6]) for x in o], bool(e.unstable) or late, sorted(e.recs), sorted(e.visited), sorted({i for i, w in e.skipped if w == "limit"})


def run(db):
    global DB, ROOTS
    sys.setrecursionlimit(100000)
    ck = Check("P09", "relational abstract interpretation of MIR: linear length and index facts, character boundaries, variants, inductive recursion")
    DB = db
    roots = [b for b in db.local_fns() if reader(b)]
    ROOTS = {b.id for b in roots}
    ck.count("readers", len(roots))
    site = {}; fns = set(); undecided = set(); slow = []
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        jobs = [(b.id, False, False) for b in roots]; seen = set(); again = set()
        # a site that cannot be shown safe with other readers taken as unknown is looked at again with them interpreted in place
        while jobs:
            nxt = []
            for bid, gen, inl, dt, obl, shaky, recs, visited, limited in pool.imap_unordered(work, jobs, chunksize=1):
                fns.update(visited)
                bad = [x for x in obl if not x[4]]
                if bad and not inl and not gen:
                    nxt.append((bid, gen, True)); continue
                for r in recs:
                    if r not in seen: seen.add(r); nxt.append((r, True, False))
                if shaky or limited: undecided.add(db.bodies[bid].path); slow.append((round(dt), db.bodies[bid].path))
                for x in obl:
                    k = (x[0], x[1], x[3])
                    st = "ok" if x[4] else "unknown" if x[5] == "unmodelled" or shaky else "bad"
                    cur = site.get(k)
                    if cur is None or ("ok", "unknown", "bad").index(st) > ("ok", "unknown", "bad").index(cur[0]): site[k] = (st, x[2], x[6], bid)
            jobs = nxt
    kinds = {}
    for (fid, blk, what), (st, ln, ctx, root) in sorted(site.items()):
        f = db.bodies[fid]; ck.ob(); ck.count("panic sites")
        kinds[what] = kinds.get(what, 0) + 1
        if st == "ok": ck.sample(f"{f.where(ln)} in {f.path}: {what}"); continue
        if st == "unknown":
            ck.count("sites not decided"); ck.assume.append(f"not decided: {f.where(ln)} in {f.path}: {what} (depends on code outside the interpreter's model)"); continue
        via = " > ".join(f"{p.split('::')[-1]}:{l}" for p, l in ctx[-5:])
        ck.violation(f"{f.path}|{what}", f"{f.where(ln)} in {f.path}: cannot show \"{what}\"; reached from reader {db.bodies[root].path}" + (f" via {via}" if via else ""))
    for p in sorted(undecided): ck.count("readers not decided in time"); ck.assume.append(f"not decided: {p} did not finish within {DEADLINE} s or reached the inlining limit")
    ck.cov["kinds of site"] = kinds
    ck.count("functions interpreted", len(fns))
    ck.floor("readers", 60); ck.floor("panic sites", 450)
    ck.assume += ["inputs are shorter than 2^25 lines or characters per counter, and no in-memory length exceeds 2^40",
                  "std, serde_json, quick-xml, chrono, flate2 and the qtty, affn, cheby and tempoch crates do not panic themselves, apart from the calls modelled (slicing, unwrap, chrono constructors and arithmetic)"]
    return ck.finish("every public reader is interpreted from an unconstrained entry with the crate functions it calls in place; obligations: indexing, slicing and its character boundaries, unwrap and expect, explicit panics, integer overflow, division, shifts, chunk sizes, chrono arithmetic, allocation sizes, recursion depth")
