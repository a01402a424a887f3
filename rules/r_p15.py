"""P15: every loop and every recursion ends."""
import multiprocessing as mp
import re, sys, time
from collections import Counter
from mir import pl, callee
from flow import CallGraph, Defs
from loops import Loops, natural, cyclic
import recur
from report import Check

DEADLINE = 40


# ---- integer measures, from the relational interpreter
def phis(head, back, atoms):
    """loop-carried integers: head atom -> value on the way round"""
    m = {}; rd = []
    def rec(h, v, d=0):
        if h is v or d > 8: return
        if h[0] == "I" and v[0] == "I":
            if len(h[1][1]) == 1 and h[1][0] == 0 and h[1][1][0][1] == 1:
                a = h[1][1][0][0]
                if v[1] != h[1]: m.setdefault(a, v[1])
        elif h[0] == "S" and v[0] == "S":
            y = dict(v[2])
            for i, x in h[2]:
                if i in y: rec(x, y[i], d + 1)
        elif h[0] == "O" and v[0] == "O":
            for x, y in ((h[2], v[2]), (h[3], v[3])):
                if len(x[1]) == 1 and x[0] == 0 and x[1][0][1] == 1 and x != y: m.setdefault(x[1][0][0], y)
    for c, h in head.env.items():
        if c in back.env: rec(h, back.env[c])
    return m


def ranked(hs, back, head, srcs):
    """a linear measure that every way round makes smaller and that stays non-negative"""
    import safe
    from safe import K, A, sub, subst
    h = hs.get(head)
    sts = [back[(x, head)] for x in srcs if (x, head) in back and not back[(x, head)].dead]
    if h is None or not sts: return "never goes round"
    known = set()
    for f in h.ge: known.update(a for a, _ in f[1])
    ats = set()
    for v in h.env.values(): safe.atoms_of(v, ats)
    known |= ats
    maps = [phis(h, s, known) for s in sts]
    todo = list(range(len(sts))); used = []
    for _ in range(3):
        cands = set()
        for k in todo:
            for f in sts[k].ge:
                if 1 <= len(f[1]) <= 4 and any(a in maps[k] for a, _ in f[1]) and all(a in known for a, _ in f[1]): cands.add(f)
            for a in maps[k]:
                if safe._rng[a][0] > -2**60: cands.add(sub(A(a), K(int(safe._rng[a][0]))))
                if safe._rng[a][1] < 2**33: cands.add(sub(K(int(safe._rng[a][1])), A(a)))
        best = None
        for f in sorted(cands, key=lambda f: (len(f[1]), abs(f[0]))):
            strict = []
            ok = True
            for k in todo:
                s = sts[k]; g = subst(f, maps[k]); d = sub(f, g)
                if not s.prove(f, 3, 80): ok = False; break
                if s.prove(sub(d, K(1)), 3, 80): strict.append(k)
                elif not s.prove(d, 3, 80): ok = False; break
            if ok and strict:
                if best is None or len(strict) > len(best[1]): best = (f, strict)
                if len(strict) == len(todo): break
        if best is None: return None
        todo = [k for k in todo if k not in best[1]]; used.append(best[0])
        if not todo: return f"linear measure over {len({a for f in used for a, _ in f[1]})} values" + (" (lexicographic)" if len(used) > 1 else "")
    return None


def work(job):
    bid, loops, generic = job
    from safecalls import Engine
    b = DB.bodies[bid]
    e = Engine(DB, None); e.keep = e.frame(("root", b.id)) ; e.deadline = time.time() + DEADLINE
    try: e.root(b, generic)
    except RecursionError: return bid, {h: (None, {}) for h, _ in loops}, True
    hs, back = e.kept or ({}, {})
    late = time.time() > e.deadline or bool(e.timeout) or b.id in e.unstable
    nat = natural(b)
    r = {h: ranked(hs, back, h, srcs) for h, srcs in loops}
    return bid, {h: (r[h], {} if r[h] or late else standing(e.kedges, hs, e.keep, b, h, nat[h][0])) for h, srcs in loops}, late


def standing(kedges, hs, fr, b, head, body):
    """integers carried round, assigned in the loop: {local: {block: 1 strictly up, 0 up or still, .. as (direction, strict)}}"""
    import safe
    from safe import K, A, sub
    h = hs.get(head); out = {}
    if h is None: return out
    for x in body:
        for p, r, ln in b.blocks[x][0] + ([(b.blocks[x][1][3], None, 0)] if b.blocks[x][1][0] == "call" else []):
            l, pr = pl(p)
            v0 = h.env.get((fr, l))
            if pr or v0 is None or v0[0] != "I" or (x, l) in out: continue
            f0 = v0[1]; res = None
            for (y, z), s in kedges.items():
                if y != x or z not in body and z != head: continue
                v = s.env.get((fr, l))
                if v is None or v[0] != "I": res = None; break
                up = sub(v[1], f0); down = sub(f0, v[1])
                cur = {(k, st) for k, m in (("up", up), ("down", down)) for st in (0, 1) if s.prove(sub(m, K(st)), 3, 80)}
                res = cur if res is None else res & cur
            out[(x, l)] = res
    return {k: sorted(v) for k, v in out.items() if v is not None}


def mutates(L, b, l):
    """can calling this closure change what it captured?"""
    root = L.root(b, ["c", [l]])
    for c in {l, root if isinstance(root, int) else l}:
        for bi, si, (kind, r), ln in L.defsof(b, c):
            if kind == "rv" and r[0] == "agg" and r[1][0] == "closure":
                return any(o[0] != "k" and re.search(r"&mut|Cell|Rc<|Arc<|Mutex", b.ty(pl(o[1])[0])) for o in r[2])
    return True


def hits(L, b, place, dep):
    """can a write through this place change what the ways out depend on?"""
    r = L.root(b, ["c", place])
    return not isinstance(r, int) or r in dep or "&" in b.ty(r)


def stuck(L, b, head, body, weak=()):
    """a way round the loop that changes nothing the ways out depend on"""
    D = L.d(b); dep = set(); todo = []
    for x in body:
        t = b.blocks[x][1]
        if t[0] == "switch" and t[1][0] != "k" and any(y not in body for y in [z for _, z in t[2]] + [t[3]]): todo.append(pl(t[1][1])[0])
        if t[0] == "assert": pass
    def ops(r):
        if r[0] in ("use", "cast", "repeat"): return [r[1] if r[0] != "cast" else r[2]]
        if r[0] == "un": return [r[2]]
        if r[0] == "bin": return [r[2], r[3]]
        if r[0] in ("ref", "raw"): return [["c", r[2]]]
        if r[0] == "discr": return [["c", r[1]]]
        if r[0] == "agg": return list(r[2])
        return []
    while todo:
        l = todo.pop()
        if l in dep: continue
        dep.add(l)
        for bi, si, (kind, r), ln in list(D.full.get(l, ())) + list(D.part.get(l, ())):
            if bi not in body: continue
            src = ops(r) if kind == "rv" else list(r[2])
            for o in src:
                if o[0] == "k": continue
                p, pr = pl(o[1]); todo.append(p)
                for e in pr:
                    if isinstance(e, list) and e[0] == "[]" and isinstance(e[1], int): todo.append(e[1])
            # what a switch decided matters too when the local has several definitions
        if len([1 for x in D.full.get(l, ()) if x[0] in body]) > 1:
            for x in body:
                t = b.blocks[x][1]
                if t[0] == "switch" and t[1][0] != "k": todo.append(pl(t[1][1])[0])
    # temporaries recomputed each time round are not state; state is what is live into the head
    state = {l for l in dep if any(bi not in body for bi, *_ in D.full.get(l, ())) or 0 < l <= b.argc}
    dead = set(); other = set()
    for x in body:
        for p, r, ln in b.blocks[x][0]:
            l, pr = pl(p)
            if l in state: dead.add(x)
            if pr and pr[0] == "*" and hits(L, b, p, dep): dead.add(x); other.add(x)
        t = b.blocks[x][1]
        if t[0] == "call":
            if pl(t[3])[0] in state: dead.add(x)
            for a in t[2]:
                if a[0] == "k": continue
                ty = b.ty(pl(a[1])[0])
                if "&mut" in ty and hits(L, b, a[1], dep) or a[0] == "m" and "&" not in ty[:1] and re.search(r"Cell|Rc|Arc|Mutex", ty): dead.add(x); other.add(x)
                if "closure" in ty and mutates(L, b, pl(a[1])[0]): dead.add(x); other.add(x)
            if callee(t)[0] is None: dead.add(x); other.add(x)
    way = cyclic(b, head, body, (), dead)
    if way or not weak: return way
    # the integers the ways out depend on never move back, but on some way round need not move at all
    moved = {l for l in state if any(bi in body for bi, *_ in list(D.full.get(l, ())) + list(D.part.get(l, ())))}
    if not moved or other: return None
    strict = set()
    for l in moved:
        if D.part.get(l): return None
        at = {bi: weak.get((bi, l)) for bi, *_ in D.full.get(l, ()) if bi in body}
        if any(v is None for v in at.values()): return None
        way = next((d for d in ("up", "down") if all((d, 0) in v for v in at.values())), None)
        if way is None: return None
        strict |= {bi for bi, v in at.items() if (way, 1) in v}
    if cyclic(b, head, body, (), strict): return ("weak", sorted(moved))
    return None


def run(db):
    global DB
    sys.setrecursionlimit(100000)
    DB = db
    ck = Check("P15", "termination analysis over MIR: finite consumption, linear ranking of integers, floating-point advance, bounded recursion")
    cg = CallGraph(db); L = Loops(db, cg)
    kinds = Counter(); jobs = {}; info = {}
    for b in db.local_fns():
        if b.span[0].startswith("tests/"): continue
        for head, (body, srcs) in natural(b).items():
            ck.ob(); ck.count("loops")
            ln = min([s[2] for x in body for s in b.blocks[x][0]] + [b.blocks[x][1][5] for x in body if b.blocks[x][1][0] == "call"] or [b.span[1]])
            cut, cons = L.consumption(b, head, body)
            if cut and cyclic(b, head, body, cut) is None: kinds["consumes something finite"] += 1; continue
            w = L.worklist(b, head, body, cons)
            if w and w[0] == "ok":
                kinds["work list"] += 1; ck.sample(f"{b.where(ln)} in {b.path}: {w[1]}"); continue
            f = L.floats(b, head, body, cut)
            if f and f[0] == "ok":
                kinds["floating-point advance"] += 1; ck.sample(f"{b.where(ln)} in {b.path}: {f[1]}"); continue
            info[(b.id, head)] = (ln, body, w, f, cut)
            jobs.setdefault(b.id, []).append((head, tuple(srcs)))
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        res = {}
        for bid, r, late in pool.imap_unordered(work, [(i, ls, False) for i, ls in jobs.items()], chunksize=1):
            for h, (why, st) in r.items(): res[(bid, h)] = (why, late); info[(bid, h)] += (st,)
        again = {}
        for (bid, h), (why, late) in res.items():
            if why is None: again.setdefault(bid, []).extend(x for x in jobs[bid] if x[0] == h)
        for bid, r, late in pool.imap_unordered(work, [(i, ls, True) for i, ls in again.items()], chunksize=1):
            for h, (why, st) in r.items():
                if why: res[(bid, h)] = (why, late)
    seen = Counter()
    for (bid, head), (why, late) in sorted(res.items()):
        b = db.bodies[bid]; ln, body, w, f, cut, weak = info[(bid, head)]
        if why: kinds["linear measure"] += 1; ck.sample(f"{b.where(ln)} in {b.path}: {why}"); continue
        msg = None
        if w: msg = w[1]
        elif f: msg = f[1]
        else:
            way = stuck(L, b, head, body, weak)
            if way and way[0] == "weak": msg = f"on some way round {' and '.join(b.names.get(l, '_%d' % l) for l in way[1])}, which decide when it ends, need not move"
            elif way:
                lines = sorted({s[2] for x in way for s in b.blocks[x][0]} | {b.blocks[x][1][5] for x in way if b.blocks[x][1][0] == "call"})
                msg = f"a way round the loop (lines {lines[0]}-{lines[-1]}) changes nothing that the ways out depend on" if lines else "an empty way round"
            if msg is None:
                c = L.chain(b, head, body)
                if c and c[0] == "ok": kinds["chain of a record"] += 1; ck.sample(f"{b.where(ln)} in {b.path}: {c[1]}"); continue
                if c: msg = c[1]
        if msg is None: kinds["not decided"] += 1; ck.assume.append(f"not decided: the loop at {b.where(ln)} in {b.path}"); continue
        seen[b.path] += 1
        ck.violation(f"{b.path}|{seen[b.path]}", f"{b.where(ln)} in {b.path}: the loop need not end: {msg}")
    recur.check(db, cg, L, ck)
    ck.cov["how loops end"] = dict(kinds)
    ck.floor("loops", 220)
    return ck.finish("every natural loop of every function body, and every group of mutually recursive functions")
