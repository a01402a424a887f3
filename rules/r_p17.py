"""P17: an update that is refused leaves the object as it was."""
import re
from mir import callee, pl, succs
from report import Check

READS = {"index_mut", "iter_mut", "as_mut", "get_mut", "first_mut", "last_mut", "deref_mut", "as_mut_slice", "into_iter", "by_ref", "as_deref_mut", "borrow_mut", "values_mut", "chunks_mut",
         "zip", "enumerate", "rev", "next", "get_many_mut", "split_at_mut", "as_mut_ptr", "col_mut", "row_mut", "rb_mut", "reborrow", "map", "unwrap", "expect", "skip", "take", "entry", "peekable"}
PASS = {"map_err", "branch", "from_residual", "from_output", "into", "from", "map", "inspect", "inspect_err", "and_then", "or_else", "context", "with_context"}
UPDATES = {"add_row", "update_scalar", "append", "load", "load_bytes", "push_bytes"}
RES = ("core::result::Result<", "core::option::Option<", "core::ops::control_flow::ControlFlow<")


class Flow:
    """For every path of a body: has the object behind the tracked references been changed, and is the result an error?"""
    def __init__(self, db): self.db = db; self.memo = {}; self.stack = []

    def summary(self, b, roots):
        """(changed on some successful path, changed on some refusing path, lines of the refusing ones)"""
        key = (b.id, roots)
        if key in self.memo: return self.memo[key]
        if b.id in self.stack: return (True, False, ())
        self.stack.append(b.id)
        try: r = self.solve(b, roots)
        finally: self.stack.pop()
        self.memo[key] = r
        return r

    def derived(self, b, roots):
        """locals that are mutable access to the object"""
        d = set(roots); ch = True
        while ch:
            ch = False
            for bb in b.blocks:
                if bb is None: continue
                for p, r, ln in bb[0]:
                    l, pr = pl(p)
                    if l in d: continue
                    hit = False
                    if r[0] in ("ref", "raw") and r[1] == "mut": hit = pl(r[2])[0] in d and (pl(r[2])[1] and ("*" in pl(r[2])[1] or b.ty(pl(r[2])[0]).startswith("&mut") is False) or not b.ty(pl(r[2])[0]).startswith("&"))
                    elif r[0] in ("use", "cast"):
                        o = r[1] if r[0] == "use" else r[2]
                        hit = o[0] != "k" and pl(o[1])[0] in d and "&mut" in b.ty(l)
                    elif r[0] == "agg": hit = any(o[0] != "k" and pl(o[1])[0] in d and not pl(o[1])[1] for o in r[2])
                    if hit: d.add(l); ch = True
                t = bb[1]
                if t[0] == "call":
                    l = pl(t[3])[0]; ty = b.ty(l)
                    if l not in d and ("&mut" in ty or "Mut<" in ty or "Entry<" in ty or "Drain<" in ty) and any(o[0] != "k" and pl(o[1])[0] in d for o in t[2]): d.add(l); ch = True
        return d

    def solve(self, b, roots):
        d = self.derived(b, roots); ok = err = False; lines = []
        # state: (changed, line of the change, locals whose success means changed, {local: ok/err})
        start = (False, 0, frozenset(), frozenset())
        seen = {0: {start}}; work = [(0, start)]; n = 0
        while work:
            n += 1
            if n > 60000: return (True, True, ("too many paths",))
            bi, (dirty, at, pend, kinds) = work.pop(); bb = b.blocks[bi]; k = dict(kinds); pend = set(pend)
            for p, r, ln in bb[0]:
                l, pr = pl(p)
                if l in d and "*" in pr and not (b.ty(l).startswith("&") and not b.ty(l).startswith("&mut")): dirty, at = True, at or ln
                elif l in d and l in roots and not pr and b.kind == "closure": pass
                if pr: continue
                k.pop(l, None); pend.discard(l)
                if r[0] == "use" and r[1][0] != "k" or r[0] == "cast" and r[2][0] != "k":
                    o = pl((r[1] if r[0] == "use" else r[2])[1])
                    if not o[1]:
                        if o[0] in k: k[l] = k[o[0]]
                        if o[0] in pend: pend.add(l)
                elif r[0] == "agg" and r[1][0] == "adt" and r[1][1] in ("core::result::Result", "core::option::Option"):
                    k[l] = ("err" if r[1][2] == 1 else "ok") if r[1][1].endswith("Result") else ("ok" if r[1][2] == 1 else "err")
                elif r[0] == "discr" and not pl(r[1])[1]: k[("d", l)] = pl(r[1])[0]
            t = bb[1]; outs = [(s, dirty, at, pend, k) for s in succs(bb)]
            if t[0] == "call":
                c, _, rec = callee(t); name = (c or "?").split("::")[-1]; l, pr = pl(t[3])
                args = [o for o in t[2] if o[0] != "k" and pl(o[1])[0] in d]
                k = dict(k); pend = set(pend)
                if not pr: k.pop(l, None); pend.discard(l)
                if args:
                    body = self.db.bodies.get((rec or {}).get("id"))
                    hits = frozenset(i + 1 for i, o in enumerate(t[2]) if o[0] != "k" and pl(o[1])[0] in d)
                    clos = [self.db.bodies.get(x) for o in args for x in self.closures(b, pl(o[1])[0])]
                    if body is not None and body.kind == "fn":
                        s = self.summary(body, hits)
                        if s[1]: dirty, at = True, at or self.line(b, bi)
                        elif s[0]:
                            if b.ty(l).startswith(RES): pend.add(l)
                            else: dirty, at = True, at or self.line(b, bi)
                    elif clos and all(x is not None for x in clos):
                        ss = [self.summary(x, frozenset([1])) for x in clos]
                        if name in ("map", "and_then") and b.ty(l).startswith(RES[:2]) and not any(s[1] for s in ss) and t[2][0][0] != "k" and b.ty(pl(t[2][0][1])[0]).startswith(RES[:2]):
                            if any(s[0] for s in ss): pend.add(l)      # runs where the receiver succeeded, and then succeeds
                        elif any(s[0] or s[1] for s in ss): dirty, at = True, at or self.line(b, bi)
                    elif name in READS: pass
                    elif all(not self.mutable(b, o) for o in args): pass
                    else: dirty, at = True, at or self.line(b, bi)
                if name in PASS and t[2] and t[2][0][0] != "k" and not pl(t[2][0][1])[1]:
                    a = pl(t[2][0][1])[0]
                    if name == "from_residual": k[l] = "err"
                    elif name == "branch":
                        if a in k: k[l] = k[a]
                        k[("b", l)] = True
                        if a in pend: pend.add(l)
                    else:
                        if a in k and name not in ("and_then", "or_else"): k[l] = k[a]
                        if a in pend: pend.add(l)
                if name == "from_residual" and not pr: k[l] = "err"
                outs = [(s, dirty, at, pend, k) for s in succs(bb)]
            elif t[0] == "switch" and t[1][0] != "k" and ("d", pl(t[1][1])[0]) in k:
                x = k[("d", pl(t[1][1])[0])]; outs = []; ty = b.ty(x)
                good = {0} if ty.startswith(("core::result::Result<", "core::ops::control_flow::ControlFlow<")) else {1}
                if ty.startswith(RES):
                    vals = [(v, s) for v, s in ((z[0], z[1]) for z in t[2])]
                    rest = {0, 1} - {v for v, s in vals}
                    for v, s in vals + [(v, t[3]) for v in rest]:
                        if b.blocks[s] is None: continue
                        if k.get(x) == "ok" and v not in good or k.get(x) == "err" and v in good: continue
                        p2 = set(pend); d2, a2 = dirty, at
                        if x in pend:
                            p2 = set()
                            if v in good: d2, a2 = True, at or self.line(b, bi)
                        outs.append((s, d2, a2, p2, k))
                else: outs = [(s, dirty, at, pend, k) for s in succs(bb)]
            elif t[0] == "ret":
                kind = k.get(0); ty = b.ty(0)
                if not ty.startswith("core::result::Result<"): ok = ok or dirty or bool(pend)
                elif kind == "ok": ok = ok or dirty or bool(pend)
                else:
                    if kind is None: ok = ok or dirty or bool(pend)
                    if dirty or pend and 0 not in pend: err = True; lines.append(at)
                continue
            for s, dd, a, pp, kk in outs:
                if b.blocks[s] is None: continue
                st = (dd, a if dd else 0, frozenset(pp), frozenset(kk.items()))
                if st not in seen.setdefault(s, set()): seen[s].add(st); work.append((s, st))
        return (ok, err, tuple(sorted(set(lines))))

    def line(self, b, bi):
        t = b.blocks[bi][1]
        return next((x for x in reversed(t) if isinstance(x, int) and x > 0 and x >= b.span[1]), 0) if t[0] == "call" else 0

    def closures(self, b, l):
        out = []
        for bb in b.blocks:
            for p, r, ln in bb[0] if bb else ():
                if pl(p)[0] == l and r[0] == "agg" and r[1][0] == "closure": out.append(r[1][1])
        return out

    def mutable(self, b, o):
        t = b.ty(pl(o[1])[0])
        return not t.startswith("&") or t.startswith("&mut")


def run(db):
    ck = Check("P17", "path-sensitive dataflow on MIR: no path from a change of the object to a refusing return, callees summarised per outcome")
    f = Flow(db); objs = set()
    for b in db.local_fns():
        if b.kind != "fn" or not b.argc or b.names.get(1) != "self" or not b.ty(1).startswith("&mut ") or not b.ty(0).startswith("core::result::Result<"): continue
        t = b.ty(1)[5:]; short = b.path.replace("siderust::", "")
        a = db.adts.get("siderust::" + t) or db.adts.get(t)
        if "<" in t or a is None: continue                 # cursors over borrowed text and streaming readers and writers
        ck.ob(); ck.count("methods"); objs.add(t)
        ok, err, lines = f.summary(b, frozenset([1]))
        ck.count("paths with a change", 1 if ok else 0)
        if err: ck.violation(f"{b.path}|partial", f"{b.where(next((x for x in lines if x), None))} in {short}: the object is changed here and the method can still return an error afterwards")
        elif not ok and b.path.split("::")[-1] in UPDATES: ck.violation(f"{b.path}|nothing", f"{b.where()} in {short}: no successful path changes the object")
        else: ck.sample(f"{short}: changed only on paths that succeed")
    ck.count("objects", len(objs))
    ck.floor("methods", 6); ck.floor("objects", 4)
    return ck.finish("changes are stores through the receiver, calls given mutable access to it and what those do; a call that can fail changes the object only where it succeeds if its own body does")
