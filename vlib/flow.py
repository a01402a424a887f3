"""Small flow helpers shared by the rules: reaching definitions of temporaries, call graph."""
from collections import defaultdict
from mir import pl, callee, succs


class Defs:
    """assignments of each local in a body (whole-local writes and partial writes)"""

    def __init__(self, b):
        self.b = b
        self.full = defaultdict(list)     # local -> [(block, idx|'call', payload)]
        self.part = defaultdict(list)
        for bi in b.reachable():
            bb = b.blocks[bi]
            for si, (p, r, ln) in enumerate(bb[0]):
                l, pr = pl(p)
                (self.part if pr else self.full)[l].append((bi, si, ("rv", r), ln))
            t = bb[1]
            if t[0] == "call":
                l, pr = pl(t[3])
                (self.part if pr else self.full)[l].append((bi, "call", ("call", t), t[5]))

    def single(self, l):
        d = self.full.get(l)
        if l <= self.b.argc and l > 0: return None
        if d and len(d) == 1 and not self.part.get(l): return d[0]
        return None

    def origin(self, op, depth=0):
        """follow copies: ('arg', i, projs) | ('call', term, projs) | ('const', k) | ('rv', r) | ('local', l, projs)"""
        if op[0] == "k": return ("const", op[1])
        l, pr = pl(op[1])
        projs = list(pr)
        for _ in range(30):
            if 0 < l <= self.b.argc and not self.full.get(l): return ("arg", l, projs)
            d = self.single(l)
            if d is None: return ("local", l, projs)
            kind, x = d[2]
            if kind == "call": return ("call", x, projs)
            if x[0] == "use":
                if x[1][0] == "k": return ("const", x[1][1])
                l, p2 = pl(x[1][1]); projs = list(p2) + projs; continue
            if x[0] == "ref":
                l2, p2 = pl(x[2])
                if projs and projs[0] == "*":
                    l = l2; projs = list(p2) + projs[1:]; continue
                return ("ref", l2, list(p2))
            if x[0] == "cast" and not projs and x[2][0] != "k":
                pass
            return ("rv", x, projs)
        return ("local", l, projs)


class CallGraph:
    """calls of each local body; unresolved trait calls go to every impl of that method in the crate"""

    def __init__(self, db):
        self.db = db
        self.impl_of = defaultdict(list)      # trait method path -> [body ids]
        for b in db.bodies.values():
            tr = b.d.get("trait")
            if tr and b.kind in ("fn", "depfn"):
                self.impl_of[(tr, b.path.split("::")[-1])].append(b.id)
        self.default = {}
        for tr in db.traits.values():
            for n, i, has in tr["items"]:
                if has and i in db.bodies: self.default[(tr["path"], n)] = i
        self.closures = defaultdict(list)     # parent id -> closures
        for b in db.bodies.values():
            if b.kind == "closure" and b.d.get("parent"): self.closures[b.d["parent"]].append(b.id)
        self._out = {}

    def targets(self, t):
        d, r, rec = callee(t)
        if rec is None: return []
        if rec.get("id") and rec["id"] in self.db.bodies: return [rec["id"]]
        tr = rec.get("t")
        if tr and not r:
            n = d.split("::")[-1]
            out = list(self.impl_of.get((tr, n), ()))
            if (tr, n) in self.default: out.append(self.default[(tr, n)])
            return out
        return []

    def out(self, bid):
        if bid in self._out: return self._out[bid]
        b = self.db.bodies[bid]; o = []
        for bi, t in b.calls():
            for x in self.targets(t): o.append((x, bi, t))
            for a in t[2]:
                if a[0] == "k" and "fn" in a[1]:
                    i = a[1]["fn"].get("id")
                    if i in self.db.bodies: o.append((i, bi, t))
        for bb in b.blocks:
            if not bb: continue
            for p, r, ln in bb[0]:
                if r[0] == "agg" and r[1][0] == "closure" and r[1][1] in self.db.bodies: o.append((r[1][1], None, None))
        self._out[bid] = o
        return o

    def reach(self, roots, stop=lambda b: False):
        seen = {}
        st = [(r, None) for r in roots]
        while st:
            x, par = st.pop()
            if x in seen: continue
            seen[x] = par
            if par is not None and stop(self.db.bodies[x]): continue
            for y, bi, t in self.out(x):
                if y not in seen: st.append((y, x))
        return seen


class Reporting:
    """violations of a memoised interprocedural analysis: kept per context, and raised only where the context is final"""

    def start(self, out): self._out = out; self._sink = {}; self._kept = {}

    def report(self, b, ln, what, x, y, ctx):
        if self._sink is not None: self._sink.setdefault((b.id, what, str(x), str(y)), (b, ln, what, x, y, ctx))

    def seen(self, key):
        """the context was analysed before: its violations count here too"""
        if self._sink is not None: self._sink.update(self._kept.get(key, {}))

    def quiet(self): s = self._sink; self._sink = None; return s

    def loud(self): self._sink = {}

    def done(self, key, saved):
        mine = self._sink; self._kept[key] = mine; self._sink = saved
        if saved is not None: saved.update(mine)

    def flush(self):
        for a in self._sink.values(): self._out(*a)
