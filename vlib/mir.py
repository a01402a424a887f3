"""Fact base loader and small MIR utilities."""
import json, re, sys
from collections import defaultdict


class Body:
    __slots__ = ("id", "path", "kind", "span", "argc", "locals", "names", "blocks", "d", "db", "_preds", "_dom")

    def __init__(self, d, db):
        self.id = d["id"]; self.path = d["path"]; self.kind = d["kind"]; self.span = d["span"]
        self.argc = d["argc"]; self.locals = d["locals"]; self.blocks = d["blocks"]; self.d = d; self.db = db
        self.names = {}
        for n, p in d["names"]:
            if isinstance(p, int):
                self.names.setdefault(p, n)
        self._preds = None; self._dom = None

    def ty(self, local):
        return self.db.types[self.locals[local]]

    def where(self, line=None):
        return f"{self.span[0]}:{line or self.span[1]}"

    def calls(self):
        for bi, bb in enumerate(self.blocks):
            if bb and bb[1][0] == "call":
                yield bi, bb[1]

    def reachable(self):
        seen = {0}; st = [0]
        while st:
            b = st.pop()
            for s in succs(self.blocks[b]):
                if s not in seen and self.blocks[s] is not None:
                    seen.add(s); st.append(s)
        return seen

    def preds(self):
        if self._preds is None:
            p = defaultdict(list)
            for b in self.reachable():
                for s in succs(self.blocks[b]):
                    p[s].append(b)
            self._preds = p
        return self._preds

    def rpo(self):
        seen = set(); out = []
        st = [(0, iter(succs(self.blocks[0])))]; seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen and self.blocks[s] is not None:
                    seen.add(s); st.append((s, iter(succs(self.blocks[s])))); break
            else:
                out.append(b); st.pop()
        return out[::-1]

    def dominators(self):
        """block -> set of dominators (small bodies only)"""
        if self._dom is None:
            order = self.rpo(); idx = {b: i for i, b in enumerate(order)}
            preds = self.preds(); idom = {0: 0}
            ch = True
            while ch:
                ch = False
                for b in order[1:]:
                    new = None
                    for p in preds[b]:
                        if p in idom:
                            if new is None: new = p
                            else:
                                x, y = p, new
                                while x != y:
                                    while idx[x] > idx[y]: x = idom[x]
                                    while idx[y] > idx[x]: y = idom[y]
                                new = x
                    if idom.get(b) != new:
                        idom[b] = new; ch = True
            self._dom = idom
        return self._dom

    def dominates(self, a, b):
        idom = self.dominators()
        while True:
            if a == b: return True
            if b == 0 or b not in idom: return False
            b = idom[b]


def succs(bb):
    if bb is None: return []
    t = bb[1]
    k = t[0]
    if k == "goto": return [t[1]]
    if k == "switch": return [x[1] for x in t[2]] + [t[3]]
    if k == "drop": return [t[2]]
    if k == "call": return [] if t[4] is None else [t[4]]
    if k == "assert": return [t[4]]
    return []


def pl(p):
    """place -> (local, [projections])"""
    return (p, []) if isinstance(p, int) else (p[0], p[1:])


class DB:
    def __init__(self, path):
        self.bodies = {}; self.by_path = defaultdict(list)
        self.adts = {}; self.impls = []; self.traits = {}; self.sigs = {}; self.statics = []; self.unsafes = []
        self.types = []
        raw = []
        for line in open(path):
            d = json.loads(line)
            k = d["k"]
            if k == "body": raw.append(d)
            elif k == "adt": self.adts[d["path"]] = d
            elif k == "impl": self.impls.append(d)
            elif k == "trait": self.traits[d["path"]] = d
            elif k == "sig": self.sigs[d["id"]] = d
            elif k == "static": self.statics.append(d)
            elif k == "unsafe": self.unsafes.append(d)
            elif k == "types": self.types = d["l"]
        for d in raw:
            b = Body(d, self)
            self.bodies[b.id] = b
            self.by_path[b.path].append(b)

    def local_fns(self):
        for b in self.bodies.values():
            if b.kind in ("fn", "closure"):
                yield b

    def fn(self, path):
        l = self.by_path.get(path)
        return l[0] if l else None

    def find(self, suffix):
        return [b for p, l in self.by_path.items() if p.endswith(suffix) for b in l]


def callee(term):
    """(declared path, resolved path or None, fn record) of a call terminator; None for fn pointers"""
    f = term[1]
    if f[0] == "k" and "fn" in f[1]:
        r = f[1]["fn"]
        return r["p"], r.get("r"), r
    return None, None, None


# ---------- pretty printer ----------
def s_place(b, p):
    l, pr = pl(p)
    n = b.names.get(l)
    s = f"_{l}" + (f"'{n}" if n else "")
    for e in pr:
        if e == "*": s = f"(*{s})"
        elif e[0] == ".": s += f".{e[2]}"
        elif e[0] == "[]": s += f"[_{e[1]}]"
        elif e[0] == "as": s += f" as {e[2]}"
        else: s += str(e)
    return s


def s_const(b, k):
    if "fn" in k: return k["fn"].get("r") or k["fn"]["p"] + "<" + ",".join(k["fn"]["a"]) + ">"
    for x in ("f", "i", "b", "ch", "str"):
        if x in k:
            v = f"{k[x]!r}"
            if "def" in k: v = k["def"] + "=" + v
            return v
    return str({x: y for x, y in k.items() if x != "ty"}) + ":" + b.db.types[k["ty"]]


def s_op(b, o):
    return s_const(b, o[1]) if o[0] == "k" else ("" if o[0] == "c" else "move ") + s_place(b, o[1])


def s_rv(b, r):
    k = r[0]
    if k == "use": return s_op(b, r[1])
    if k in ("ref", "raw"): return f"&{r[1]} {s_place(b, r[2])}"
    if k == "bin": return f"{r[1]}({s_op(b, r[2])}, {s_op(b, r[3])})"
    if k == "un": return f"{r[1]}({s_op(b, r[2])})"
    if k == "cast": return f"{s_op(b, r[2])} as {b.db.types[r[3]]} [{r[1]}]"
    if k == "discr": return f"discr({s_place(b, r[1])})"
    if k == "agg": return f"{r[1][:4]}({', '.join(s_op(b, x) for x in r[2])})"
    return str(r)


def dump(b, out=sys.stdout):
    print(f"fn {b.path}  [{b.id}] {b.where()} argc={b.argc}", file=out)
    for i in range(len(b.locals)):
        if i <= b.argc or i in b.names: print(f"   _{i} {b.names.get(i,'')}: {b.ty(i)}", file=out)
    for i, bb in enumerate(b.blocks):
        if bb is None: continue
        print(f" bb{i}:", file=out)
        for p, r, ln in bb[0]:
            print(f"    {s_place(b,p)} = {s_rv(b,r)}   //{ln}", file=out)
        t = bb[1]
        if t[0] == "call":
            print(f"    {s_place(b,t[3])} = CALL {s_op(b,t[1])}({', '.join(s_op(b,x) for x in t[2])}) -> {t[4]}  //{t[5]}", file=out)
        elif t[0] == "switch":
            print(f"    switch {s_op(b,t[1])} {t[2]} else {t[3]}", file=out)
        elif t[0] == "assert":
            print(f"    assert {s_op(b,t[1])}=={t[2]} {t[3][0]} -> {t[4]}", file=out)
        else:
            print(f"    {t}", file=out)


if __name__ == "__main__":
    import facts
    db = DB(facts.ensure(quiet=True))
    for b in db.bodies.values():
        if sys.argv[1] in b.path: dump(b)
