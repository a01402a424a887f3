"""Natural loops and the measures that make them end: consumption, floating-point advance, stacks with a visited set."""
import re
from mir import pl, callee, succs
from flow import Defs


def natural(b):
    """{head: (body blocks, back-edge sources)}"""
    out = {}; order = b.rpo(); pos = {x: i for i, x in enumerate(order)}
    preds = b.preds()
    for x in order:
        for y in succs(b.blocks[x]):
            if y in pos and pos[y] <= pos[x] and b.dominates(y, x):
                body = {y}; st = [x]
                while st:
                    z = st.pop()
                    if z in body: continue
                    body.add(z); st += [p for p in preds[z] if p in pos]
                h = out.setdefault(y, (set(), set()))
                h[0].update(body); h[1].add(x)
    return out


def cyclic(b, head, body, cut=(), dead=()):
    """is there still a way round the loop when the edges in cut and the blocks in dead are removed?  returns the blocks of one such way"""
    if head in dead: return None
    par = {}; st = [head]
    while st:
        x = st.pop()
        for y in succs(b.blocks[x]):
            if (x, y) in cut or y not in body: continue
            if y == head:
                p = [x]
                while p[-1] != head: p.append(par[p[-1]])
                return p[::-1]
            if y in dead or y in par: continue
            par[y] = x; st.append(y)
    return None


CONSUME = {"next", "next_back", "pop", "pop_front", "pop_back", "pop_first", "pop_last", "nth", "read_line", "read_until", "read_event", "read_event_into",
           "next_key", "next_key_seed", "next_entry", "next_entry_seed", "next_element", "next_element_seed", "recv", "next_if", "next_if_eq"}
ENDLESS = re.compile(r"\b(RangeFrom|Repeat|RepeatWith|Cycle|Successors|FromFn)\b")
UNIT = {"raw", "value", "quantity", "new", "from", "into", "to", "clone", "deref", "copied", "cast", "as_", "try_new", "new_unchecked", "from_raw"}


class Loops:
    def __init__(self, db, cg):
        self.db = db; self.cg = cg; self._d = {}; self._pos = {}
        self.consts = {}

    def d(self, b):
        if b.id not in self._d: self._d[b.id] = Defs(b)
        return self._d[b.id]

    # ---- consumption
    def root(self, b, op, depth=0):
        """local a receiver operand refers to, through references and copies"""
        if op[0] == "k": return None
        l, pr = pl(op[1])
        for _ in range(20):
            d = self.d(b).single(l)
            if d is None or d[2][0] != "rv": 
                if d is not None and d[2][0] == "call" and depth < 6:
                    n = (callee(d[2][1])[0] or "").split("::")[-1]
                    if n in ("by_ref", "deref_mut", "deref", "as_mut", "as_ref", "borrow_mut", "get_mut") and d[2][1][2]: return self.root(b, d[2][1][2][0], depth + 1)
                return l
            r = d[2][1]
            if r[0] == "ref": l = pl(r[2])[0]; continue
            if r[0] == "use" and r[1][0] != "k" and "&" in b.ty(l)[:1]: l = pl(r[1][1])[0]; continue
            return l
        return l

    def derived(self, b, dst):
        """locals that carry a call's result: {local: kind}, kind of ('opt', 'n', 'zero', 'nonzero', 'some', 'none', 'any')"""
        out = {dst: "res"}; ch = True
        while ch:
            ch = False
            for bi in b.reachable():
                bb = b.blocks[bi]
                for p, r, ln in bb[0]:
                    l, pr = pl(p)
                    if l in out or pr: continue
                    src = None; k = None
                    if r[0] in ("use",) and r[1][0] != "k": src = pl(r[1][1])[0]; k = "res"
                    elif r[0] == "ref": src = pl(r[2])[0]; k = "res"
                    elif r[0] == "discr":
                        src = pl(r[1])[0]
                        if src in out: k = "discr:" + self.placety(b, r[1])
                    elif r[0] == "bin" and r[1] in ("Eq", "Ne", "Gt", "Lt", "Ge", "Le"):
                        for x, y in ((r[2], r[3]), (r[3], r[2])):
                            if x[0] != "k" and pl(x[1])[0] in out and y[0] == "k" and "i" in y[1]:
                                c = int(y[1]["i"]); src = pl(x[1])[0]; op = r[1] if x is r[2] else {"Gt": "Lt", "Lt": "Gt", "Ge": "Le", "Le": "Ge"}.get(r[1], r[1])
                                k = {("Eq", 0): "zero", ("Ne", 0): "nonzero", ("Gt", 0): "nonzero", ("Lt", 1): "zero", ("Ge", 1): "nonzero", ("Le", 0): "zero"}.get((op, c))
                    elif r[0] == "un" and r[1] == "Not" and r[2][0] != "k":
                        src = pl(r[2][1])[0]
                        if src in out: k = {"zero": "nonzero", "nonzero": "zero"}.get(out[src])
                    if src in out and k is not None:
                        out[l] = k if k != "res" else out[src] ; ch = True
                t = bb[1]
                if t[0] == "call":
                    l, pr = pl(t[3])
                    if l in out or pr: continue
                    n = (callee(t)[0] or "").split("::")[-1]
                    for a in t[2]:
                        if a[0] == "k" or pl(a[1])[0] not in out or not out[pl(a[1])[0]] == "res": continue
                        if n in ("is_some", "is_ok"): out[l] = "nonzero"; ch = True
                        elif n in ("is_none", "is_err"): out[l] = "zero"; ch = True
                        elif n in ("branch", "ok", "transpose", "map_err", "map", "ok_or", "ok_or_else", "copied", "cloned", "unwrap", "expect", "filter", "and_then", "into_iter", "as_ref", "as_mut", "as_deref", "unwrap_or_default", "flatten", "unwrap_or"): out[l] = "res"; ch = True
        return out

    def placety(self, b, place):
        """type of a place, as far as it can be told"""
        l, pr = pl(place)
        if not pr: return b.ty(l)
        last = [e for e in pr if e != "*" and e[0] == "."]
        if last and len(last[-1]) > 4 and isinstance(last[-1][4], int): return self.db.types[last[-1][4]]
        return b.ty(l)

    def consumption(self, b, head, body):
        """edges on which something finite that exists outside the loop has become smaller"""
        cut = set(); seen = []
        for bi in body:
            t = b.blocks[bi][1]
            if t[0] != "call": continue
            d, r, rec = callee(t); n = (d or "").split("::")[-1]
            if n not in CONSUME or not t[2]: continue
            if rec and rec.get("id") in self.db.bodies and not (rec.get("t") or "").endswith("Iterator"): continue
            if n == "pop" and ("str" in (d or "") and "String" not in d): continue
            root = self.root(b, t[2][0])
            if root is None: continue
            ga = " ".join(rec.get("a", [])[:1]) if rec else ""
            if ENDLESS.search(ga) and not re.search(r"\b(Take|Zip|TakeWhile)\b", ga): continue
            if self.made_in(b, root, body): continue
            if self.refilled(b, root, body): seen.append((n, root, bi, "refilled")); continue
            seen.append((n, root, bi, "")); cut |= self.nonempty(b, t, bi, body)
        return cut, seen

    def made_in(self, b, root, body):
        """is the object created inside the loop?"""
        for bi, si, x, ln in self.d(b).full.get(root, ()):
            if bi in body:
                return True
        return False

    def refilled(self, b, root, body):
        for bi in body:
            t = b.blocks[bi][1]
            if t[0] != "call": continue
            n = (callee(t)[0] or "").split("::")[-1]
            if n in ("push", "push_back", "push_front", "extend", "insert", "append", "resize", "extend_from_slice", "push_str") and t[2] and self.root(b, t[2][0]) == root: return True
        return False

    def nonempty(self, b, t, bi, body):
        """edges taken when a consuming call found something"""
        n = (callee(t)[0] or "").split("::")[-1]
        dv = self.derived(b, pl(t[3])[0]); cut = set()
        for x in body:
            u = b.blocks[x][1]
            if u[0] != "switch" or u[1][0] == "k": continue
            l, pr = pl(u[1][1])
            k = dv.get(l)
            if k is None: continue
            zero = [tgt for v, tgt in u[2] if int(v) == 0]; other = [tgt for v, tgt in u[2] if int(v) != 0] + ([u[3]] if u[3] is not None else [])
            if k == "zero" : cut |= {(x, y) for y in zero}
            elif k == "nonzero": cut |= {(x, y) for y in other}
            elif k.startswith("discr:"):
                ty = k[6:].lstrip("&")
                if ty.startswith("core::option::Option"): cut |= {(x, y) for y in other}
                elif "events::Event" in ty:
                    outs = {y for y in zero + other if y not in body}
                    if outs: cut |= {(x, y) for y in zero + other if y in body}
            elif k == "res":
                # a plain integer result, matched on
                cut |= {(x, y) for y in other}
        return {(x, y) for x, y in cut if y in body}

    # ---- positive steps
    def defsof(self, b, l): return self.d(b).full.get(l) or []

    def constval(self, b, op):
        if op[0] != "k": return None
        for x in ("f", "i"):
            if x in op[1]:
                try: return float(op[1][x])
                except (TypeError, ValueError): return None
        if "promoted" in op[1]: return self.promoted(op[1])
        return None

    def promoted(self, k):
        b = self.db.bodies.get(f"{k['def']}::promoted[{k['promoted']}]")
        if b is None: return None
        vals = []
        for bb in b.blocks:
            if not bb: continue
            for p, r, ln in bb[0]:
                if r[0] == "use" and r[1][0] == "k":
                    v = self.constval(b, r[1])
                    if v is not None: vals.append(v)
                if r[0] in ("agg", "bin", "un", "cast"): return None
            if bb[1][0] == "call":
                n = (callee(bb[1])[0] or "").split("::")[-1]
                if n not in UNIT: return None
                for a in bb[1][2]:
                    v = self.constval(b, a)
                    if v is not None: vals.append(v)
        return vals[0] if len(vals) == 1 else None

    def num(self, b, op, depth=0):
        """constant behind an operand (copies, references, wrappers)"""
        if op[0] == "k": return self.constval(b, op)
        if depth > 12: return None
        l, pr = pl(op[1])
        ds = self.defsof(b, l)
        if len(ds) != 1 or self.d(b).part.get(l): return None
        if 0 < l <= b.argc: return None
        kind, r = ds[0][2]
        if kind == "call":
            n = (callee(r)[0] or "").split("::")[-1]
            if n in UNIT and r[2]: return self.num(b, r[2][0], depth + 1)
            if n == "neg" and r[2]:
                v = self.num(b, r[2][0], depth + 1); return None if v is None else -v
            return None
        if r[0] == "use": return self.num(b, r[1], depth + 1)
        if r[0] == "ref": return self.num(b, ["c", r[2]], depth + 1)
        if r[0] == "un" and r[1] == "Neg":
            v = self.num(b, r[2], depth + 1); return None if v is None else -v
        return None

    def comparison(self, b, x):
        """the switch at the end of block x as ([(op, lhs, rhs, true target, false target)])"""
        t = b.blocks[x][1]
        if t[0] != "switch" or t[1][0] == "k": return None
        f = next((y for v, y in t[2] if int(v) == 0), None); tr = t[3] if t[3] is not None else next((y for v, y in t[2] if int(v) == 1), None)
        if f is None or tr is None: return None
        l = pl(t[1][1])[0]; neg = False
        for _ in range(6):
            ds = self.defsof(b, l)
            ds = [y for y in ds]
            if len(ds) != 1: return None
            kind, r = ds[0][2]
            if kind == "rv" and r[0] == "un" and r[1] == "Not" and r[2][0] != "k": neg = not neg; l = pl(r[2][1])[0]; continue
            if kind == "rv" and r[0] == "use" and r[1][0] != "k": l = pl(r[1][1])[0]; continue
            break
        if neg: f, tr = tr, f
        if kind == "rv" and r[0] == "bin" and r[1] in ("Lt", "Le", "Gt", "Ge"): return (r[1], r[2], r[3], tr, f)
        if kind == "call":
            n = (callee(r)[0] or "").split("::")
            if n[-1] in ("lt", "le", "gt", "ge") and len(r[2]) == 2: return (n[-1].capitalize(), r[2][0], r[2][1], tr, f)
        return None

    def same(self, b, x, y):
        """do two operands name the same place (through references and copies of single-assignment locals)?"""
        kx, ky = self.placekey(b, x), self.placekey(b, y)
        return kx is not None and kx == ky

    def placekey(self, b, op, depth=0, stop=()):
        """(local, fields) an operand is a copy, reference or unit view of"""
        if op[0] == "k" or depth > 16: return None
        l, pr = pl(op[1]); fields = tuple(e[1] for e in pr if e != "*" and e[0] == ".")
        if any(e != "*" and e[0] not in (".",) for e in pr): return None
        if (l, fields) in stop: return (l, fields)
        ds = self.defsof(b, l)
        if 0 < l <= b.argc and not ds or self.d(b).part.get(l): return (l, fields)
        if len(ds) != 1: return (l, fields)
        kind, r = ds[0][2]
        if kind == "call":
            n = (callee(r)[0] or "").split("::")[-1]
            if n in UNIT and r[2] and not fields: return self.placekey(b, r[2][0], depth + 1, stop)
            return (l, fields)
        nxt = None
        if r[0] == "use" and r[1][0] != "k": nxt = r[1][1]
        elif r[0] == "ref": nxt = r[2]
        if nxt is None: return (l, fields)
        k = self.placekey(b, ["c", nxt], depth + 1, stop)
        return None if k is None else (k[0], k[1] + fields)

    def positive(self, b, op, at, depth=0, seen=()):
        """is the value at least some positive constant, for every input (numbers only)?"""
        if depth > 25: return False
        c = self.constval(b, op)
        if c is not None: return c > 0
        if op[0] == "k": return False
        key = self.placekey(b, op)
        if key is not None and at is not None:
            for x in b.reachable():
                cp = self.comparison(b, x)
                if cp is None: continue
                o, p, q, tr, f = cp
                for side, other, gt in ((p, q, ("Gt", "Ge")), (q, p, ("Lt", "Le"))):
                    if self.placekey(b, side) != key: continue
                    if not self.positive_const(b, other): continue
                    tgt = tr if o in gt else f
                    if len(b.preds()[tgt]) == 1 and b.dominates(tgt, at): return True
        l, pr = pl(op[1])
        if (b.id, l, str(pr)) in seen: return False
        seen = seen + ((b.id, l, str(pr)),)
        fields = [e for e in pr if e != "*"]
        ds = self.defsof(b, l)
        if 0 < l <= b.argc and not ds:
            if b.kind == "fn" and not b.d.get("pub") and not fields:
                sites = self.callers(b.id)
                return bool(sites) and all(self.positive(cb, t[2][l - 1], bi, depth + 1, seen) for cb, bi, t in sites)
            return False
        if fields or not ds or self.d(b).part.get(l): return False
        return all(self.posdef(b, r, kind, bi, depth + 1, seen) for bi, si, (kind, r), ln in ds)

    def positive_const(self, b, op):
        v = self.num(b, op)
        return v is not None and v > 0

    def posdef(self, b, r, kind, at, depth, seen):
        P = lambda o: self.positive(b, o, at, depth, seen)
        if kind == "rv":
            if r[0] == "use": return P(r[1])
            if r[0] == "ref": return P(["c", r[2]])
            if r[0] == "bin" and r[1] in ("Mul", "Div"): return P(r[2]) and P(r[3])
            if r[0] == "bin" and r[1] == "Add": return P(r[2]) and P(r[3])
            return False
        d, rr, rec = callee(r); n = (d or "").split("::")[-1]; a = r[2]
        if n == "max": return any(P(x) for x in a)
        if n == "min": return all(P(x) for x in a)
        if n == "clamp": return P(a[1])
        if n in ("mul", "div", "add"): return all(P(x) for x in a)
        if n in UNIT or n == "abs": return bool(a) and P(a[0])
        if rec and rec.get("id") in self.db.bodies:
            cb = self.db.bodies[rec["id"]]
            ds = self.defsof(cb, 0)
            return bool(ds) and all(self.posdef(cb, x, k, bi, depth, seen) for bi, si, (k, x), ln in ds)
        if n in UNIT or n == "abs": return bool(a) and P(a[0])
        return False

    def callers(self, fid):
        if not self.consts.get("callers"):
            m = {}
            for b in self.db.local_fns():
                for bi, t in b.calls():
                    for x in self.cg.targets(t): m.setdefault(x, []).append((b, bi, t))
            self.consts["callers"] = m
        return self.consts["callers"].get(fid, ())

    # ---- floating-point advance
    def alts(self, b, op, carried, body, depth=0):
        """what an assigned value can be, relative to the carried place: ('same',) ('adv', sign, positive?) ('inv', placekey) ('other',)"""
        if depth > 25: return {("other",)}
        if op[0] == "k": return {("const", self.constval(b, op))}
        l, pr = pl(op[1]); fields = tuple(e[1] for e in pr if e != "*" and e[0] == ".")
        if (l, fields) == carried: return {("same",)}
        ds = self.defsof(b, l)
        if 0 < l <= b.argc and not ds or all(x[0] not in body for x in ds) and not [x for x in self.d(b).part.get(l, ()) if x[0] in body]:
            return {("inv", self.placekey(b, op))}
        if self.d(b).part.get(l) or fields and not all(k == "rv" and r[0] in ("use", "ref") for _, _, (k, r), _ in ds): return {("other",)}
        out = set()
        for bi, si, (kind, r), ln in ds:
            if kind == "rv" and r[0] in ("use", "ref"):
                nx = r[1] if r[0] == "use" else ["c", r[2]]
                if nx[0] != "k" and pr:
                    q = pl(nx[1]); nx = ["c", [q[0]] + list(q[1]) + [e for e in pr if e != "*"]]
                out |= self.alts(b, nx, carried, body, depth + 1)
            elif kind == "rv" and r[0] == "bin" and r[1] in ("Add", "Sub"): out |= self.addalts(b, r[2], r[3], r[1], carried, body, bi, depth)
            elif kind == "call":
                d, rr, rec = callee(r); n = (d or "").split("::")[-1]; a = r[2]
                if n in ("add", "sub"): out |= self.addalts(b, a[0], a[1], n.capitalize(), carried, body, bi, depth)
                elif n in ("min", "max") and len(a) == 2:
                    x, y = self.alts(b, a[0], carried, body, depth + 1), self.alts(b, a[1], carried, body, depth + 1)
                    out |= x | y
                elif n == "clamp": out |= {("other",)}
                elif n in UNIT and a: out |= self.alts(b, a[0], carried, body, depth + 1)
                elif rec and rec.get("id") in self.db.bodies: out |= self.local(b, r, self.db.bodies[rec["id"]], carried, body, bi, depth)
                else: out.add(("other",))
            else: out.add(("other",))
        return out

    def addalts(self, b, x, y, op, carried, body, at, depth):
        ax, ay = self.alts(b, x, carried, body, depth + 1), None
        if ax == {("same",)}: return {("adv", op, self.positive(b, y, at))}
        if op == "Add":
            ay = self.alts(b, y, carried, body, depth + 1)
            if ay == {("same",)}: return {("adv", op, self.positive(b, x, at))}
        if ax <= {("same",)} | {z for z in ax if z[0] == "adv" and z[1] == op} and ("same",) not in ax: return {("adv", op, all(z[2] for z in ax))}
        if ("same",) in (ay or ()) or ("same",) in ax: return {("other",)}
        return {("other",)}

    def local(self, b, t, cb, carried, body, at, depth):
        """a small helper that adds its second argument to its first"""
        if len([x for x in cb.blocks if x]) > 12: return {("other",)}
        for i in range(1, cb.argc + 1):
            mine = self.alts(b, t[2][i - 1], carried, body, depth + 1)
            if not mine or any(z[0] not in ("same", "adv") for z in mine): continue
            inner = set()
            for bi, si, (k, r), ln in self.defsof(cb, 0):
                inner |= self.retalts(cb, (i, ()), set(range(len(cb.blocks))), depth + 1, b, t, at)
            if not inner: return {("other",)}
            if mine == {("same",)}: return inner
            out = set()
            for z in inner:
                for y in mine:
                    if z[0] == "same": out.add(y)
                    elif z[0] == "adv" and y[0] == "same": out.add(z)
                    elif z[0] == "adv" and z[1] == y[1]: out.add(("adv", z[1], z[2] or y[2]))
                    elif z[0] == "inv": out.add(z)
                    else: out.add(("other",))
            return out
        return {("other",)}

    def retalts(self, cb, carried, body, depth, b, t, at):
        """return value of a helper relative to its parameter; steps that are parameters are judged at the call site"""
        saved = self.positive
        def positive(bb, op, a2, *r):
            if bb is cb and op[0] != "k":
                k = self.placekey(cb, op)
                if k and 0 < k[0] <= cb.argc and not k[1]: return saved(b, t[2][k[0] - 1], at)
            return saved(bb, op, a2, *r)
        self.positive = positive
        try:
            out = set()
            for bi, si, (k, r), ln in self.defsof(cb, 0):
                if k == "call": 
                    d, rr, rec = callee(r); n = (d or "").split("::")[-1]
                    if n in ("add", "sub"): out |= self.addalts(cb, r[2][0], r[2][1], n.capitalize(), carried, body, bi, depth)
                    elif n in ("min", "max"): out |= self.alts(cb, r[2][0], carried, body, depth) | self.alts(cb, r[2][1], carried, body, depth)
                    elif n in UNIT and r[2]: out |= self.alts(cb, r[2][0], carried, body, depth)
                    else: out.add(("other",))
                elif r[0] == "use": out |= self.alts(cb, r[1], carried, body, depth)
                elif r[0] == "bin" and r[1] in ("Add", "Sub"): out |= self.addalts(cb, r[2], r[3], r[1], carried, body, bi, depth)
                else: out.add(("other",))
            return {x if x[0] != "inv" else ("inv", None) for x in out}
        finally: self.positive = saved

    def assigned(self, b, body):
        """places assigned inside the loop: {(local, fields): [(block, operand)]}"""
        out = {}
        for bi in body:
            for p, r, ln in b.blocks[bi][0]:
                l, pr = pl(p)
                if any(e == "*" or e[0] != "." for e in pr): continue
                k = (l, tuple(e[1] for e in pr))
                out.setdefault(k, []).append((bi, ("rv", r), ln))
            t = b.blocks[bi][1]
            if t[0] == "call":
                l, pr = pl(t[3])
                if any(e == "*" or e[0] != "." for e in pr): continue
                out.setdefault((l, tuple(e[1] for e in pr)), []).append((bi, ("call", t), t[5]))
        return out

    def carriedplace(self, b, op, asg, body, depth=0):
        """place a compared operand shows: loop-carried ones are assigned inside and also before the loop"""
        k = self.placekey(b, op, 0, tuple(asg))
        return k

    def valueof(self, b, kind, r, carried, body, bi, ln):
        if kind == "rv":
            if r[0] in ("use", "ref"): return self.alts(b, r[1] if r[0] == "use" else ["c", r[2]], carried, body)
            if r[0] == "bin" and r[1] in ("Add", "Sub"): return self.addalts(b, r[2], r[3], r[1], carried, body, bi, 0)
            return {("other",)}
        d, rr, rec = callee(r); n = (d or "").split("::")[-1]; a = r[2]
        if n in ("add", "sub"): return self.addalts(b, a[0], a[1], n.capitalize(), carried, body, bi, 0)
        if n in ("min", "max") and len(a) == 2: return self.alts(b, a[0], carried, body) | self.alts(b, a[1], carried, body)
        if n in UNIT and a: return self.alts(b, a[0], carried, body)
        if rec and rec.get("id") in self.db.bodies: return self.local(b, r, self.db.bodies[rec["id"]], carried, body, bi, 0)
        return {("other",)}

    def inplace(self, b, body):
        """t += step as a call: {place: [(block, op, step operand)]}"""
        out = {}
        for bi in body:
            t = b.blocks[bi][1]
            if t[0] != "call": continue
            n = (callee(t)[0] or "").split("::")[-1]
            if n in ("add_assign", "sub_assign") and len(t[2]) == 2:
                k = self.placekey(b, t[2][0])
                if k: out.setdefault(k, []).append((bi, "Add" if n[0] == "a" else "Sub", t[2][1], t[5]))
        return out

    def floats(self, b, head, body, cut):
        """('ok'|'stuck', why) for a loop driven by a floating-point comparison, None when it is not one.  cut: edges that progress otherwise"""
        asg = self.assigned(b, body); inp = self.inplace(b, body); best = None
        for x in body:
            cp = self.comparison(b, x)
            if cp is None: continue
            o, p, q, tr, f = cp
            ins = [y for y in (tr, f) if y in body]
            if len(ins) != 1: continue
            if not re.search(r"f64|f32|Quantity|Time<|JulianDate", self.optype(b, p)): continue
            if cyclic(b, head, body, set(cut) | {(x, ins[0])}): continue      # not on every way round
            truth = ins[0] == tr
            rel = o if truth else {"Lt": "Ge", "Le": "Gt", "Gt": "Le", "Ge": "Lt"}[o]
            for u, v, r2 in ((p, q, rel), (q, p, {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}[rel])):
                # u r2 v holds on the way round
                ku = self.placekey(b, u); kv = self.placekey(b, v)
                for w in self.peeled(b, u, body):
                    kw = self.placekey(b, w)
                    res = kw and self.driven(b, head, body, cut, asg, inp, kw, kv, r2, x, self.num(b, v) is not None)
                    if res:
                        if res[0] == "ok": return res
                        best = best or res
                if ku is None: continue
                # strict progress test: the next value is beyond the carried one
                if kv is not None and (kv in asg or kv in inp) and r2 in ("Gt", "Lt"):
                    if self.becomes(b, head, body, cut, asg, kv, ku): return ("ok", f"each value is strictly beyond the last (compared at line {self.lineof(b, x)})")
        return best

    def peeled(self, b, op, body):
        """the operand, and what it adds something constant in the loop to"""
        out = [op]
        for _ in range(8):
            if op[0] == "k": break
            l, pr = pl(op[1]); ds = [d for d in self.defsof(b, l)]
            if len(ds) != 1 or ds[0][0] not in body: break
            kind, r = ds[0][2]
            n = (callee(r)[0] or "").split("::")[-1] if kind == "call" else ""
            if kind == "rv" and r[0] in ("use", "ref"): op = r[1] if r[0] == "use" else ["c", r[2]]
            elif kind == "call" and n in UNIT and r[2]: op = r[2][0]
            elif n in ("add", "sub") or kind == "rv" and r[0] == "bin" and r[1] in ("Add", "Sub"):
                x, y = r[2][:2] if kind == "call" else r[2:4]
                if self.fixed(b, y, body): op = x
                elif self.fixed(b, x, body) and (n == "add" or kind == "rv" and r[1] == "Add"): op = y
                else: break
                out.append(op)
            else: break
        return out

    def fixed(self, b, op, body, depth=0):
        """does the operand keep its value while the loop runs?"""
        if op[0] == "k": return True
        l, pr = pl(op[1])
        if depth > 12 or [x for x in self.d(b).part.get(l, ()) if x[0] in body]: return False
        if any(r[0] == "ref" and r[1] != "shared" and pl(r[2])[0] == l for x in body for p, r, ln in b.blocks[x][0]): return False
        for bi, si, (kind, r), ln in self.defsof(b, l):
            if bi not in body: continue
            if kind == "rv" and r[0] in ("use", "ref", "cast"): nx = [r[1] if r[0] == "use" else ["c", r[2]] if r[0] == "ref" else r[2]]
            elif kind == "rv" and r[0] == "bin": nx = r[2:4]
            elif kind == "call" and (callee(r)[0] or "").split("::")[-1] in UNIT | {"add", "sub", "mul", "min", "max"}: nx = r[2]
            else: return False
            if not all(self.fixed(b, y, body, depth + 1) for y in nx): return False
        return True

    def lineof(self, b, x):
        t = b.blocks[x][1]
        for p, r, ln in reversed(b.blocks[x][0]): return ln
        for pbi in b.preds()[x]:
            u = b.blocks[pbi][1]
            if u[0] == "call": return u[5]
        return b.span[1]

    def optype(self, b, op):
        if op[0] == "k": return self.db.types[op[1]["ty"]] if "ty" in op[1] else ""
        k = pl(op[1])
        return b.ty(k[0])

    def becomes(self, b, head, body, cut, asg, kv, ku):
        """is kv, on every way round, assigned only the value of ku?"""
        blocks = set()
        for bi, (kind, r), ln in asg.get(kv, ()):
            if kind != "rv" or r[0] != "use" or r[1][0] == "k": return False
            k = self.placekey(b, r[1], 0, tuple(a for a in asg if a == ku))
            if k != ku and self.placekey(b, r[1]) != ku: return False
            blocks.add(bi)
        return bool(blocks) and cyclic(b, head, body, cut, blocks) is None

    def driven(self, b, head, body, cut, asg, inp, ku, kv, rel, at, const=False):
        """the guard says ku rel kv on every way round; does ku move towards leaving?"""
        if kv is not None and (kv in asg or kv in inp) and kv != ku and not all(bi not in body for bi, *_ in asg.get(kv, ())):
            if any(self.valueof(b, k, r, kv, body, bi, ln) != {("inv", None)} for bi, (k, r), ln in asg.get(kv, ()) if False): return None
        if ku not in asg and ku not in inp: return None
        up = rel in ("Lt", "Le"); want = "Add" if up else "Sub"; blocks = set(); bad = None
        for bi, (k, r), ln in asg.get(ku, ()):
            vals = self.valueof(b, k, r, ku, body, bi, ln)
            for z in vals:
                if z[0] == "adv" and z[1] == want and z[2]: continue
                if z[0] in ("inv",) and (z[1] == kv or kv is not None and z[1] is None) and rel in ("Lt", "Gt"): continue
                if z == ("other",): return None
                bad = bad or (ln, z)
            blocks.add(bi)
        for bi, op, step, ln in inp.get(ku, ()):
            if op != want or not self.positive(b, step, bi): bad = bad or (ln, ("adv", op, False))
            blocks.add(bi)
        if bad is None and (self.unbounded(b, ku, body) or const and self.given(b, ku, body)): bad = (self.lineof(b, at), ("angle",))
        way = cyclic(b, head, body, cut, blocks)
        if way: return ("stuck", f"a way round the loop leaves {self.nm(b, ku)} unchanged")
        if bad:
            ln, z = bad
            why = {"adv": "a step that is not bounded away from zero" if z[0] == "adv" and z[1] == want else "a step in the wrong direction", "same": "itself", "inv": "a value that does not leave the loop", "const": "a constant", "angle": "a fixed step although nothing bounds the distance to go"}[z[0]]
            return ("stuck", f"line {ln}: {self.nm(b, ku)} moves by {why}")
        return ("ok", f"{self.nm(b, ku)} advances by at least a positive constant towards the bound tested at line {self.lineof(b, at)}")

    def unbounded(self, b, k, body):
        """an angle straight from the caller: however large, so that a fixed step need not move it"""
        if not re.search(r"Quantity<.*(angular|Degree|Radian)", b.ty(k[0])): return False
        return 0 < k[0] <= b.argc or any(0 < (self.placekey(b, r[1]) or (0,))[0] <= b.argc for bi, si, (kind, r), ln in self.defsof(b, k[0]) if bi not in body and kind == "rv" and r[0] == "use" and r[1][0] != "k")

    def given(self, b, k, body):
        """a number of the caller, taken as it is"""
        if k[1]: return False
        if 0 < k[0] <= b.argc: return True
        pre = [(kind, r) for bi, si, (kind, r), ln in self.defsof(b, k[0]) if bi not in body]
        return bool(pre) and all(kind == "rv" and r[0] == "use" and r[1][0] != "k" and (self.placekey(b, r[1]) or (0,))[0] in range(1, b.argc + 1) for kind, r in pre)

    def nm(self, b, k): return b.names.get(k[0], f"_{k[0]}") + "".join(f".{x}" for x in k[1])

    # ---- work lists
    def worklist(self, b, head, body, cons):
        """pop loops that push: every push must be behind a visited test or a test that the work has become small"""
        for n, root, bi, why in cons:
            if why != "refilled": continue
            pushes = [x for x in body if b.blocks[x][1][0] == "call" and (callee(b.blocks[x][1])[0] or "").split("::")[-1] in ("push", "push_back", "push_front", "extend", "insert", "append") and b.blocks[x][1][2] and self.root(b, b.blocks[x][1][2][0]) == root]
            okall = True; whys = []
            for x in pushes:
                g = self.worktest(b, x, body) or self.filtered(b, b.blocks[x][1])
                if g is None: okall = False; return ("stuck", f"line {b.blocks[x][1][5]}: work is added to {b.names.get(root, 'the list')} with no test that it is new or has become smaller", root, bi)
                whys.append(g)
            return ("ok", f"work added to {b.names.get(root, 'the list')} only {whys[0] if whys else ''}", root, bi)
        return None

    def newtests(self, b, y):
        """tests of a switch that show something is not yet in a record: (block it leads to, call that asks, how, line)"""
        t = b.blocks[y][1]
        if t[0] != "switch" or t[1][0] == "k": return []
        l, pr0 = pl(t[1][1]); neg = False
        arm = lambda k: next((z for v, z in t[2] if int(v) == k), t[3])
        for _ in range(4):
            ds = self.defsof(b, l)
            if len(ds) == 1 and ds[0][2][0] == "rv" and ds[0][2][1][0] == "un" and ds[0][2][1][2][0] != "k": neg = not neg; l = pl(ds[0][2][1][2][1])[0]; continue
            if len(ds) == 1 and ds[0][2][0] == "rv" and ds[0][2][1][0] == "use" and ds[0][2][1][1][0] != "k": l, pr0 = pl(ds[0][2][1][1][1]); continue
            break
        if len(ds) != 1: return []
        kind, r = ds[0][2]; ln = ds[0][3]
        f = arm(0); tr = t[3] if any(int(v) == 0 for v, _ in t[2]) else arm(1)
        if neg: f, tr = tr, f
        if kind == "call":
            n = (callee(r)[0] or "").split("::")[-1]
            new = {"contains": f, "contains_key": f, "insert": tr, "any": f}.get(n)
            if new is not None: return [(new, r, n, ln)]
            if n in ("is_none", "is_some") and r[2]:
                c = self.called(b, r[2][0]); m = (callee(c)[0] or "").split("::")[-1] if c else ""
                if m in ("get", "get_mut", "insert", "get_key_value"): return [(tr if n == "is_none" else f, c, "insert" if m == "insert" else "get", ln)]
            if n in ("index", "index_mut") and "*" in pr0: return [(f, r, "flag", ln)]
            return []
        if r[0] == "discr":
            c = self.called(b, ["c", r[1]])
            if not c: return []
            m = (callee(c)[0] or "").split("::")[-1]
            if m in ("get", "get_mut", "get_key_value"): return [(arm(0), c, "get", ln)]
            if m == "insert": return [(arm(0), c, "insert", ln)]
            if m == "entry": return [(arm(1 if "hash" in b.ty(pl(c[3])[0]) else 0), c, "entry", ln)]
        return []

    def called(self, b, op):
        """the call whose result the operand is (through copies and borrows)"""
        for _ in range(8):
            if op[0] == "k": return None
            l, pr = pl(op[1])
            if [e for e in pr if e != "*"]: return None
            ds = self.defsof(b, l)
            if len(ds) != 1: return None
            kind, r = ds[0][2]
            if kind == "call":
                if (callee(r)[0] or "").split("::")[-1] in ("copied", "cloned", "as_ref") and r[2]: op = r[2][0]; continue
                return r
            if r[0] == "use": op = r[1]
            elif r[0] == "ref": op = ["c", r[2]]
            else: return None
        return None

    def worktest(self, b, x, body):
        for y in body:
            for new, c, n, ln in self.newtests(b, y):
                if not (new in body and b.dominates(new, x) and len(b.preds()[new]) == 1): continue
                root = self.root(b, c[2][0])
                if n == "insert" or self.recorded(b, body, new, x, root, n): return f"after the test at line {ln} shows it is new"
            cp = self.comparison(b, y)
            if cp:
                o, p, q, tr, f = cp
                for big, small, side in ((p, q, {"Gt": tr, "Ge": tr, "Lt": f, "Le": f}), (q, p, {"Lt": tr, "Le": tr, "Gt": f, "Ge": f})):
                    tgt = side[o]
                    if tgt in body and b.dominates(tgt, x) and len(b.preds()[tgt]) == 1 and self.positive(b, small, y) and self.computed(b, body, b.blocks[x][1]): return f"while it is larger than a positive bound (line {self.lineof(b, y)})"
        return None

    def computed(self, b, body, t):
        """is some of what is added computed (halved, split, scaled), not just handed on?"""
        todo = [pl(a[1])[0] for a in t[2][1:] if a[0] != "k"]; seen = set()
        while todo:
            l = todo.pop()
            if l in seen: continue
            seen.add(l)
            for bi, si, (kind, r), ln in list(self.defsof(b, l)) + list(self.d(b).part.get(l, ())):
                if bi not in body: continue
                if kind == "call":
                    d, rr, rec = callee(r); n = (d or "").split("::")[-1]
                    if n in ("call", "call_mut", "call_once"): continue
                    if n in ("mul", "div", "midpoint", "split", "split_at", "shr") or rec and rec.get("id") in self.db.bodies and n not in UNIT: return True
                    todo += [pl(a[1])[0] for a in r[2] if a[0] != "k"]
                elif r[0] == "bin":
                    if r[1].startswith(("Mul", "Div", "Shr", "Rem")): return True
                    todo += [pl(a[1])[0] for a in r[2:4] if a[0] != "k"]
                elif r[0] in ("use", "cast", "un"):
                    q = r[1] if r[0] == "use" else r[2]
                    if q[0] != "k": todo.append(pl(q[1])[0])
                elif r[0] == "ref": todo.append(pl(r[2])[0])
                elif r[0] == "agg": todo += [pl(a[1])[0] for a in r[2] if a[0] != "k"]
        return False

    # ---- chains followed through a table
    def chain(self, b, head, body):
        """the loop goes from entry to entry of a table, and nothing else decides when it ends"""
        D = self.d(b); state = set()
        for x in body:
            cp = self.comparison2(b, x)
            if not cp: continue
            for o in cp:
                k = self.placekey(b, o)
                if k and not k[1] and any(d[0] in body for d in D.full.get(k[0], ())) and any(d[0] not in body for d in list(D.full.get(k[0], ()))) : state.add(k[0])
        state = {l for l in state if re.fullmatch(r"[ui](8|16|32|64|128|size)", b.ty(l))}
        if len(state) != 1: return None
        l = state.pop(); tables = set(); ln0 = None
        for bi, si, (kind, r), ln in D.full.get(l, ()):
            if bi not in body: continue
            src = self.lookup(b, kind, r, body, l)
            if src is None: return None
            tables |= src; ln0 = ln
        if not tables: return None
        name = b.names.get(l, f"_{l}")
        for y in body:
            for new, c, n, ln in self.newtests(b, y):
                if new in body and cyclic(b, head, body, {(y, new)}) is None and (n == "insert" or self.recorded(b, body, new, new, self.root(b, c[2][0]), n)): return ("ok", f"{name} goes round only where it has not been (line {ln})")
        if len(tables) == 1:
            t = next(iter(tables))
            puts = [x for x in b.reachable() if b.blocks[x][1][0] == "call" and (callee(b.blocks[x][1])[0] or "").split("::")[-1] in ("insert", "entry", "insert_entry", "or_insert", "push") and b.blocks[x][1][2] and self.root(b, b.blocks[x][1][2][0]) == t]
            ok = bool(puts) and not (0 < t <= b.argc)
            for x in puts:
                n = (callee(b.blocks[x][1])[0] or "").split("::")[-1]
                inloop = any(x in bd for h, (bd, _) in natural(b).items())
                if not inloop or n == "entry": continue
                if not any(b.dominates(new, x) and len(b.preds()[new]) == 1 and self.root(b, c[2][0]) == t for y in b.reachable() for new, c, nn, _ in self.newtests(b, y)): ok = False
            if ok: return ("ok", f"{name} goes back along a record whose entries were each added once, after the one they point to")
        return ("stuck", f"line {ln0}: {name} is looked up in the data each time round, and nothing stops it from coming back to where it was")

    def comparison2(self, b, x):
        """operands compared to leave or stay, equality included"""
        t = b.blocks[x][1]
        if t[0] != "switch" or t[1][0] == "k": return None
        l = pl(t[1][1])[0]; ds = self.defsof(b, l)
        if len(ds) == 1 and ds[0][2][0] == "rv" and ds[0][2][1][0] == "bin" and ds[0][2][1][1] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"): return ds[0][2][1][2:4]
        return (t[1],)

    def lookup(self, b, kind, r, body, l):
        """tables a value is read from, at a place that depends on the value itself; None when it is computed otherwise"""
        D = self.d(b); tables = set(); seen = set(); back = False; found = False
        todo = [r[1] if r[0] == "use" else r[2]] if kind == "rv" and r[0] in ("use", "cast") else None
        if kind == "call": todo = self.through(b, r, tables)
        if todo is None: return None
        first = True
        while todo:
            o = todo.pop()
            if o[0] == "k": continue
            p, pr = pl(o[1])
            if p == l: back = True; continue
            if p in seen: continue
            seen.add(p)
            for bi, si, (k2, r2), ln in list(D.full.get(p, ())) + list(D.part.get(p, ())):
                if bi not in body: continue
                if k2 == "call":
                    nx = self.through(b, r2, tables)
                    if nx is None: return None
                    todo += nx
                elif r2[0] in ("use", "cast"): todo.append(r2[1] if r2[0] == "use" else r2[2])
                elif r2[0] == "ref": todo.append(["c", r2[2]])
                elif r2[0] == "discr": todo.append(["c", r2[1]])
                elif r2[0] == "agg": todo += list(r2[2])
                elif r2[0] == "bin": todo += r2[2:4]
                else: return None
        return tables if back and tables else None

    def through(self, b, t, tables):
        d, rr, rec = callee(t); n = (d or "").split("::")[-1]
        if any(a[0] != "k" and "&mut" in b.ty(pl(a[1])[0]) for a in t[2]): return None
        if n in ("get", "index", "get_unchecked") or (rec is None or rec.get("id") in self.db.bodies) and t[2] and "&[" in b.ty(pl(t[2][0][1])[0] if t[2][0][0] != "k" else 0):
            r = self.root(b, t[2][0]); tables.add(r); return list(t[2][1:])
        if n in ("len", "is_empty"): return []
        if n in UNIT or n in ("unwrap", "expect", "branch", "ok_or", "ok_or_else", "copied", "cloned", "unwrap_or", "unwrap_or_default", "deref", "as_ref", "from_residual", "map_err", "try_into", "try_from"): return list(t[2][:1])
        if rec and rec.get("id") in self.db.bodies: return list(t[2])
        return None

    def filtered(self, b, t):
        """what is added went through a filter that asks a record"""
        todo = [pl(a[1])[0] for a in t[2][1:] if a[0] != "k"]; seen = set()
        while todo:
            l = todo.pop()
            if l in seen: continue
            seen.add(l)
            for bi, si, (kind, r), ln in self.defsof(b, l):
                if kind == "call": todo += [pl(a[1])[0] for a in r[2] if a[0] != "k"]
                elif r[0] == "use" and r[1][0] != "k": todo.append(pl(r[1][1])[0])
                elif r[0] == "agg" and r[1][0] == "closure" and r[1][1] in self.db.bodies:
                    c = self.db.bodies[r[1][1]]
                    if any((callee(u)[0] or "").split("::")[-1] in ("insert", "contains", "contains_key") for _, u in c.calls()): return f"through the filter at line {ln} that keeps what is new"
        return None

    def recorded(self, b, body, new, x, root, n):
        """on the way where it is new, is it put into the record?"""
        for y in body:
            if not b.dominates(new, y) or not (b.dominates(y, x) or b.dominates(x, y)): continue
            t = b.blocks[y][1]
            if t[0] == "call" and t[2]:
                m = (callee(t)[0] or "").split("::")[-1]
                if m in ("push", "insert", "push_back", "insert_entry", "or_insert"):
                    if n in ("entry", "any") or self.root(b, t[2][0]) == root: return True
                if m == "index_mut" and n == "flag" and self.root(b, t[2][0]) == root: return True
            for p, r, ln in b.blocks[y][0]:
                if n == "flag" and any(isinstance(e, list) and e[0] == "[]" for e in pl(p)[1]) and self.root(b, ["c", p]) == root: return True
        return False

    def inserts(self, b, body):
        return any(b.blocks[x][1][0] == "call" and (callee(b.blocks[x][1])[0] or "").split("::")[-1] in ("push", "insert", "push_back") for x in body)
