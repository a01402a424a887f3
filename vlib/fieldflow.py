"""Which fields of a record are filled from the input, and which reach the output: taint over the call graph with one cell per field of a local type."""
import re
from mir import callee, pl, succs

FN = re.compile(r"as core::(fmt::Debug|clone::Clone|cmp::|hash::)")


def base(t):
    while t.startswith(("&", "mut ")): t = t[5:] if t.startswith("&mut ") else t[1:] if t.startswith("&") else t[4:]
    return t


class Fields:
    def __init__(self, db):
        self.db = db; self.short = {p.split("<")[0]: p for p in db.adts}; self._c = {}; self._fast = {}
        self.impls = {}
        for b in db.local_fns():
            if b.kind == "fn" and b.path.startswith("<") and " as " in b.path: self.impls.setdefault((b.path[1:].split(" as ")[0].split("<")[0], b.path.split("::")[-1]), b)

    def cell(self, e):
        """(type, field) of a projection on a type of this crate"""
        if len(e) < 4: return None
        o = (e[3] or "").split("<")[0]
        for p in (o, "siderust::" + o):
            if p in self.db.adts: return (p, e[2])
        return None

    def inner(self, ty, seen=None):
        """types of this crate a value of the type holds"""
        seen = seen if seen is not None else set()
        for w in re.findall(r"[A-Za-z_][\w:]*", ty):
            for p in (w, "siderust::" + w):
                if p in self.db.adts and p not in seen:
                    seen.add(p)
                    for v in self.db.adts[p]["variants"]:
                        for f in v[1]: self.inner(f[1], seen)
        return seen

    def owned(self, ty):
        if ty not in self._fast: self._fast[ty] = [(a, f[0]) for a in self.inner(ty) for v in self.db.adts[a]["variants"] for f in v[1]]
        return self._fast[ty]

    def operands(self, r):
        k = r[0]
        if k in ("use", "repeat"): return [r[1]]
        if k == "cast": return [r[2]]
        if k in ("ref", "raw"): return [("c", r[2])]
        if k == "bin": return list(r[2:4])
        if k == "un": return [r[2]]
        if k == "agg": return list(r[2])
        if k in ("discr", "len"): return [("c", r[1])]
        return [x for x in r[1:] if isinstance(x, (list, tuple)) and len(x) == 2 and x[0] in ("c", "m", "k")]

    def callees(self, b):
        if b.id in self._c: return self._c[b.id]
        out = set()
        def op(o):
            if o and o[0] == "k" and isinstance(o[1], dict):
                if "fn" in o[1]: out.add(o[1]["fn"].get("id"))
                if "promoted" in o[1]: out.add(f"{o[1]['def']}::promoted[{o[1]['promoted']}]")
        for bb in b.blocks:
            if bb is None: continue
            for p, r, ln in bb[0]:
                if r[0] == "agg" and r[1][0] == "closure": out.add(r[1][1])
                for o in self.operands(r): op(o)
            if bb[1][0] == "call":
                rec = callee(bb[1])[2]
                if rec: out.add(rec.get("id"))
                for o in bb[1][2]: op(o)
        self._c[b.id] = out = {x for x in out if x in self.db.bodies and not FN.search(self.db.bodies[x].path)}
        return out

    def reach(self, b):
        seen = {b.id}; st = [b.id]
        while st:
            for c in self.callees(self.db.bodies[st.pop()]):
                if c not in seen: seen.add(c); st.append(c)
        return [self.db.bodies[x] for x in seen if self.db.bodies[x].kind != "depfn" or len(self.db.bodies[x].blocks) < 200]

    def doomed(self, b):
        """blocks from which every way out is an error"""
        if not b.ty(0).startswith("core::result::Result<"): return set()
        reach = b.reachable(); out = set()
        for bi in reach:
            for p, r, ln in b.blocks[bi][0]:
                if pl(p)[0] == 0 and not pl(p)[1] and r[0] == "agg" and r[1][0] == "adt" and r[1][3] == "Err": out.add(bi)
            t = b.blocks[bi][1]
            if t[0] == "call" and pl(t[3])[0] == 0 and (callee(t)[0] or "").endswith("from_residual"): out.add(bi)
        ch = True
        while ch:
            ch = False
            for bi in reach - out:
                ss = [x for x in succs(b.blocks[bi]) if x in reach]
                if ss and all(x in out for x in ss): out.add(bi); ch = True
        return out

    def control(self, b):
        """block -> switches that decide whether a successful run passes through it"""
        k = ("cd", b.id)
        if k in self._c: return self._c[k]
        doom = self.doomed(b); live = [x for x in b.reachable() if x not in doom]
        good = {x for x in live if b.blocks[x][1][0] in ("ret", "return")}; ch = True
        while ch:
            ch = False
            for x in live:
                if x not in good and any(y in good for y in succs(b.blocks[x])): good.add(x); ch = True
        live = [x for x in live if x in good]; S = {x: [y for y in succs(b.blocks[x]) if y in good] for x in live}
        pd = {x: set(live) if S[x] else {x} for x in live}; ch = True
        while ch:
            ch = False
            for x in sorted(live, reverse=True):
                if S[x]:
                    n = set.intersection(*[pd[y] for y in S[x]]) | {x}
                    if n != pd[x]: pd[x] = n; ch = True
        dep = {x: set() for x in live}
        for s in live:
            if len(set(S[s])) > 1:
                for y in S[s]:
                    for x in pd[y]:
                        if x == s or x not in pd[s]: dep[x].add(s)
        ch = True
        while ch:
            ch = False
            for x in live:
                n = dep[x].union(*[dep[s] for s in dep[x]])
                if n != dep[x]: dep[x] = n; ch = True
        self._c[k] = dep
        return dep

    def presence(self, b, s):
        """the switch asks which variant a value is (an optional value, the next item of an iterator, an enum)"""
        o = b.blocks[s][1][1]
        if o[0] == "k": return True
        l = pl(o[1])[0]
        return any(pl(p)[0] == l and r[0] == "discr" for bb in b.blocks if bb for p, r, ln in bb[0])

    def sites(self, bodies):
        """body -> (caller, block) of its calls and of the places it is made a closure"""
        out = {}
        for x in bodies:
            D = self.doomed(x)
            for bi, bb in enumerate(x.blocks):
                if bb is None or bi in D: continue
                if bb[1][0] == "call":
                    rec = callee(bb[1])[2]
                    if rec: out.setdefault(rec.get("id"), set()).add((x.id, bi))
                    for o in bb[1][2]:
                        if o[0] == "k" and isinstance(o[1], dict) and "fn" in o[1]: out.setdefault(o[1]["fn"].get("id"), set()).add((x.id, bi))
                for p, r, ln in bb[0]:
                    if r[0] == "agg" and r[1][0] == "closure": out.setdefault(r[1][1], set()).add((x.id, bi))
        return out

    def defs(self, b):
        k = ("df", b.id)
        if k not in self._c:
            d = {}
            for bb in b.blocks:
                if bb is None: continue
                for p, r, ln in bb[0]: l, pr = pl(p); d.setdefault(l, []).append(("s", r) if not pr else None)
                if bb[1][0] == "call": l, pr = pl(bb[1][3]); d.setdefault(l, []).append(("c", bb[1]) if not pr else None)
            self._c[k] = d
        return self._c[k]

    def tree(self, b, o, n=0):
        """the expression an operand holds, down to arguments and locals set in several places"""
        if o[0] == "k": return ("k", str(o[1]))
        l, pr = pl(o[1]); x = self.defs(b).get(l, ())
        pr = tuple(("[]", self.tree(b, ("c", e[1]), n + 1)) if isinstance(e, (list, tuple)) and e[0] == "[]" else str(e) for e in pr)
        if n > 25 or l <= b.argc or len(x) != 1 or x[0] is None: return ("l", l, pr)
        k, v = x[0]
        if k == "c":
            c = callee(v)[0]
            if not c or any(q[0] != "k" and "&mut" in b.ty(pl(q[1])[0]) for q in v[2]): return ("l", l, pr)
            return ("c", c, tuple(self.tree(b, q, n + 1) for q in v[2]), pr)
        ops = self.operands(v)
        if v[0] == "ref" and v[1] == "mut" or not ops and v[0] != "agg": return ("l", l, pr)
        if v[0] in ("use", "cast"):                  # moves are transparent
            t = self.tree(b, ops[0], n + 1)
            return t if not pr and v[0] == "use" else ("s", v[0], t, pr)
        return ("s", v[0], str(v[1]) if v[0] in ("bin", "un", "agg", "ref") else "", tuple(self.tree(b, q, n + 1) for q in ops), pr)

    def twins(self, b):
        """(block, line, what is built, the two parts of it that are given the same value)"""
        D = self.doomed(b)
        for bi, bb in enumerate(b.blocks):
            if bb is None or bi in D: continue
            for p, r, ln in bb[0]:
                if r[0] != "agg" or len(r[2]) < 2: continue
                if r[1][0] == "adt" and len(r[1]) > 5: nm, what = r[1][5], r[1][1]
                elif r[1][0] == "array" and not re.search(r"fmt::rt::Argument|\[u8|\[&|\[char", b.ty(pl(p)[0])): nm, what = [f"[{i}]" for i in range(len(r[2]))], "array"
                else: continue
                yield from self.pairs(b, r[2], nm, what, ln)
            t = bb[1]
            if t[0] == "call" and len(t[2]) > 1 and (callee(t)[0] or "").split("::")[-1].startswith(("new", "from_", "try_new")):
                yield from self.pairs(b, t[2], [f"argument {i + 1}" for i in range(len(t[2]))], callee(t)[0], t[-1] if isinstance(t[-1], int) else None)

    def pairs(self, b, ops, names, what, ln):
        ts = [self.tree(b, o) for o in ops]
        for i in range(len(ts)):
            for j in range(i):
                if ts[i] == ts[j] and "('l'" in repr(ts[i]): yield ln, what, names[j], names[i]

    def parts(self, bodies, writes):
        """field of several components -> [components used one by one, whether it is also used as a whole, how many there are]"""
        out = {}
        def see(c, part, n):
            e = out.setdefault(c, [set(), False, n])
            if part is None: e[1] = True
            else: e[0].add(part)
        def idx(b, e):
            if e[0] == "[]":
                x = self.defs(b).get(e[1], ())
                return x[0][1][1][1].get("i") if len(x) == 1 and x[0] and x[0][0] == "s" and x[0][1][0] == "use" and x[0][1][1][0] == "k" and isinstance(x[0][1][1][1], dict) else None
            return None
        def bound(b, l, n=0):
            """the field a local borrows, through pattern bindings"""
            x = self.defs(b).get(l, ())
            if n > 6 or l <= b.argc or len(x) != 1 or x[0] is None or x[0][0] != "s" or x[0][1][0] not in ("ref", "use"): return None
            o = self.operands(x[0][1])[0]
            if o[0] == "k": return None
            j, pr = pl(o[1])
            if any(isinstance(e, (list, tuple)) and e[0] == "[]" for e in pr): return None
            c = next((self.cell(e) for e in reversed(pr) if isinstance(e, (list, tuple)) and e[0] == "." and self.cell(e)), None)
            return c or bound(b, j, n + 1)
        for b in bodies:
            D = self.doomed(b)
            def place(p, use):
                l, pr = pl(p); c = bound(b, l) if any(isinstance(e, (list, tuple)) and e[0] == "[]" for e in pr) else None
                for k, e in enumerate(pr):
                    if not isinstance(e, (list, tuple)): continue
                    if e[0] == ".": c = self.cell(e) or None
                    elif c:
                        m = re.search(r"\[.*; (\d+)\]>*$", self.fty(c))
                        if m:
                            i = idx(b, e)
                            see(c, i, int(m.group(1)))
                        c = None
                if c and use and re.match(r"\[.*; (\d+)\]$", self.fty(c)): see(c, None, 0)
            for bi, bb in enumerate(b.blocks):
                if bb is None or bi in D: continue
                for p, r, ln in bb[0]:
                    if writes: place(p, True)
                    else:
                        for o in self.operands(r):
                            if o[0] != "k": place(o[1], True)
                t = bb[1]
                if t[0] == "call":
                    if writes: place(t[3], True)
                    else:
                        for o in t[2]:
                            if o[0] != "k": place(o[1], True)
                        n = (callee(t)[0] or "").split("::")[-1]
                        if n in ("x", "y", "z") and t[2] and t[2][0][0] != "k":
                            x = self.defs(b).get(pl(t[2][0][1])[0], ())
                            if len(x) == 1 and x[0] and x[0][0] == "s" and x[0][1][0] == "ref":
                                c = next((self.cell(e) for e in reversed(pl(x[0][1][2])[1]) if isinstance(e, (list, tuple)) and e[0] == "." ), None)
                                if c: see(c, n, 3)
        return out

    def fty(self, c):
        return next((f[1] for v in self.db.adts[c[0]]["variants"] for f in v[1] if f[0] == c[1]), "")

    def flow(self, bodies, entry, params=(), cells=(), sink=None):
        """least set of tainted locals (body, local) and cells; -> (cells, first sink reached or None)"""
        ids = {b.id: b for b in bodies}; T = {b.id: set() for b in bodies}; C = set(cells)
        for i in params: T[entry.id].add(i)
        doom = {}; hit = []
        def touched(b, o):
            if o[0] == "k": return False
            l, pr = pl(o[1]); t = T[b.id]; state = l in t
            for e in pr:
                if isinstance(e, (list, tuple)) and e[0] == ".":
                    c = self.cell(e)
                    if c: state = c in C
                elif isinstance(e, (list, tuple)) and e[0] == "[]" and e[1] in t: state = True
            return state
        ch = True
        while ch:
            ch = False
            def taint(b, p):
                nonlocal ch
                l, pr = pl(p); c = None
                for e in pr:
                    if isinstance(e, (list, tuple)) and e[0] == ".": c = self.cell(e) or c
                if c:
                    if c not in C: C.add(c); ch = True
                elif l not in T[b.id]: T[b.id].add(l); ch = True; self.back(b, l, T, C)
            def fill(ty):
                """a library deserialiser fills every field of what it returns"""
                nonlocal ch
                for a in self.inner(ty):
                    for v in self.db.adts[a]["variants"]:
                        for f in v[1]:
                            if (a, f[0]) not in C: C.add((a, f[0])); ch = True
            for b in bodies:
                D = doom.get(b.id)
                if D is None: D = doom[b.id] = self.doomed(b)
                refs = self.refs(b)
                # what is chosen by a decision on tainted data depends on it
                if any(bb and bb[1][0] == "switch" and bi not in D and touched(b, bb[1][1]) for bi, bb in enumerate(b.blocks)):
                    for l in self.chosen(b):
                        if l not in T[b.id]: T[b.id].add(l); ch = True
                    for c in self.chosen_cells(b):
                        if c not in C: C.add(c); ch = True
                for bi, bb in enumerate(b.blocks):
                    if bb is None or bi in D: continue
                    for p, r, ln in bb[0]:
                        if r[0] == "agg" and r[1][0] == "adt" and len(r[1]) > 5:
                            a = r[1][1].split("<")[0]; a = a if a in self.db.adts else "siderust::" + a
                            if a in self.db.adts:
                                for f, o in zip(r[1][5], r[2]):
                                    if (a, f) not in C and touched(b, o): C.add((a, f)); ch = True
                                    if touched(b, o): taint(b, p)
                                continue
                        if r[0] == "agg" and r[1][0] == "closure" and r[1][1] in ids:
                            if any(touched(b, o) for o in r[2]) and 1 not in T[r[1][1]]: T[r[1][1]].add(1); ch = True
                        if any(touched(b, o) for o in self.operands(r)):
                            l, pr = pl(p)
                            taint(b, p)
                            if pr and l in refs:
                                for q in refs[l]: taint(b, q)
                    t = bb[1]
                    if t[0] != "call": continue
                    hot = [touched(b, o) for o in t[2]]
                    if (callee(t)[0] or "").startswith(("serde", "quick_xml", "toml")):
                        hot = [h or o[0] != "k" and any(x in C for x in self.owned(b.ty(pl(o[1])[0]))) for h, o in zip(hot, t[2])]
                    c, _, rec = callee(t); name = (c or "?").split("::")[-1]; cid = (rec or {}).get("id"); cb = ids.get(cid)
                    if cb is not None and cb.kind in ("fn", "depfn"):
                        for i, h in enumerate(hot):
                            if h and i < cb.argc and i + 1 not in T[cid]: T[cid].add(i + 1); ch = True
                        if 0 in T[cid]: taint(b, t[3])
                        for i, o in enumerate(t[2]):
                            if i < cb.argc and i + 1 in T[cid] and o[0] != "k" and b.ty(pl(o[1])[0]).startswith("&mut"):
                                for q in refs.get(pl(o[1])[0], ()): taint(b, q)
                        continue
                    # closures handed to library functions see what the function was given
                    if any(hot) and (c or "").startswith(("serde", "quick_xml", "toml")): fill(b.ty(pl(t[3])[0]))
                    if any(hot):
                        for i, o in enumerate(t[2]):
                            ids2 = []
                            if o[0] != "k":
                                ids2 = [x for x in self.closure(b, pl(o[1])[0]) if x in ids]
                            elif "fn" in o[1] and o[1]["fn"].get("id") in ids: ids2 = [o[1]["fn"]["id"]]
                            for x in ids2:
                                kb = ids[x]; lo = 2 if kb.kind == "closure" else 1
                                if any(h for j, h in enumerate(hot) if j != i):
                                    for j in range(lo, kb.argc + 1):
                                        if j not in T[x]: T[x].add(j); ch = True
                        if sink and sink(b, c or "", t, hot, rec): hit.append((b, bi))
                        taint(b, t[3])
                        for i, o in enumerate(t[2]):
                            if o[0] == "k" or not b.ty(pl(o[1])[0]).startswith("&mut"): continue
                            if any(h for j, h in enumerate(hot) if j != i) or True:
                                for q in refs.get(pl(o[1])[0], ()): taint(b, q)
                    for o in t[2]:
                        if o[0] != "k":
                            for x in self.closure(b, pl(o[1])[0]):
                                if x in ids and 0 in T[x]: taint(b, t[3])
                        elif "fn" in o[1] and o[1]["fn"].get("id") in ids and 0 in T[o[1]["fn"]["id"]]: taint(b, t[3])
        self.switches = {(b.id, bi) for b in bodies for bi, bb in enumerate(b.blocks) if bb and bi not in doom[b.id] and bb[1][0] == "switch" and touched(b, bb[1][1])}
        return C, T, hit

    def plain(self, ty):
        """types whose values are picked rather than computed: flags, enums without data, fixed texts"""
        for _ in range(2):
            m = re.match(r"core::option::Option<(.*)>$", ty) or re.match(r"core::result::Result<([^,<]*(?:<[^<>]*>)?), .*>$", ty)
            if m: ty = m.group(1)
        if ty in ("bool", "char") or ty in ("&str", "&'static str"): return True
        a = self.db.adts.get(ty) or self.db.adts.get("siderust::" + ty)
        return bool(a) and a["kind"] == "Enum"

    def chosen(self, b):
        """locals given a constant in one of several places"""
        k = ("ch", b.id)
        if k not in self._c:
            n = {}; const = set(); fixed = set(); ch = True
            while ch:                                  # temporaries holding one constant
                ch = False
                for bb in b.blocks:
                    for p, r, ln in bb[0] if bb else ():
                        l, pr = pl(p)
                        if not pr and l not in fixed and self.fixed(r, fixed): fixed.add(l); ch = True
            for bb in b.blocks:
                if bb is None: continue
                for p, r, ln in bb[0]:
                    l, pr = pl(p)
                    if pr: continue
                    n[l] = n.get(l, 0) + 1
                    if self.fixed(r, fixed): const.add(l)
                if bb[1][0] == "call": n[pl(bb[1][3])[0]] = n.get(pl(bb[1][3])[0], 0) + 1
            self._c[k] = [l for l in const if n[l] > 1 and self.plain(b.ty(l))]
        return self._c[k]

    def fixed(self, r, fx):
        """the value is built from constants alone"""
        if r[0] == "ref": return r[1] != "mut" and all(e == "*" for e in pl(r[2])[1]) and pl(r[2])[0] in fx
        return r[0] in ("use", "agg", "cast") and all(o[0] == "k" or not pl(o[1])[1] and pl(o[1])[0] in fx for o in self.operands(r))

    def chosen_cells(self, b):
        """fields set to a flag or an enum value"""
        k = ("cc", b.id)
        if k not in self._c:
            out = []
            for bb in b.blocks:
                for p, r, ln in bb[0] if bb else ():
                    l, pr = pl(p)
                    es = [self.cell(e) for e in pr if isinstance(e, (list, tuple)) and e[0] == "."]
                    if es and es[-1] and (r[0] == "use" and r[1][0] == "k" or r[0] == "agg" and not r[2]):
                        ft = next((f[1] for v in self.db.adts[es[-1][0]]["variants"] for f in v[1] if f[0] == es[-1][1]), "")
                        if self.plain(ft): out.append(es[-1])
            self._c[k] = out
        return self._c[k]

    def back(self, b, l, T, C): pass

    def closure(self, b, l):
        k = ("cl", b.id)
        if k not in self._c:
            m = {}; ch = True
            while ch:
                ch = False
                for bb in b.blocks:
                    for p, r, ln in bb[0] if bb else ():
                        d = pl(p)[0]; new = set()
                        if r[0] == "agg" and r[1][0] == "closure": new = {r[1][1]}
                        elif r[0] in ("use", "cast", "ref", "raw"):
                            for o in self.operands(r):
                                if o[0] != "k" and not pl(o[1])[1]: new |= m.get(pl(o[1])[0], set())
                        if new - m.get(d, set()): m.setdefault(d, set()).update(new); ch = True
            self._c[k] = m
        return self._c[k].get(l, ())

    def refs(self, b):
        """local -> places it is mutable access to"""
        k = ("rf", b.id)
        if k not in self._c:
            m = {}
            for bb in b.blocks:
                for p, r, ln in bb[0] if bb else ():
                    if r[0] in ("ref", "raw") and r[1] == "mut" and not pl(p)[1]: m.setdefault(pl(p)[0], set()).add(self.key(r[2]))
            ch = True
            while ch:
                ch = False
                for bb in b.blocks:
                    if bb is None: continue
                    items = [(pl(p)[0], pl(o[1])[0]) for p, r, ln in bb[0] if not pl(p)[1] and r[0] in ("use", "cast") for o in self.operands(r) if o[0] != "k"]
                    if bb[1][0] == "call" and not pl(bb[1][3])[1] and re.search("&mut|Mut<", b.ty(pl(bb[1][3])[0])): items += [(pl(bb[1][3])[0], pl(o[1])[0]) for o in bb[1][2] if o[0] != "k"]
                    for d, s in items:
                        if s in m and not m[s] <= m.get(d, set()) and re.search("&mut|Mut<", b.ty(d)): m.setdefault(d, set()).update(m[s]); ch = True
                for l, ps in list(m.items()):
                    for q in list(ps):
                        j, pr = pl(q)
                        if (not pr or pr[0] == "*") and j in m and j != l:
                            for z in m[j]:
                                if z not in ps: ps.add(z); ch = True
            self._c[k] = m
        return self._c[k]

    def key(self, p):
        l, pr = pl(p)
        return l if not pr else (l,) + tuple(tuple(e) if isinstance(e, list) else e for e in pr)
