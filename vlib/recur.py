"""Recursion over the monomorphic call graph: which recursive calls are bounded, and by what."""
from itertools import product
import re, sys, tys
from mir import pl, callee
from flow import Defs

FLIP = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}
NOT = {"Lt": "Ge", "Le": "Gt", "Gt": "Le", "Ge": "Lt"}
PART = ("iter", "iter_mut", "into_iter", "next", "deref", "as_ref", "as_slice", "as_deref", "values", "keys", "children", "chars", "enumerate", "rev", "zip", "skip", "borrow", "unwrap", "as_str", "first", "last", "split_first", "split_last", "flatten", "by_ref")


def sccs(nodes, out):
    """strongly connected components with a cycle (iterative Tarjan)"""
    idx = {}; low = {}; on = set(); st = []; res = []; n = 0
    for r in nodes:
        if r in idx: continue
        work = [(r, iter(out(r)))]; idx[r] = low[r] = n; n += 1; st.append(r); on.add(r)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n; n += 1; st.append(w); on.add(w); work.append((w, iter(out(w)))); break
                elif w in on: low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = st.pop(); on.discard(w); c.append(w)
                        if w == v: break
                    if len(c) > 1 or v in set(out(v)): res.append(c)
    return res


class Recur:
    def __init__(self, db, cg, L):
        self.db = db; self.cg = cg; self.L = L; self._mono = {}
        import sym
        self.S = sym.Interp(db) if hasattr(sym, "Interp") else None
        self.resolve = self.S.resolve
        self.undecided = 0
        self.limit = 20000

    # ---- nodes are (function, type arguments in the order of its generics)
    def edges(self, node):
        if node in self._mono: return self._mono[node]
        i, args = node; b = self.db.bodies[i]
        gens = b.d.get("generics") or []
        m = dict(zip(gens, args)); res = []
        def add(j, mm, bi, t):
            c = self.db.bodies[j]
            if c.kind not in ("fn", "closure"): return
            res.append(((j, tuple(mm.get(g, ("n", g, ())) for g in (c.d.get("generics") or []))), bi, t))
        def fn(rec, bi, t):
            ga = [tys.subst(tys.parse(x), m) for x in rec["a"]]
            if rec.get("t"):
                # a trait method: the implementation for these types
                r = self.resolve(rec["t"], rec["p"].split("::")[-1], [tys.show(x) for x in ga])
                if r is not None and r[0].kind == "fn": add(r[0].id, r[1], bi, t); return
                if r is None and not rec.get("r") and rec["t"] in self.db.traits: self.undecided += 1
            j = rec.get("id")
            if j in self.db.bodies:
                c = self.db.bodies[j]; g = c.d.get("generics") or []
                ra = [tys.subst(tys.parse(x), m) for x in (rec.get("ra") if rec.get("r") else rec["a"]) or rec["a"]]
                add(j, dict(zip(g, ra)) if len(g) == len(ra) else {}, bi, t)
        if len(self._mono) < self.limit:
            for bi, t in b.calls():
                rec = callee(t)[2]
                if rec: fn(rec, bi, t)
                for a in t[2]:
                    if a[0] == "k" and "fn" in a[1]: fn(a[1]["fn"], bi, None)
            for bi in b.reachable():
                for p, r, ln in b.blocks[bi][0]:
                    if r[0] == "agg" and r[1][0] == "closure" and r[1][1] in self.db.bodies: add(r[1][1], m, bi, None)
        self._mono[node] = res
        return res

    def groups(self):
        roots = []
        for b in self.db.local_fns():
            g = b.d.get("generics") or []
            roots.append((b.id, tuple(("n", x, ()) for x in g)))
        return sccs(roots, lambda n: [x for x, _, _ in self.edges(n)])

    # ---- one group at a time
    def judge(self, comp):
        """[(edge, why)] bounded edges, [edge] unbounded ones"""
        cs = set(comp); edges = [(n, x, bi, t) for n in comp for x, bi, t in self.edges(n) if x in cs]
        good = []; left = []
        for e in edges:
            n, x, bi, t = e; b = self.db.bodies[n[0]]
            w = self.visited(b, bi, t) or (self.smaller(b, x, t) if t is not None else None)
            (good if w else left).append((e, w))
        left = [e for e, _ in left]; bad = []
        for c2 in sccs(sorted({e[0] for e in left}, key=str), lambda n: [e[1] for e in left if e[0] == n]):
            c = set(c2); es = [e for e in left if e[0] in c and e[1] in c]
            w = self.depth(c2, es)
            if w: good += [(e, w) for e in es]
            else: bad.append((c2, es))
        return edges, good, bad

    def depth(self, comp, es):
        """an integer parameter per function that every call passes on, stepped one way, with a limit"""
        ps = {}
        for n in comp:
            b = self.db.bodies[n[0]]
            ps[n] = [k for k in range(1, b.argc + 1) if b.ty(k) in ("usize", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "isize", "u128", "i128")]
        if any(not v for v in ps.values()): return None
        if len(comp) > 4: return None
        rel = {}
        for k, (n, x, bi, t) in enumerate(es):
            if t is None: return None
            b = self.db.bodies[n[0]]
            for i, j in product(ps[n], ps[x]):
                r = self.relation(b, bi, t, i, j)
                if r: rel[(k, i, j)] = r
        for pick in product(*[ps[n] for n in comp]):
            f = dict(zip(comp, pick))
            for way in (1, -1):
                rs = [rel.get((k, f[n], f[x])) for k, (n, x, bi, t) in enumerate(es)]
                if any(r is None or r[0] * way < 0 for r in rs): continue
                def acyclic(keep):
                    ee = [(n, x) for (n, x, _, _), r in zip(es, rs) if keep(r)]
                    return not sccs([n for n, _ in ee], lambda v: [y for z, y in ee if z == v])
                if acyclic(lambda r: r[0] == 0) and acyclic(lambda r: way not in r[1]): return "its depth is stepped towards a limit that is tested"
        return None

    def relation(self, b, bi, t, i, j):
        """argument j of the call against parameter i: (-1|0|1 step, {ways guarded})"""
        if j > len(t[2]): return None
        d = self.delta(b, t[2][j - 1], i, 0)
        if d is None: return None
        step, checked = d; g = set()
        if checked: g.add(-1 if step < 0 else 1)
        L = self.L; keys = {("p", i)}
        def is_dep(op):
            r = self.delta(b, op, i, 0)
            return r is not None
        for x in b.reachable():
            cp = L.comparison(b, x)
            if cp:
                o, p, q, tr, f = cp
                for tgt, r0 in ((tr, o), (f, NOT[o])):
                    if not (b.dominates(tgt, bi) and len(b.preds()[tgt]) == 1): continue
                    if is_dep(p): g.add(1 if r0 in ("Lt", "Le") else -1)
                    if is_dep(q): g.add(1 if FLIP[r0] in ("Lt", "Le") else -1)
            u = b.blocks[x][1]
            if u[0] != "switch" or u[1][0] == "k": continue
            if is_dep(u[1]):
                # match depth { 0 => .., _ => recursive }
                if b.dominates(u[3], bi) and len(b.preds()[u[3]]) == 1 and any(int(v) == 0 for v, _ in u[2]): g |= {1, -1}
                continue
            l = pl(u[1][1])[0]; ds = L.defsof(b, l); neg = False
            while len(ds) == 1 and ds[0][2][0] == "rv" and ds[0][2][1][0] == "un" and ds[0][2][1][2][0] != "k":
                neg = not neg; l = pl(ds[0][2][1][2][1])[0]; ds = L.defsof(b, l)
            if len(ds) == 1 and ds[0][2][0] == "rv" and ds[0][2][1][0] == "bin" and ds[0][2][1][1] in ("Eq", "Ne"):
                _, o, p, q = ds[0][2][1]; f = next((z for v, z in u[2] if int(v) == 0), None); tr = u[3]
                if neg: f, tr = tr, f
                tgt = f if o == "Eq" else tr
                if tgt is not None and b.dominates(tgt, bi) and len(b.preds()[tgt]) == 1 and (is_dep(p) or is_dep(q)): g |= {1, -1}
        return step, g

    def delta(self, b, op, i, d):
        """is the operand parameter i plus a constant? (sign, whether the step is checked)"""
        if op[0] == "k" or d > 12: return None
        l, pr = pl(op[1])
        L = self.L
        ds = L.defsof(b, l)
        if 0 < l <= b.argc and not ds: return (0, False) if l == i and not [e for e in pr if e != "*"] else None
        if len(ds) != 1: return None
        kind, r = ds[0][2]
        if kind == "call":
            n = (callee(r)[0] or "").split("::")[-1]
            if n in ("branch", "unwrap", "expect", "ok_or", "ok_or_else", "copied", "cloned", "clone", "from", "into") and r[2]: return self.delta(b, r[2][0], i, d + 1)
            if n in ("saturating_add", "wrapping_add", "checked_add", "add", "saturating_sub", "wrapping_sub", "checked_sub", "sub") and len(r[2]) == 2:
                c = L.num(b, r[2][1]); x = self.delta(b, r[2][0], i, d + 1)
                if x is None or c is None or c < 0: return None
                s = (1 if "add" in n else -1) if c > 0 else 0
                if s * x[0] < 0: return None
                return (s or x[0], x[1] or n.startswith("checked"))
            return None
        if r[0] == "use": return self.delta(b, r[1], i, d + 1)
        if r[0] == "cast": return self.delta(b, r[2], i, d + 1)
        if r[0] == "bin" and r[1].startswith(("Add", "Sub")):
            c = L.num(b, r[3]); x = self.delta(b, r[2], i, d + 1)
            if (c is None or x is None) and r[1].startswith("Add"): c = L.num(b, r[2]); x = self.delta(b, r[3], i, d + 1)
            if x is None or c is None or c < 0: return None
            s = (1 if r[1].startswith("Add") else -1) if c > 0 else 0
            if s * x[0] < 0: return None
            return (s or x[0], x[1])
        return None

    def visited(self, b, bi, t):
        """the call is made only for something a record does not contain yet, and the record is passed on"""
        if bi is None or t is None: return None
        L = self.L
        for x in b.reachable():
            for new, c, n, ln in L.newtests(b, x):
                if not (b.dominates(new, bi) and len(b.preds()[new]) == 1): continue
                root = L.root(b, c[2][0]) if n != "any" else self.iterroot(b, c[2][0])
                if root not in [L.root(b, a) for a in t[2] if a[0] != "k"]: continue
                if n == "insert" or n == "entry": return f"only for what is new to {b.names.get(root, 'the record')} (line {ln})"
                for y in b.reachable():
                    v = b.blocks[y][1]
                    if v[0] == "call" and (callee(v)[0] or "").split("::")[-1] in ("push", "insert", "push_back") and v[2] and L.root(b, v[2][0]) == root and b.dominates(y, bi): return f"only for what is not yet in {b.names.get(root, 'the record')} (line {ln})"
        return None

    def iterroot(self, b, op):
        L = self.L; r = L.root(b, op)
        for _ in range(4):
            ds = L.defsof(b, r)
            if len(ds) == 1 and ds[0][2][0] == "call" and ds[0][2][1][2]: r = L.root(b, ds[0][2][1][2][0])
            else: break
        return r

    def smaller(self, b, x, t):
        """an argument is a part of one of the caller's own arguments (a field, an element), never the whole of it"""
        for a in t[2]:
            if a[0] == "k": continue
            if self.partof(b, a, 0) == "part": return "on a part of what it was given"
        return None

    def partof(self, b, op, d):
        if op[0] == "k" or d > 30: return None
        l, pr = pl(op[1]); L = self.L
        step = "part" if any(isinstance(e, list) and e[0] in ("as", "[]") for e in pr) else None
        ds = L.defsof(b, l)
        if 0 < l <= b.argc and not ds:
            ty = b.ty(l)
            if not ty.startswith("&") or ty.startswith("&mut") or "Rc<" in ty or "Arc<" in ty: return None
            return step or "whole"
        if len(ds) != 1: return None
        kind, r = ds[0][2]; v = None
        if kind == "call":
            n = (callee(r)[0] or "").split("::")[-1]
            if n not in PART or not r[2]: return None
            v = self.partof(b, r[2][0], d + 1)
        elif r[0] in ("use", "ref", "cast"):
            o = r[1] if r[0] == "use" else ["c", r[2]] if r[0] == "ref" else r[2]
            v = self.partof(b, o, d + 1)
        if v is None: return None
        return "part" if step or v == "part" else "whole"

    def arith(self, b, t):
        """an argument computed by arithmetic or slicing from the caller's own: a measure this rule does not decide"""
        D = Defs(b)
        for a in t[2]:
            if a[0] == "k": continue
            seen = set(); todo = [pl(a[1])[0]]; hit = False; par = False
            while todo:
                l = todo.pop()
                if l in seen: continue
                seen.add(l)
                if 0 < l <= b.argc: par = True
                for bi, si, (kind, r), ln in list(D.full.get(l, ())) + list(D.part.get(l, ())):
                    if kind == "call":
                        n = (callee(r)[0] or "").split("::")[-1]
                        if n in ("add", "sub", "mul", "div", "index", "split_at", "get", "shr", "shl", "sqrt", "mean", "midpoint", "saturating_sub", "saturating_add", "checked_sub", "wrapping_sub") and not (n in ("get", "index") and "Map" in "".join(b.ty(pl(q[1])[0]) for q in r[2] if q[0] != "k")): hit = True
                        todo += [pl(q[1])[0] for q in r[2] if q[0] != "k"]
                    elif r[0] == "bin":
                        if re.search("f64|f32|Quantity", b.ty(l)) or r[1].split("Over")[0].split("With")[0] in ("Div", "Rem", "Shr", "Sub", "BitAnd"): hit = True
                        todo += [pl(q[1])[0] for q in r[2:4] if q[0] != "k"]
                    elif r[0] in ("use", "cast", "un"):
                        q = r[1] if r[0] == "use" else r[2]
                        if q[0] != "k": todo.append(pl(q[1])[0])
                    elif r[0] in ("ref", "discr"): todo.append(pl(r[2] if r[0] == "ref" else r[1])[0])
                    elif r[0] == "agg": todo += [pl(q[1])[0] for q in r[2] if q[0] != "k"]
            if hit and par: return True
        return False


def check(db, cg, L, ck):
    R = Recur(db, cg, L)
    comps = R.groups()
    ck.count("functions at the types they are called with", len(R._mono))
    seen = set()
    for comp in comps:
        if any("serde" in db.bodies[i].path or "serde" in (db.bodies[i].d.get("trait") or "") for i, _ in comp): continue
        ck.count("recursive groups")
        edges, good, bad = R.judge(comp)
        for (n, x, bi, t), w in good:
            ck.ob(); ck.count("recursive calls"); b = db.bodies[n[0]]
            ck.sample(f"{b.where(t[5]) if t else b.path} in {b.path}: recursion {w}")
        for c2, es in bad:
            names = sorted({db.bodies[i].path for i, _ in c2})
            if len(comp) <= 4 and all(t is not None and R.arith(db.bodies[n[0]], t) for n, x, bi, t in es):
                ck.assume.append(f"not decided: the recursion of {', '.join(names)}"); continue
            key = "recursion|" + "|".join(names[:3])
            for n, x, bi, t in es: ck.ob(); ck.count("recursive calls")
            if key in seen: continue
            seen.add(key)
            n, x, bi, t = next((e for e in es if e[3] is not None), es[0]); b = db.bodies[n[0]]
            at = " -> ".join(names[:6]) + (" .." if len(names) > 6 else "")
            args = ", ".join(tys.show(a) for a in n[1])
            ck.violation(key, f"{b.where(t[5] if t else b.span[1])} in {b.path}{f'<{args}>' if args else ''}: the recursive call of {db.bodies[x[0]].path} is bounded neither by a depth stepped towards a tested limit, nor by a record of what was visited, nor by taking a part of its argument (cycle: {at})")
    ck.assume.append("recursion through a trait method of a generic parameter is followed at every type it is called with inside the crate")
