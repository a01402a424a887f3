"""Relational abstract interpretation of MIR: linear facts about lengths and indices, char boundaries, enum variants.

Used to show that index, slice, unwrap, division, shift and narrow-arithmetic sites cannot panic. Values are linear
expressions over atoms; a state is a map from locals to values plus a set of linear inequalities, character-boundary
facts and known enum variants. Calls into the crate are interpreted in the caller's state; loops are solved by keeping
the candidate facts that hold on entry and on every back edge.
"""
import re
from mir import pl, callee, succs

# ---------------------------------------------------------------- atoms and linear expressions
_ids = {}; _desc = []; _rng = []
INF = float("inf")
TYR = {"u8": (0, 255), "u16": (0, 65535), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "usize": (0, 2**64 - 1), "u128": (0, 2**128 - 1),
       "i8": (-128, 127), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1), "isize": (-2**63, 2**63 - 1), "i128": (-2**127, 2**127 - 1),
       "char": (0, 0x10ffff)}
LEN = (0, 2**40)          # no value held in memory is longer than this
MAXDEPTH = 5


def atom(desc, rng):
    i = _ids.get(desc)
    if i is None:
        i = _ids[desc] = len(_desc); _desc.append(desc); _rng.append(rng)
    return i


def K(c): return (c, ())
def A(i): return (0, ((i, 1),))


def add(x, y, s=1):
    if not y[1]: return (x[0] + s * y[0], x[1])
    d = dict(x[1])
    for a, k in y[1]:
        d[a] = d.get(a, 0) + s * k
        if d[a] == 0: del d[a]
    return (x[0] + s * y[0], tuple(sorted(d.items())))


def scale(x, k):
    if k == 0: return K(0)
    return (x[0] * k, tuple((a, c * k) for a, c in x[1]))


def sub(x, y): return add(x, y, -1)
def comb(g, q, f, m):
    """q*g - m*f"""
    d = {a: c * q for a, c in g[1]}
    for a, c in f[1]:
        c = d.get(a, 0) - m * c
        if c: d[a] = c
        else: del d[a]
    return (g[0] * q - m * f[0], tuple(sorted(d.items())))


def subst(x, m):
    """replace atoms by linear expressions"""
    if not any(a in m for a, _ in x[1]): return x
    r = (x[0], tuple((a, c) for a, c in x[1] if a not in m))
    for a, c in x[1]:
        if a in m: r = add(r, scale(m[a], c))
    return r


def tainted(a):
    d = _desc[a]
    while isinstance(d, tuple) and d:
        if d[0] == "in": return True
        if d[0] == "r": return any(tainted(x) for x, _ in d[1][1])
        if d[0] in ("fld", "v", "len", "q"): d = d[1]
        else: return False
    return False


class State:
    __slots__ = ("env", "ge", "tags", "dead", "_ix")

    def __init__(self, env=None, ge=None, tags=None):
        self.env = env if env is not None else {}; self.ge = ge if ge is not None else frozenset(); self.tags = tags if tags is not None else frozenset()
        self.dead = False; self._ix = None

    def copy(self):
        s = State(dict(self.env), self.ge, self.tags); s.dead = self.dead; s._ix = self._ix
        return s

    def ix(self):
        if self._ix is None:
            ix = {}
            for f in self.ge:
                for a, c in f[1]: ix.setdefault(a, []).append((c, f))
            self._ix = ix
        return self._ix

    def prove(self, g, depth=MAXDEPTH, budget=None):
        """is g >= 0 in every concrete state described?  (shallow derivations are tried first)"""
        for d in range(1, depth + 1):
            r = self._prove(g, d, {}, [budget or 400])
            if r: return True
            if r is None: return False       # nothing left to combine
        return False

    def _prove(self, g, depth, seen, budget):
        """True, False, or None when g cannot be proved however deep one looks"""
        lo = g[0]
        for a, c in g[1]:
            r = _rng[a]
            lo += c * (r[0] if c > 0 else r[1])
        if lo >= 0: return True
        if not g[1]: return None
        if depth == 0: return False
        if seen.get(g, -1) >= depth: return False
        seen[g] = depth
        budget[0] -= 1
        if budget[0] < 0: return False
        ix = self.ix(); cut = False
        for a, c in g[1]:
            d = _desc[a]
            if d[0] in ("min", "max") and (c > 0) == (d[0] == "min"):
                cut = True
                if self._prove(subst(g, {a: d[1]}), depth - 1, dict(seen), budget) and self._prove(subst(g, {a: d[2]}), depth - 1, dict(seen), budget): return True
        if depth == 1:
            gd = dict(g[1]); g0 = g[0]
            for a, c in g[1]:
                for k, f in ix.get(a, ()):
                    if (k > 0) != (c > 0): continue
                    cut = True
                    if c % k == 0: m, q = c // k, 1
                    else: m, q = abs(c), abs(k)
                    d = gd.copy() if q == 1 else {x: y * q for x, y in g[1]}
                    lo = g0 * q - m * f[0] + q - 1            # q g >= 1 - q means g >= 0: g is an integer
                    for x, y in f[1]: d[x] = d.get(x, 0) - m * y
                    for x, y in d.items():
                        if y > 0: lo += y * _rng[x][0]
                        elif y < 0: lo += y * _rng[x][1]
                    if lo >= 0: return True
            return False if cut else None
        for a, c in g[1]:
            for k, f in ix.get(a, ()):
                if (k > 0) != (c > 0): continue
                # g - (c/k) f
                if c % k == 0: n = comb(g, 1, f, c // k)
                else: n = comb(g, abs(k), f, abs(c)); n = (n[0] + abs(k) - 1, n[1])
                if len(n[1]) > 5: continue
                r = self._prove(n, depth - 1, seen, budget)
                if r: return True
                if r is False: cut = True
        return False if cut else None

    def eq(self, x, y): return self.prove(sub(x, y)) and self.prove(sub(y, x))

    def put(self, fact):
        k = fact[0]
        if k == "false": self.dead = True
        elif k == "ge":
            f = fact[1]
            if not f[1]:
                if f[0] < 0: self.dead = True
                return
            if f in self.ge: return
            if self.prove(sub(K(-1), f), 3): self.dead = True
            self.ge = self.ge | {f}; self._ix = None
        elif k == "ne":
            f = fact[1]
            if not f[1]:
                if f[0] == 0: self.dead = True
                return
            p, n = self.prove(f, 3), self.prove(sub(K(0), f), 3)
            if p and n: self.dead = True
            elif p: self.put(("ge", sub(f, K(1))))
            elif n: self.put(("ge", sub(K(-1), f)))
            else: self.tags = self.tags | {fact}
        else:
            if k == "var":
                for t in self.tags:
                    if t[0] == "var" and t[1] == fact[1] and t[2] != fact[2]: self.dead = True
            self.tags = self.tags | {fact}


def eqf(x, y):
    d = sub(x, y)
    return (("ge", d), ("ge", sub(K(0), d)))


# ---------------------------------------------------------------- values
def I(l): return ("I", l)
def B(t=(), f=()): return ("B", tuple(t), tuple(f))
def S(i, items=()): return ("S", i, tuple(sorted(items.items())) if isinstance(items, dict) else tuple(items))
def O(root, ty=None): return ("O", root, K(0), A(atom(("len", root), LEN)))
def E(*vs): return ("E", tuple(vs))


UNIT = S(("unit",))


def strip(ty):
    while True:
        m = re.match(r"^(&(?:'\w+ )?(?:mut )?|alloc::boxed::Box<)", ty)
        if not m: return ty
        ty = ty[m.end():]
        if m.group(1).startswith("alloc"): ty = ty[:-1] if ty.endswith(">") else ty


def islist(ty):
    return ty == "str" or ty.startswith("[") or ty == "alloc::string::String" or ty.startswith(("alloc::vec::Vec<", "alloc::collections::vec_deque::VecDeque<", "alloc::borrow::Cow<str", "alloc::borrow::Cow<'_, str"))


def opaque(i, ty):
    """an unknown value named i of the given type"""
    ty = strip(ty)
    if ty in TYR: return I(A(atom(("v", i), TYR[ty])))
    if ty == "bool": return ("B", (("b", i, True),), (("b", i, False),))
    if islist(ty):
        m = re.match(r"^\[.*; (\d+)\]$", ty)
        if m: return ("O", ("v", i), K(0), K(int(m.group(1))))
        return O(("v", i))
    return S(i)


def atoms_of(v, out):
    k = v[0]
    if k == "I": out.update(a for a, _ in v[1][1])
    elif k == "O": out.update(a for a, _ in v[2][1]); out.update(a for a, _ in v[3][1])
    elif k == "S":
        for _, x in v[2]: atoms_of(x, out)
    elif k == "E":
        for _, x, fs in v[1]:
            atoms_of(x, out)
    return out


OK, SOME, NONE, ERR = 0, 1, 0, 1


class Safe:
    def __init__(self, db, scope, maxframes=9, inline=None):
        self.db = db; self.scope = scope; self.maxframes = maxframes
        self.sites = {}          # (body id, block) -> {"what", "line", "bad": {ctx: msg}, "n"}
        self.visited = set(); self.depth = 0; self.stack = []; self.proms = {}
        self.inline = inline or (lambda b: True)
        self.unstable = set(); self.calls = 0; self.deadline = None; self.timeout = set()

    # ---- values ----
    keep = kept = None

    def field(self, v, var, idx, ty, st):
        if v[0] == "R": v = self.load(v, st)
        if v[0] == "E":
            for vi, s, fs in v[1]:
                if vi == (var if var is not None else vi): return self.field(s, None, idx, ty, st)
            return opaque(("dead",), ty)
        if v[0] in ("S", "C"):
            for i, x in v[2]:
                if i == idx: return self.typed(x, ty)
            return opaque(("fld", v[1], var, idx), ty)
        if v[0] == "D": return v
        return opaque(("fld", v, var, idx), ty)

    def typed(self, v, ty):
        if v[0] == "S" and not v[2]:
            t = strip(ty)
            if t in TYR or t == "bool" or islist(t): return opaque(v[1], ty)
        return v

    def load(self, r, st):
        _, cell, path = r
        v = st.env.get(cell)
        if v is None: return S(("cell", cell, path))
        for e in path: v = self.step(v, e, st, None)
        return v

    def step(self, v, e, st, b):
        if e == "*": return self.load(v, st) if v[0] == "R" else v
        if e[0] == ".": return self.field(v, e[5] if len(e) > 5 else None, e[1], self.db.types[e[4]], st)
        if e[0] == "el": return self.elem(v, e[1])
        return v

    def elem(self, v, lin):
        if v[0] == "O": return S(("el", v[1], add(v[2], lin)))
        return S(("el", v, lin))

    def resolve(self, b, fr, st, p):
        """place -> (root cell, normalised projections)"""
        l, pr = pl(p)
        out = []; var = None
        for e in pr:
            if e == "*": out.append("*")
            elif e[0] == "as": var = e[1]
            elif e[0] == ".": out.append(tuple(e[:5]) + (var,)); var = None
            elif e[0] == "[]":
                i = st.env.get((fr, e[1]))
                out.append(("el", i[1] if i is not None and i[0] == "I" else A(atom(("ix", fr, e[1]), TYR["usize"]))))
            elif e[0] == "[c]": out.append(("el", K(e[1]) if not e[3] else A(atom(("ce", fr, str(p)), TYR["usize"]))))
            elif e[0] == "[s]": out.append(("sub", e[1], e[2], e[3]))
            else: out.append(("?",))
        return (fr, l), out

    def get(self, b, fr, st, p):
        l, pr = pl(p)
        cell, path = self.resolve(b, fr, st, p)
        v = st.env.get(cell)
        if v is None: v = opaque(("undef", fr, l), b.ty(l))
        for e in path:
            if e[0] == "sub":
                if v[0] == "O":
                    o = K(e[1]); n = sub(v[3], K(e[1] + e[2])) if e[3] else K(e[2] - e[1])
                    v = ("O", v[1], add(v[2], o), n)
            else: v = self.step(v, e, st, b)
        return v

    def operand(self, b, fr, st, op):
        if op[0] == "k": return self.const(b, op[1])
        return self.get(b, fr, st, op[1])

    def const(self, b, k):
        if "i" in k: return I(K(int(k["i"])))
        if "ch" in k: return I(K(int(k["ch"])))
        if "b" in k: return B((), (("false",),)) if k["b"] else B((("false",),), ())
        if "str" in k: return ("O", ("lit", k["str"]), K(0), K(len(k["str"].encode())))
        if "len" in k: return ("O", ("bytes", str(k.get("bytes"))), K(0), K(k["len"]))
        if "closure" in k: return ("C", k["closure"], ())
        ty = self.db.types[k["ty"]]
        if "promoted" in k:
            pb = self.db.bodies.get(f"{k['def']}::promoted[{k['promoted']}]")
            if pb is not None and len(pb.blocks) <= 4:
                if pb.id not in self.proms:
                    self.proms[pb.id] = None
                    v, s, _ = self.run(pb, [], State(), ("prom", pb.id), ())
                    self.proms[pb.id] = v if v[0] != "R" or s is None else self.load(v, s)
                v = self.proms[pb.id]
                if v is not None: return v
        if "def" in k or "mem" in k:
            return opaque(("const", k.get("def"), k.get("mem"), str(k.get("a"))), ty)
        if "zst" in k: return UNIT
        return opaque(("const", str(k)), ty)

    def write(self, b, fr, st, p, v):
        l, pr = pl(p)
        cell, path = self.resolve(b, fr, st, p)
        if not pr:
            st.env[cell] = self.typed(v, b.ty(l)); return
        old = st.env.get(cell)
        if old is None: old = opaque(("undef", fr, l), b.ty(l))
        st.env[cell] = self.update(old, path, v, st)

    def update(self, old, path, v, st):
        if not path: return v
        e, rest = path[0], path[1:]
        if e == "*":
            if old[0] == "R":
                _, cell, cp = old
                base = st.env.get(cell)
                if base is None: base = S(("cell", cell, ()))
                st.env[cell] = self.update(base, list(cp) + list(rest), v, st)
                return old
            return self.update(old, rest, v, st)
        if e[0] == ".":
            var, idx, ty = e[5], e[1], self.db.types[e[4]]
            if old[0] == "E":
                return ("E", tuple((vi, self.update(s, [e[:5] + (None,)] + list(rest), v, st) if vi == var or var is None else s, fs) for vi, s, fs in old[1]))
            if old[0] in ("S", "C"):
                d = dict(old[2]); d[idx] = self.update(self.field(old, var, idx, ty, st), rest, v, st)
                return (old[0], old[1], tuple(sorted(d.items())))
            return old
        if e[0] == "el":
            if old[0] == "O": return ("O", ("w", old[1], v if v[0] in "IO" else "?"), old[2], old[3])
            return S(("w", old[1] if old[0] == "S" else old, "?"))
        return old

    def havoc(self, v, st, name, seen=None):
        """forget whatever a mutable reference inside v points at"""
        if v[0] == "R":
            _, cell, path = v
            if cell in st.env:
                old = self.load(v, st)
                new = self.renew(old, name)
                st.env[cell] = self.update(st.env[cell], list(path), new, st)
                self.havoc(old, st, name + (1,))
        elif v[0] in ("S", "C"):
            for i, x in v[2]: self.havoc(x, st, name + (i,))
        elif v[0] == "E":
            for vi, s, _ in v[1]: self.havoc(s, st, name + (vi,))
        elif v[0] == "IT":
            for x in v[2:]:
                if isinstance(x, tuple) and x and isinstance(x[0], str): self.havoc(x, st, name)

    def renew(self, old, name):
        if old[0] == "I":
            r = (min([_rng[a][0] for a, _ in old[1][1]] or [-2**63]), max([_rng[a][1] for a, _ in old[1][1]] or [2**64 - 1]))
            return I(A(atom(("v", ("hv",) + name), r)))
        if old[0] == "O": return O(("v", ("hv",) + name))
        if old[0] == "B": return ("B", (), ())
        if old[0] == "R": return old
        return S(("hv",) + name)

    # ---- joins ----
    def join(self, states, name, head, prev=None):
        states = [s for s in states if not s.dead]
        if not states: return None
        if len(states) == 1 and not head: return states[0].copy()
        phis = []          # (atom, [lin per state])
        out = State()
        ks = set(states[0].env)
        for s in states[1:]: ks &= set(s.env)
        for c in ks:
            vs = [s.env[c] for s in states]
            out.env[c] = self.merge(vs, (name, c), states, phis, head)
        sub_ = [{p: ls[k] for p, ls in phis} for k in range(len(states))]
        cand = set(); common = None
        for s in states:
            common = s.ge if common is None else common & s.ge
        known = {a for f in common for a, _ in f[1]}
        out.ge = common
        for s in states: cand |= s.ge
        cand -= common
        for p, ls in phis:
            for k, l in enumerate(ls):
                e = sub(A(p), l); cand.add(e); cand.add(sub(K(0), e))
                if len(l[1]) == 1 and abs(l[1][0][1]) == 1:
                    a, c = l[1][0]
                    rep = {a: scale(sub(A(p), K(l[0])), c)}
                    for _, f in states[k].ix().get(a, ()): cand.add(subst(f, rep))
        if 1 < len(phis) <= 8:
            for i, (p, lp) in enumerate(phis):
                for q, lq in phis[:i]:
                    for k in range(len(states)):
                        d = sub(lp[k], lq[k])
                        e = sub(sub(A(p), A(q)), d); cand.add(e); cand.add(sub(K(0), e))
        if prev is not None: cand &= prev.ge
        keep = set()
        pset = {p for p, _ in phis}
        for f in cand:
            if not f[1] or len(f[1]) > 4: continue
            ok = True
            for k, s in enumerate(states):
                g = subst(f, sub_[k])
                if g in s.ge: continue
                if not g[1]:
                    if g[0] < 0: ok = False; break
                    continue
                if not s.prove(g, 3, 60): ok = False; break
            if ok: keep.add(f)
        out.ge = frozenset(out.ge | keep)
        if prev is not None: out.ge = out.ge & prev.ge if self.narrow else out.ge
        t = states[0].tags
        for s in states[1:]: t = t & s.tags
        # boundary facts at merged positions
        bd = set()
        for p, ls in phis:
            for k, l in enumerate(ls):
                for f in states[k].tags:
                    if f[0] != "bd" or not l[1]: continue
                    r = sub(f[2], l)
                    if not (set(a for a, _ in r[1]) & set(a for a, _ in l[1])): bd.add(("bd", f[1], add(r, A(p))))
        if prev is not None: bd &= prev.tags
        for f in bd - t:
            if all(self.boundary(O(f[1]), subst(f[2], m), s, False) for m, s in zip(sub_, states)): t = t | {f}
        out.tags = t
        return out

    def merge(self, vs, name, states, phis, head):
        v0 = vs[0]
        if all(v == v0 for v in vs): return v0
        k = {v[0] for v in vs}
        if k == {"I"}:
            # all values' type ranges
            lo = hi = None
            for v in vs:
                l = h = v[1][0]
                for a, c in v[1][1]:
                    r = _rng[a]; l += c * (r[0] if c > 0 else r[1]); h += c * (r[1] if c > 0 else r[0])
                lo = l if lo is None else min(lo, l); hi = h if hi is None else max(hi, h)
            if head: lo, hi = (0 if lo >= 0 or all(s.prove(v[1], 2) for v, s in zip(vs, states)) else -2**63), 2**64 - 1
            p = atom(("phi", name, head, lo, hi), (lo, hi))
            phis.append((p, [v[1] for v in vs]))
            return I(A(p))
        if k == {"O"}:
            asc = all(self.ascii(v, s) for v, s in zip(vs, states))
            root = ("v", ("ascphi" if asc else "phi", name))
            if all(v[3] == v0[3] for v in vs): return ("O", root, K(0), v0[3])
            p = atom(("len", root), LEN)
            phis.append((p, [v[3] for v in vs]))
            return ("O", root, K(0), A(p))
        if k == {"B"}:
            return ("B", self.mfacts([v[1] for v in vs], states, head), self.mfacts([v[2] for v in vs], states, head))
        if "E" in k and k <= {"E", "S"} :
            if any(v[0] == "S" for v in vs): return S(("phi", name))
            vis = sorted({vi for v in vs for vi, _, _ in v[1]})
            out = []
            for vi in vis:
                have = [(s, [x for x in v[1] if x[0] == vi][0]) for v, s in zip(vs, states) if any(x[0] == vi for x in v[1])]
                ph = []
                s = self.merge([x[1] for _, x in have], name + (vi,), [s for s, _ in have], ph, head)
                # a payload present in only some branches: its merged atoms get no relation to the other branches
                for p, ls in ph:
                    pass
                fs = self.mfacts([([x for x in v[1] if x[0] == vi] or [(0, 0, (("false",),))])[0][2] for v in vs], states, head)
                out.append((vi, s, fs + (("var", ("phiE", name), vi),)))
            return ("E", tuple(out))
        if k == {"S"} or k == {"C"}:
            if k == {"C"} and len({v[1] for v in vs}) > 1: return S(("phi", name))
            idx = {i for v in vs for i, _ in v[2]}
            same = all(v[1] == v0[1] for v in vs)
            if not idx: return S(("phi", name))
            items = {}
            for i in idx:
                xs = [dict(v[2]).get(i) for v in vs]
                if any(x is None for x in xs):
                    d = next(x for x in xs if x is not None)
                    if d[0] in ("I", "O", "B", "S") and same:
                        xs = [x if x is not None else self.like(d, ("fld", v[1], None, i)) for x, v in zip(xs, vs)]
                    else: continue
                items[i] = self.merge(xs, name + (i,), states, phis, head)
            return (v0[0], v0[1] if same else ("phi", name), tuple(sorted(items.items())))
        if k == {"IT"} and len({v[1] for v in vs}) == 1: return ("IT", "any") if v0[1] not in ("seq", "range", "rrange", "chars") else self.mergeit(vs, name, states, phis, head)
        if k == {"D"}: return ("D", S(("phi", name)))
        return S(("phi", name))

    def mergeit(self, vs, name, states, phis, head):
        if vs[0][1] in ("seq", "chars"): return ("IT", vs[0][1], self.merge([v[2] for v in vs], name + ("it",), states, phis, head))
        a = self.merge([I(v[2]) for v in vs], name + ("lo",), states, phis, head); b = self.merge([I(v[3]) for v in vs], name + ("hi",), states, phis, head)
        return ("IT", vs[0][1], a[1], b[1])

    def like(self, d, i):
        if d[0] == "I": return I(A(atom(("v", i), (-2**63, 2**64 - 1))))
        if d[0] == "O": return O(("v", i))
        if d[0] == "B": return B()
        return S(i)

    def mfacts(self, fss, states, head):
        """facts that hold in the merged value's branch: some inputs cannot take the branch at all"""
        live = [(fs, s) for fs, s in zip(fss, states) if ("false",) not in fs]
        if not live: return (("false",),)
        if head: 
            c = set(live[0][0])
            for fs, _ in live[1:]: c &= set(fs)
            return tuple(sorted(c, key=repr)) if len(live) == len(fss) else ()
        sets = []
        for fs, s in live:
            x = set(fs) | {("ge", f) for f in s.ge} | {t for t in s.tags}
            sets.append(x)
        c = set.intersection(*sets)
        base = [{("ge", f) for f in s.ge} | set(s.tags) for s in states]
        c -= set.intersection(*base)
        return tuple(sorted(c, key=repr))[:400]

    # ---- strings ----
    def ascii(self, v, st):
        if v[0] != "O": return False
        r = v[1]
        while True:
            if ("asc", r) in st.tags: return True
            if r[0] == "lit": return r[1].isascii()
            if r[0] == "v" and r[1][0] == "ascphi": return True
            if r[0] == "sub": r = r[1]; continue
            return False

    def boundary(self, v, x, st, deep=True):
        """is byte offset x of string v a character boundary (given x <= len)?"""
        if self.ascii(v, st): return True
        if st.eq(x, K(0)) or st.eq(x, v[3]): return True
        pos = add(v[2], x)
        for t in st.tags:
            if t[0] == "bd" and t[1] == v[1] and st.eq(t[2], pos): return True
        if deep:
            i = _ids.get(("v", ("el", v[1], sub(pos, K(1)))))
            if i is not None and st.prove(sub(K(127), A(i))): return self.boundary(v, sub(x, K(1)), st, False)
        return False

    # ---- obligations ----
    def unknown(self, atoms):
        """does a quantity come from code the interpreter has no model of?"""
        def has(d): return d == "unk" or isinstance(d, tuple) and any(has(x) for x in d)
        return "unmodelled" if any(has(_desc[a]) for a in atoms) else ""

    def need(self, b, bi, ln, what, ok, ctx, obl, why=""):
        if not ok and not why and b.blocks[bi][1][0] == "assert":
            fr = self.curfr; at = set()
            for o in b.blocks[bi][1][3][1:]:
                if isinstance(o, list) and o and o[0] in ("c", "m", "k"): atoms_of(self.operand(b, fr, self.curst, o), at)
            why = self.unknown(at)
        obl.append((b.id, bi, ln, what, bool(ok), why, ctx))

    # ---- functions ----
    def run(self, b, args, st, fr, ctx):
        """interpret body b in state st; returns (value, state) of the normal return, state None if it never returns; and obligations"""
        self.visited.add(b.id); self.calls += 1
        st = st.copy()
        for i in range(1, b.argc + 1):
            v = args[i - 1] if i - 1 < len(args) and args[i - 1] is not None else opaque(("arg", fr, i), b.ty(i))
            st.env[(fr, i)] = self.typed(v, b.ty(i))
        order = b.rpo(); pos = {x: i for i, x in enumerate(order)}
        heads = set()
        for x in order:
            for y in succs(b.blocks[x]):
                if y in pos and pos[y] <= pos[x]: heads.add(y)
        nest = self.nesting(b) if heads else {}
        back = {}           # (pred, head) -> state
        hs = {}; drops = {}
        obl = []
        maxp = 12 if not any(nest.values()) else 20
        for ps in range(maxp):
            last = ps == maxp - 1
            self.narrow = ps >= 4
            if self.keep is not None and fr == self.keep: self.kedges = {}
            edges = {}; obl = []; rets = []; changed = False; moved = set()
            for x in order:
                ins = [s for _, s in edges.get(x, [])] if x != order[0] else [st] + [s for _, s in edges.get(x, [])]
                if x in heads:
                    if ps and drops.get(x, 0) < 3 and any(y in moved for y in nest[x]):
                        drops[x] = drops.get(x, 0) + 1; hs.pop(x, None)
                        for k in [k for k in back if k[1] == x]: del back[k]      # came from an older state of the loop around
                    bs = [back[k] for k in back if k[1] == x]
                    nw = self.join(ins + bs, (fr, x), bool(bs), hs.get(x) if ps >= 4 else None) if ins + bs else None
                    if nw is None: continue
                    if last and bs: nw.ge = frozenset(); nw._ix = None
                    o = hs.get(x)
                    if o is None or o.env != nw.env or o.ge != nw.ge or o.tags != nw.tags: changed = True
                    if o is None or o.env != nw.env: moved.add(x)
                    hs[x] = nw; cur = nw.copy()
                else:
                    cur = self.join(ins, (fr, x), False)
                    if cur is None: continue
                for tgt, s2 in self.block(b, fr, cur, x, ctx, obl, rets):
                    if s2.dead: continue
                    if heads and self.keep is not None and fr == self.keep: self.kedges[(x, tgt)] = s2.copy()
                    if pos.get(tgt, -1) <= pos[x]: back[(x, tgt)] = s2
                    else: edges.setdefault(tgt, []).append((x, s2))
            if not heads or not changed: break
            if self.deadline and self.depth <= 1 and __import__("time").time() > self.deadline: self.timeout.add(b.id); break
        else:
            self.unstable.add(b.id)
        if self.keep is not None and heads and fr == self.keep: self.kept = (hs, back)
        r = self.join([s for s in rets], (fr, "ret"), False) if rets else None
        if r is None: return opaque(("dead",), b.ty(0)), None, obl
        v = r.env.get((fr, 0), UNIT)
        for c in [c for c in r.env if c[0] == fr]: del r.env[c]
        return v, r, obl

    def nesting(self, b):
        if b.id not in self._nest:
            from loops import natural
            n = natural(b)
            self._nest[b.id] = {x: {y for y in n if y != x and x in n[y][0]} for x in set(n) | set(range(len(b.blocks)))}
        return self._nest[b.id]
    _nest = {}

    def block(self, b, fr, st, bi, ctx, obl, rets):
        bb = b.blocks[bi]
        for si, (p, r, ln) in enumerate(bb[0]):
            self.write(b, fr, st, p, self.rvalue(b, fr, st, r, bi, si, ln, obl))
        t = bb[1]; k = t[0]
        if k == "goto": return [(t[1], st)]
        if k == "drop": return [(t[2], st)]
        if k == "ret": rets.append(st); return []
        if k == "switch": return self.switch(b, fr, st, t)
        if k == "assert": return self.asserts(b, fr, st, bi, t, ctx, obl)
        if k == "call":
            v, s2 = self.call(b, fr, st, bi, t, ctx, obl)
            if t[4] is None or s2 is None or s2.dead: return []
            self.write(b, fr, s2, t[3], v)
            return [(t[4], s2)]
        return []

    def switch(self, b, fr, st, t):
        v = self.operand(b, fr, st, t[1]); out = []
        if v[0] == "B":
            for val, tgt in t[2]:
                s = st.copy()
                for f in (v[2] if val == 0 else v[1]): s.put(f)
                out.append((tgt, s))
            s = st.copy()
            vals = [x for x, _ in t[2]]
            if vals == [0]:
                for f in v[1]: s.put(f)
            elif vals == [1]:
                for f in v[2]: s.put(f)
            out.append((t[3], s))
            return out
        if v[0] == "D":
            e = v[1]
            if e[0] == "E":
                m = {vi: fs for vi, _, fs in e[1]}; done = set()
                for val, tgt in t[2]:
                    if val not in m: continue
                    done.add(val); s = st.copy()
                    for f in m[val]: s.put(f)
                    out.append((tgt, s))
                left = [vi for vi in m if vi not in done]
                if left:
                    s = st.copy()
                    if len(left) == 1:
                        for f in m[left[0]]: s.put(f)
                    out.append((t[3], s))
                return out
            i = e[1] if e[0] == "S" else e
            for val, tgt in t[2]:
                s = st.copy(); s.put(("var", i, val)); out.append((tgt, s))
            s = st.copy(); out.append((t[3], s))
            return out
        if v[0] == "I":
            for val, tgt in t[2]:
                s = st.copy()
                for f in eqf(v[1], K(val)): s.put(f)
                out.append((tgt, s))
            s = st.copy()
            for val, _ in t[2]: s.put(("ne", sub(v[1], K(val))))
            out.append((t[3], s))
            return out
        for val, tgt in t[2]: out.append((tgt, st.copy()))
        out.append((t[3], st.copy()))
        return out

    def lin(self, v, i, ty="usize"):
        if v[0] == "I": return v[1]
        return A(atom(("v", i), TYR.get(ty, (-INF, INF))))

    def opty(self, b, op):
        if op[0] == "k": return strip(self.db.types[op[1]["ty"]])
        l, pr = pl(op[1])
        if not pr: return strip(b.ty(l))
        for e in reversed(pr):
            if e != "*" and e[0] == ".": return strip(self.db.types[e[4]])
        return strip(b.ty(l))

    def asserts(self, b, fr, st, bi, t, ctx, obl):
        m = t[3]; ln = t[5]; k = m[0]; self.curfr = fr; self.curst = st
        if k == "bounds":
            n = self.lin(self.operand(b, fr, st, m[1]), ("bl", fr, bi)); x = self.lin(self.operand(b, fr, st, m[2]), ("bx", fr, bi))
            self.need(b, bi, ln, "index within bounds", st.prove(sub(sub(n, x), K(1))) and st.prove(x), ctx, obl)
            st.put(("ge", sub(sub(n, x), K(1))))
        elif k == "overflow":
            op = m[1]; ty = self.opty(b, m[2])
            x = self.lin(self.operand(b, fr, st, m[2]), ("ox", fr, bi), ty); y = self.lin(self.operand(b, fr, st, m[3]), ("oy", fr, bi), self.opty(b, m[3]))
            if op in ("Shl", "Shr"):
                w = TYR.get(ty, (0, 2**64 - 1)); w = (w[1] - w[0] + 1).bit_length() - 1
                self.need(b, bi, ln, f"shift amount within {w} bits", st.prove(y) and st.prove(sub(K(w - 1), y)), ctx, obl)
            else:
                r = {"Add": add(x, y), "Sub": sub(x, y)}.get(op)
                if op == "Mul":
                    r = scale(x, y[0]) if not y[1] else scale(y, x[0]) if not x[1] else None
                lo, hi = TYR.get(ty, (-INF, INF))
                if op == "Add" and ty in ("usize", "u64", "i64", "isize", "u128", "i128") and not any(tainted(a) for a, _ in add(x, y)[1]):
                    self.need(b, bi, ln, f"{op} cannot overflow", True, ctx, obl)
                elif op in ("Div", "Rem"): self.need(b, bi, ln, f"{op} cannot overflow", True if TYR.get(ty, (-1,))[0] == 0 else (st.prove(y) or st.prove(sub(x, K(lo + 1))) or self.nonminus1(y, st)), ctx, obl)
                elif r is None:
                    bx, by = self.bounds(x, st), self.bounds(y, st)
                    c = [i * j for i in bx for j in by]
                    self.need(b, bi, ln, f"{op} cannot overflow", min(c) >= lo and max(c) <= hi, ctx, obl)
                else:
                    bl, bh = self.bounds(r, st)
                    ok = (bl >= lo or st.prove(sub(r, K(lo)))) and (op == "Sub" and lo == 0 or bh <= hi or st.prove(sub(K(hi), r)))
                    why = ""
                    if not ok and op in ("Add", "Sub") and lo <= -2**31 + 1 and hi >= 2**31 - 1 or not ok and op == "Add" and hi >= 2**31 - 1:
                        yl, yh = self.bounds(y, st)
                        if -64 <= yl and yh <= 64 and self.counter(b, m[2]): ok = True; why = "counter"
                    self.need(b, bi, ln, f"{op} cannot overflow", ok, ctx, obl, why)
                if r is not None:
                    st.put(("ge", sub(r, K(lo))))
                    if hi < 2**62: st.put(("ge", sub(K(hi), r)))
        elif k == "overflowneg":
            x = self.lin(self.operand(b, fr, st, m[1]), ("ox", fr, bi)); ty = self.opty(b, m[1])
            self.need(b, bi, ln, "negation cannot overflow", st.prove(sub(x, K(TYR.get(ty, (-2**63,))[0] + 1))), ctx, obl)
        elif k in ("div0", "rem0"):
            # the divisor is compared with zero in the asserted condition
            c = self.operand(b, fr, st, t[1])
            ok = c[0] == "B" and self.refuted(c[1] if not t[2] else c[2], st)
            self.need(b, bi, ln, "divisor is not zero", ok, ctx, obl)
            if c[0] == "B":
                for f in (c[2] if not t[2] else c[1]): st.put(f)
        else:
            c = self.operand(b, fr, st, t[1])
        if st.dead: return []
        return [(t[4], st)]

    def counter(self, b, op):
        """is the operand a local that is only ever set to a small constant or stepped from its own value?  Stepping by at most
        64, a 32-bit counter needs 2^25 steps to leave its range"""
        p = op[1] if op[0] in ("c", "m") else None
        if p is None or pl(p)[1]: return False
        L = pl(p)[0]; tmp = None
        if L <= b.argc and L > 0: return False
        def steps(loc):
            for bb in filter(None, b.blocks):
                for q, r, _ in bb[0]:
                    if q == loc: return r[0] == "bin" and r[1].startswith(("Add", "Sub")) and any(o[0] != "k" and o[1] == L for o in r[2:4])
            return False
        for bb in filter(None, b.blocks):
            for q, r, _ in bb[0]:
                if r[0] in ("ref", "addr") and r[1] != "shared" and pl(r[2])[0] == L: return False
                if pl(q)[0] != L: continue
                if pl(q)[1]: return False
                if r[0] != "use": return False
                o = r[1]
                if o[0] == "k":
                    if "i" not in o[1] or abs(int(o[1]["i"])) > 2**20: return False
                else:
                    l2, pr = pl(o[1])
                    if not (len(pr) == 1 and pr[0][0] == "." and pr[0][1] == 0 and steps(l2)): return False
            if bb[1][0] == "call" and pl(bb[1][3])[0] == L: return False
        return True

    def refuted(self, fs, st):
        s = st.copy()
        for f in fs: s.put(f)
        return s.dead

    def nonminus1(self, y, st):
        return st.prove(sub(K(-2), y)) or not y[1] and y[0] != -1

    def bounds(self, x, st):
        """numeric bounds of a linear expression, from ranges and single-atom facts"""
        lo = hi = x[0]
        for a, c in x[1]:
            l, h = self.abound(a, st, 2)
            lo += c * (l if c > 0 else h); hi += c * (h if c > 0 else l)
        if len(x[1]) > 1:                     # facts about this very combination
            neg = tuple((a, -c) for a, c in x[1])
            for _, f in st.ix().get(x[1][0][0], ()):
                if f[1] == x[1]: lo = max(lo, x[0] - f[0])
                elif f[1] == neg: hi = min(hi, x[0] + f[0])
        return (lo, hi)

    def abound(self, a, st, depth):
        l, h = _rng[a]
        for _, f in st.ix().get(a, ()):
            if len(f[1]) == 1:
                k = f[1][0][1]
                if k > 0: l = max(l, -(f[0] // k))
                else: h = min(h, f[0] // -k)
            elif depth and len(f[1]) <= 3:
                k = dict(f[1])[a]; m = f[0]               # k*a + rest >= 0, rest <= m
                for o, c in f[1]:
                    if o != a:
                        ol, oh = self.abound(o, st, depth - 1); m += c * (oh if c > 0 else ol)
                if abs(m) == INF: continue
                if k > 0: l = max(l, -(m // k))
                else: h = min(h, m // -k)
        return l, h

    # ---- rvalues ----
    def rvalue(self, b, fr, st, r, bi, si, ln, obl):
        k = r[0]; name = ("s", fr, bi, si)
        if k == "use": return self.operand(b, fr, st, r[1])
        if k == "ref":
            if r[1] == "mut":
                l, pr = pl(r[2])
                cell, path = self.resolve(b, fr, st, r[2])
                # collapse a leading deref of another mutable reference
                v = st.env.get(cell); done = []
                base = None
                for i, e in enumerate(path):
                    if e == "*":
                        cur = v if not done else None
                        cv = st.env.get(cell) if base is None else st.env.get(base[1])
                        ref = cv
                        for d in (done if base is None else list(base[2]) + done): ref = self.step(ref, d, st, b) if ref is not None else None
                        if ref is not None and ref[0] == "R": base = ref; done = []
                        else: done.append(e)
                    else: done.append(e)
                if base is not None: return ("R", base[1], tuple(base[2]) + tuple(done))
                if cell not in st.env: st.env[cell] = opaque(("undef", fr, l), b.ty(l))
                return ("R", cell, tuple(x for x in done if x != "*"))
            v = self.get(b, fr, st, r[2])
            return v
        if k == "raw": return S(name)
        if k == "repeat":
            m = re.match(r"^(\d+)", r[2])
            return ("O", ("v", name), K(0), K(int(m.group(1)))) if m else O(("v", name))
        if k == "bin": return self.bin(b, fr, st, r, name)
        if k == "un":
            v = self.operand(b, fr, st, r[2])
            if r[1] == "Not" and v[0] == "B": return ("B", v[2], v[1])
            if r[1] == "Neg" and v[0] == "I": return I(scale(v[1], -1))
            if r[1] == "PtrMetadata":
                if v[0] == "R": v = self.load(v, st)
                return I(v[3]) if v[0] == "O" else S(name)
            return S(name)
        if k == "cast":
            v = self.operand(b, fr, st, r[2]); ty = strip(self.db.types[r[3]])
            if r[1] == "IntToInt":
                if v[0] == "B":
                    a = atom(("v", name), (0, 1)); return I(A(a))
                if v[0] == "I" and ty in TYR:
                    lo, hi = TYR[ty]
                    if st.prove(sub(v[1], K(lo))) and st.prove(sub(K(hi), v[1])): return v
                    t = any(tainted(a) for a, _ in v[1][1])
                    return opaque(("in", name) if t else name, ty)
                if v[0] == "D": return v
                return opaque(name, ty)
            if r[1] == "FloatToInt": return opaque(("in", name), ty)
            if r[1].startswith("coerce") or r[1] in ("Transmute", "PtrToPtr"): return v
            return opaque(name, ty)
        if k == "discr": 
            v = self.get(b, fr, st, r[1])
            if v[0] == "R": v = self.load(v, st)
            return ("D", v)
        if k == "agg":
            vs = [self.operand(b, fr, st, x) for x in r[2]]; h = r[1]
            if h[0] == "closure": return ("C", h[1], tuple(enumerate(vs)))
            if h[0] == "array":
                o = ("O", ("v", name), K(0), K(len(vs))); return o
            if h[0] == "adt":
                s = S(name, dict(enumerate(vs)))
                p = h[1]
                if p in self.db.adts and self.db.adts[p]["kind"] != "Enum" or not h[3:]: return s
                if p.startswith("core::ops::range::"): return s
                en = p in self.db.adts or p in ("core::option::Option", "core::result::Result", "core::ops::control_flow::ControlFlow")
                return E((h[2], s, ())) if en else s
            return S(name, dict(enumerate(vs)))
        return S(name)

    def bin(self, b, fr, st, r, name):
        op = r[1]; x, y = self.operand(b, fr, st, r[2]), self.operand(b, fr, st, r[3])
        ty = self.opty(b, r[2])
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if x[0] == "I" and y[0] == "I":
                p, q = x[1], y[1]; d = sub(p, q)
                T, F = {"Eq": (eqf(p, q), (("ne", d),)), "Ne": ((("ne", d),), eqf(p, q)),
                        "Lt": ((("ge", sub(sub(q, p), K(1))),), (("ge", d),)), "Le": ((("ge", sub(q, p)),), (("ge", sub(d, K(1))),)),
                        "Gt": ((("ge", sub(d, K(1))),), (("ge", sub(q, p)),)), "Ge": ((("ge", d),), (("ge", sub(sub(q, p), K(1))),))}[op]
                return ("B", T, F)
            if x[0] == "D" and y[0] == "I" and not y[1][1] and op in ("Eq", "Ne"):
                v = y[1][0]; e = x[1]
                if e[0] == "E":
                    m = {vi: fs for vi, _, fs in e[1]}
                    T = m.get(v, (("false",),)); rest = [fs for vi, fs in m.items() if vi != v]
                    F = (("false",),) if not rest else rest[0] if len(rest) == 1 else ()
                else: T, F = (("var", e[1], v),), ()
                return ("B", T, F) if op == "Eq" else ("B", F, T)
            if x[0] == "B" and y[0] == "B" and op in ("Eq", "Ne"):
                for p, q in ((x, y), (y, x)):
                    if q[1] == () and q[2] == (("false",),): return p if op == "Eq" else ("B", p[2], p[1])
                    if q[2] == () and q[1] == (("false",),): return ("B", p[2], p[1]) if op == "Eq" else p
            return B()
        if op.endswith("WithOverflow"):
            o = op[:-12]
            return S(name, {0: self.arith(o, x, y, ty, st, name), 1: B()})
        if op in ("BitAnd", "BitOr") and x[0] == "B" and y[0] == "B":
            if op == "BitAnd": return ("B", x[1] + y[1], ())
            return ("B", (), x[2] + y[2])
        return self.arith(op, x, y, ty, st, name)

    def arith(self, op, x, y, ty, st, name):
        if ty not in TYR: return S(name)
        if x[0] != "I" or y[0] != "I": return opaque(name, ty)
        x, y = x[1], y[1]; lo, hi = TYR[ty]
        t = any(tainted(a) for a, _ in x[1] + y[1])
        nm = ("in", name) if t else name
        if op in ("Add", "AddUnchecked"): return I(add(x, y))
        if op in ("Sub", "SubUnchecked"): return I(sub(x, y))
        if op in ("Mul", "MulUnchecked"):
            if not y[1]: return I(scale(x, y[0]))
            if not x[1]: return I(scale(y, x[0]))
            a = atom(("v", nm), TYR[ty]); bx, by = self.bounds(x, st), self.bounds(y, st)
            c = [i * j for i in bx for j in by]
            st.put(("ge", sub(A(a), K(max(lo, int(max(min(c), -2**130)))))))
            if bx[0] >= 0 and by[0] >= 1: st.put(("ge", sub(A(a), x)))
            if by[0] >= 0 and bx[0] >= 1: st.put(("ge", sub(A(a), y)))
            if max(c) < hi: st.put(("ge", sub(K(int(max(c))), A(a))))
            return I(A(a))
        if op == "Div":
            if not y[1] and y[0] > 0:
                c = y[0]
                if not x[1]: return I(K(int(x[0] / c) if abs(x[0]) < 2**50 else x[0] // c))
                a = atom(("q", x, c) if not t else ("q", ("in", x), c), TYR[ty])
                if lo == 0 or st.prove(x):
                    st.put(("ge", A(a))); st.put(("ge", sub(x, scale(A(a), c)))); st.put(("ge", sub(add(scale(A(a), c), K(c - 1)), x)))
                else:
                    st.put(("ge", sub(A(a), K(int(lo / c) - 1)))); st.put(("ge", sub(K(hi // c + 1), A(a))))
                    bx = self.bounds(x, st)
                    if bx[1] < 2**61: st.put(("ge", sub(K(int(bx[1] // c) + 1), A(a))))
                    if bx[0] > -2**61: st.put(("ge", sub(A(a), K(int(bx[0] // c)))))
                return I(A(a))
            a = atom(("v", nm), TYR[ty])
            if lo == 0: st.put(("ge", sub(x, A(a))))
            return I(A(a))
        if op == "Rem":
            a = atom(("r", x, y[0]) if not y[1] else ("v", nm), TYR[ty])
            if lo == 0 or st.prove(x): st.put(("ge", A(a))); st.put(("ge", sub(x, A(a))))
            if not y[1] and y[0] != 0:
                st.put(("ge", sub(K(abs(y[0]) - 1), A(a)))); st.put(("ge", add(A(a), K(abs(y[0]) - 1))))
            elif st.prove(sub(y, K(1))): st.put(("ge", sub(sub(y, A(a)), K(1))))
            return I(A(a))
        if op == "BitAnd":
            a = atom(("v", nm), TYR[ty])
            for c in (x, y):
                if lo == 0 or not c[1] and c[0] >= 0: st.put(("ge", sub(c, A(a)))); st.put(("ge", A(a)))
            return I(A(a))
        if op in ("Shr", "ShrUnchecked") and not y[1] and 0 <= y[0] < 64: return self.arith("Div", I(x), I(K(2 ** y[0])), ty, st, name) if lo == 0 else opaque(nm, ty)
        if op in ("Shl", "ShlUnchecked") and not y[1] and 0 <= y[0] < 64:
            r = scale(x, 2 ** y[0]); bx = self.bounds(r, st)
            if bx[0] >= lo and bx[1] <= hi: return I(r)
            return opaque(nm, ty)
        if op in ("BitOr", "BitXor") and lo == 0:
            m = max(self.bounds(x, st)[1], self.bounds(y, st)[1])
            a = atom(("v", nm), TYR[ty])
            if m < 2**62: st.put(("ge", sub(K(2 ** int(m).bit_length() - 1), A(a))))
            return I(A(a))
        return opaque(nm, ty)
