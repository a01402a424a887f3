"""P22: an object holds what it was built from."""
import re
from mir import callee, pl, succs
from report import Check


MAKER = re.compile(r"(try_)?(new|from|with|build|make|create|set|default)(_|$)")


def bare(ty):
    ty = re.sub(r"^(&('\w+ )?(mut )?)+", "", ty)
    return ty.split("<")[0]


def fields(path):
    """the named fields of a place's projection"""
    out = []
    for x in path:
        if isinstance(x, (list, tuple)) and x and x[0] == ".": out.append(str(x[2]))
        elif x == "*" or isinstance(x, (list, tuple)) and x and x[0] in ("as", "downcast", "v"): continue
        else: out.append("?")
    return tuple(out)


class Origins:
    """which inputs (parameters, and fields of parameters) the value of a place was computed from"""
    def __init__(self, b):
        self.b = b; self.live = b.reachable(); self.defs = {}; self.memo = {}
        for bi in self.live:
            for p, r, ln in b.blocks[bi][0]:
                d = pl(p); self.defs.setdefault(d[0], []).append((fields(d[1]), "rv", r, bi))
            t = b.blocks[bi][1]
            if t[0] == "call":
                d = pl(t[3]); self.defs.setdefault(d[0], []).append((fields(d[1]), "call", t, bi))
        for bi in self.live:                                   # what is written through a reference
            ws = [(pl(p), "rv", r) for p, r, ln in b.blocks[bi][0]]; t = b.blocks[bi][1]
            if t[0] == "call": ws.append((pl(t[3]), "call", t))
            for (l, pr), how, r in ws:
                if pr[:1] == ["*"] and l > b.argc:
                    for q, fs in list(self.lent(l, set())): self.defs.setdefault(q, []).append((fs + fields(pr[1:]), how, r, bi))
        for bi in self.live:                                   # what is lent to something that is kept may take in anything
            for p, r, ln in b.blocks[bi][0]:
                if r[0] != "agg": continue
                for o in r[2]:
                    if o[0] == "k" or not re.match(r"&('\w+ )?mut ", b.ty(pl(o[1])[0])): continue
                    for q, fs in list(self.lent(pl(o[1])[0], set())): self.defs.setdefault(q, []).append((fs, "in", [("c", i) for i in range(1, b.argc + 1)], bi))
        for bi in self.live:                                   # what is handed out to be changed takes in the other arguments
            t = b.blocks[bi][1]
            if t[0] != "call": continue
            for o in t[2]:
                if o[0] == "k" or not b.ty(pl(o[1])[0]).startswith("&") or "mut" not in b.ty(pl(o[1])[0])[:12]: continue
                rest = [x for x in t[2] if x is not o]
                for q, fs in self.lent(pl(o[1])[0], set()): self.defs.setdefault(q, []).append((fs, "in", rest, bi))

    def lent(self, l, seen):
        if l in seen: return
        seen.add(l)
        for bi in self.live:
            for p, r, ln in self.b.blocks[bi][0]:
                if pl(p) == (l, []) or pl(p)[0] == l and not pl(p)[1]:
                    if r[0] == "ref":
                        q = pl(r[2])
                        if "*" in q[1][:1]: yield from ((z, fs + fields(q[1])) for z, fs in self.lent(q[0], seen))
                        yield q[0], fields(q[1])
                    elif r[0] == "use" and r[1][0] != "k": yield from self.lent(pl(r[1][1])[0], seen)

    def same(self, o):
        """the parameter an operand is, unchanged"""
        for _ in range(8):
            if o[0] == "k": return None
            l, pr = pl(o[1])
            if [x for x in pr if x != "*"]: return None
            if 1 <= l <= self.b.argc: return l
            ds = self.defs.get(l, [])
            if len(ds) != 1 or ds[0][1] != "rv" or ds[0][0]: return None
            r = ds[0][2]
            if r[0] == "use": o = r[1]
            elif r[0] == "ref": o = ("c", r[2])
            else: return None
        return None

    def op(self, o, path=(), seen=frozenset()):
        if o[0] == "k": return frozenset()
        q = pl(o[1]); extra = frozenset()
        for x in q[1]:
            if isinstance(x, (list, tuple)) and x and x[0] in ("idx", "[]", "index") and isinstance(x[1], int): extra |= self.at(x[1], (), seen)
        return self.at(q[0], fields(q[1]) + path, seen) | extra

    def at(self, l, path, seen=frozenset()):
        k = (l, path)
        if not seen and k in self.memo: return self.memo[k]
        if k in seen or len(path) > 6: return frozenset()
        seen2 = seen | {k}; out = set(); b = self.b
        if 1 <= l <= b.argc: out.add((l, path))
        for fs, how, x, bi in self.defs.get(l, []):
            n = min(len(fs), len(path))
            if fs[:n] != path[:n]: continue
            rest = path[len(fs):]
            if how == "call":
                g = getter(b.db, x)
                if g is not None and len(x[2]) == 1: out |= self.op(x[2][0], g + rest, seen2); continue
                for o in x[2]: out |= self.op(o, (), seen2)
                if x[1][0] != "k": out |= self.op(x[1], (), seen2)
            elif how == "in":
                for o in x: out |= self.op(o, (), seen2)
            else: out |= self.rv(x, rest, seen2)
        out = frozenset(out)
        if not seen: self.memo[k] = out
        return out

    def rv(self, r, rest, seen):
        if r[0] == "use": return self.op(r[1], rest, seen)
        if r[0] == "ref": return self.op(("c", r[2]), rest, seen)
        if r[0] == "agg":
            names = r[1][5] if r[1][0] == "adt" and len(r[1]) > 5 else [str(i) for i in range(len(r[2]))]
            if rest and rest[0] in names and len(names) == len(r[2]):
                return self.op(r[2][names.index(rest[0])], rest[1:], seen)
            return frozenset().union(*[self.op(o, (), seen) for o in r[2]]) if r[2] else frozenset()
        out = frozenset()
        for x in r[1:]: out |= self.deep(x, seen)
        return out

    def deep(self, x, seen):
        if not isinstance(x, (list, tuple)): return frozenset()
        if len(x) == 2 and x[0] in ("m", "c") : return self.op(x, (), seen)
        if x and isinstance(x[0], int) and len(x) >= 1 and all(isinstance(z, (list, tuple, str)) for z in x[1:]): return self.op(("c", x), (), seen)
        return frozenset().union(*[self.deep(y, seen) for y in x]) if x else frozenset()

    def decides(self, has, targets):
        """a decision on an input for which has() is true, with more than one way on to the targets"""
        b = self.b; pre = b.preds(); reach = set(targets); st = list(targets)
        while st:
            for y in pre[st.pop()]:
                if y not in reach: reach.add(y); st.append(y)
        for bi in self.live:
            t = b.blocks[bi][1]
            if t[0] == "switch" and t[1][0] != "k" and sum(1 for y in set(succs(b.blocks[bi])) if y in reach) > 1 and any(has(x) for x in self.op(t[1])): return True
        return False


def getter(db, t, memo={}):
    """the field path a function of the crate returns, when that is all it does"""
    r = callee(t)[2]
    b = db.bodies.get(r.get("rid") or r.get("id")) if r else None
    if b is None or b.argc != 1 or len(b.blocks) > 6: return None
    if b.id not in memo:
        memo[b.id] = None
        s = Origins(b).at(0, ())
        if len(s) == 1:
            (l, path), = s
            if path and "?" not in path: memo[b.id] = path
    return memo[b.id]


def run(db):
    ck = Check("P22", "origins of every field of every object that is built, set or read, on MIR")
    adts = {a["path"].removeprefix("siderust::"): a for a in db.adts.values() if a["kind"] == "Struct"}
    fl = {n: {f[0]: f[1] for f in a["variants"][0][1]} for n, a in adts.items() if a["variants"]}
    def struct(ty):
        n = bare(ty).removeprefix("siderust::")
        return n if n in fl and not all(f.isdigit() for f in fl[n]) else None
    for b in db.bodies.values():
        if b.kind != "fn" or not b.argc: continue
        if re.search(r" as (serde|core::fmt|core::cmp|core::hash)", b.path): continue
        O = None; me = struct(b.ty(1)) if b.names.get(1) == "self" else None
        named = {b.names[l]: l for l in range(1, b.argc + 1) if b.names.get(l) and b.names[l] != "self"}
        holders = {l: struct(b.ty(l)) for l in range(1, b.argc + 1) if struct(b.ty(l))}
        name = b.path.split("::")[-1]
        built = {}; stem = re.sub(r"^(set|with)_", "", name)
        for bi in sorted(b.reachable()):
            for p, r, ln in b.blocks[bi][0]:
                if r[0] == "agg" and r[1][0] == "adt" and struct(r[1][1]) and len(r[1]) > 5: built.setdefault(struct(r[1][1]), []).append((bi, r, ln, p))
        ret = b.ty(0)
        for T, places in built.items():
            for bi, r, ln, p in places:
                O = O or Origins(b)
                src = {f: O.op(o) | (O.at(pl(p)[0], (f,)) if not pl(p)[1] else frozenset()) for f, o in zip(r[1][5], r[2])}
                for f in src:
                    if f in named and T in ret:
                        ck.ob(); ck.count("constructor fields"); l = named[f]
                        if any(x[0] == l for x in src[f]) or O.decides(lambda x: x[0] == l, [z[0] for z in places]): continue
                        ck.violation(f"{b.path}|{T}.{f}|given", f"{b.where(ln)} {b.path}: {T}.{f} is not made from the parameter {f}")
                        continue
                    own = [l for l, S in holders.items() if f in fl[S]]
                    if len(own) != 1: continue
                    l = own[0]; S = holders[l]
                    if S == T and l == 1 and (f == stem or len(named) == 1 and setter(name, fl[S]) and f in named): continue
                    if len(set(fl[S]) & set(src)) < 2: continue
                    ck.ob(); ck.count("fields carried over")
                    if any(x[0] == l and (not x[1] or x[1][0] in (f, "?")) for x in src[f]): continue
                    if O.decides(lambda x: x[0] == l and x[1][:1] == (f,), [z[0] for z in places]): continue
                    if "PhantomData" in fl[T][f]: continue
                    ck.violation(f"{b.path}|{T}.{f}|kept", f"{b.where(ln)} {b.path}: {T}.{f} is not made from {S}.{f}" + (f" but from {sorted('.'.join(x[1]) for x in src[f])}" if src[f] else ""))
        for l, ds in (O or Origins(b)).defs.items() if named and struct(inner(ret)) else ():       # filled in after it was made
            T = struct(b.ty(l))
            if l <= b.argc and l or T != struct(inner(ret)) or b.ty(l).startswith("&") or not any(fs and how == "rv" for fs, how, x, bi in ds): continue
            O = O or Origins(b)
            for f in sorted(set(named) & set(fl[T])):
                ck.ob(); ck.count("constructor fields")
                if any(x[0] == named[f] for x in O.at(l, (f,))) or O.decides(lambda x: x[0] == named[f], [z[3] for z in ds]): continue
                ck.violation(f"{b.path}|{T}.{f}|given", f"{b.where()} {b.path}: {T}.{f} is not made from the parameter {f}")
        if me and b.argc == 1:
            paths = [(name,)] if name in fl[me] and T_ok(ret, fl[me][name]) else []
            if not paths and name not in fl[me]: paths = [(h, name) for h, ty in fl[me].items() if struct(ty) and name in fl[struct(ty)] and T_ok(ret, fl[struct(ty)][name])]
            if len(paths) == 1:
                O = O or Origins(b); ck.ob(); ck.count("accessors"); s = O.at(0, ()); w = paths[0]
                if not any(x[0] == 1 and x[1][:len(w)] == w[:len(x[1])] or "?" in x[1] for x in s) and not O.decides(lambda x: x[0] == 1 and x[1][:len(w)] == w, [y for y in O.live if b.blocks[y][1][0] == "ret"]):
                    ck.violation(f"{b.path}|read", f"{b.where()} {b.path}: does not return {me}.{'.'.join(w)} but {sorted('.'.join(x[1]) for x in s)}")
        stem = re.sub(r"^(set|with)_", "", name)
        if me and b.argc >= 2 and (b.ty(1).startswith("&") and "mut" in b.ty(1)[:14] or struct(inner(ret)) == me and not b.ty(1).startswith("&")):
            for n, l in sorted(named.items()):
                f = n if n in fl[me] and (name == stem or n == stem or len(named) > 1) and setter(name, fl[me]) else stem if len(named) == 1 and stem in fl[me] else None
                if f is None: continue
                O = O or Origins(b)
                ck.ob(); ck.count("setters")
                s = O.at(0, (f,)) if struct(ret) == me else O.at(1, (f,))
                if any(x[0] == l for x in s) or O.decides(lambda x: x[0] == l, [y for y in O.live if b.blocks[y][1][0] == "ret"]): continue
                ck.violation(f"{b.path}|{n}|set", f"{b.where()} {b.path}: {me}.{f} is not set from the parameter {n}")
            if len(named) == 1 and (stem in fl[me] or list(named)[0] in fl[me] and setter(name, fl[me])):       # and nothing else
                f = stem if stem in fl[me] else list(named)[0]; O = O or Origins(b)
                for fs, how, x, bi in O.defs.get(1, []):
                    if how == "in" or not fs or fs[0] == f or fs[0] == "?": continue
                    ck.violation(f"{b.path}|{fs[0]}|also", f"{b.where()} {b.path}: setting {me}.{f} changes {me}.{fs[0]} as well")
        if len(named) < 2: continue
        for bi in b.reachable():                               # two parameters handed on in each other's place
            t = b.blocks[bi][1]
            r = callee(t)[2] if t[0] == "call" else None
            c = db.bodies.get(r.get("rid") or r.get("id")) if r else None
            if c is None or c is b or len(t[2]) != c.argc or not (MAKER.match(name) or MAKER.match(c.path.split("::")[-1])): continue
            O = O or Origins(b); plain = {}
            for i, o in enumerate(t[2]):
                x = O.same(o)
                if x is not None and c.names.get(i + 1): plain[c.names[i + 1]] = b.names.get(x), bare(c.ty(i + 1))
            for n in sorted(set(plain) & set(named)):
                ck.ob(); ck.count("parameters handed on")
                m, ty = plain[n]
                if ty != bare(b.ty(named[n])): continue
                if m is not None and m != n and "self" not in (m, n) and m in named:
                    ck.violation(f"{b.path}|{c.path}|{n}|handed", f"{b.where(t[-1])} {b.path}: hands {m} to {c.path} as {n}")
    ck.floor("constructor fields", 100)
    return ck.finish("a field named like a parameter, or like a field of what the object is made from, is made from it")


def inner(ty):
    """what a Result or an Option holds"""
    while True:
        m = re.match(r"core::(result::Result|option::Option)<(.*)>$", ty)
        if not m: return ty
        from r_p20 import split
        ty = split(ty)[0]


def setter(name, fs): return bool(re.match(r"(set|with)_", name)) or name in fs


def T_ok(ret, ty):
    return bare(ret).split("::")[-1] == bare(ty).split("::")[-1] or bare(ret) in ("core::option::Option", "str") or bare(ret).startswith("[")
