"""P04: the options a caller sets govern the whole computation.

For every function that is given an option value (a search, integration, fit, correction or parsing option) the body and everything it
calls are walked with labels on values: the labels of a local say which of the caller's option fields its value was computed from.

  used       each field of the option is demanded by some computation of a public function that takes it
  replaced   no other value of the option's type (default, constant, freshly built) takes its place
  bypassed   a callee's parameter of that meaning (tolerance, scan step, policy, ...) gets the caller's value, never a fixed one
"""
import re
from collections import defaultdict
from mir import pl, callee, succs
import flow
from report import Check

OPT = re.compile(r"(Opts|Options|Config|Policy|Mode|Query|Settings)$")
# what a parameter's or field's name says it governs
CONCEPT = {"time_tolerance": re.compile(r"^_?(time_)?tol(erance)?$"), "scan_step": re.compile(r"^_?(scan_)?step$"),
           "tolerances": re.compile(r"^_?tolerances$")}
STD = re.compile(r"^(core|alloc|std|serde\w*)::")
NOTE = ("fmt", "eq", "ne", "clone", "hash", "cmp", "partial_cmp", "serialize", "deserialize", "default")
TOP = frozenset(["*"]); K = frozenset(["K"]); NONE = frozenset()


def short(p): return p.replace("siderust::", "")


def base(ty):
    """the named type behind references and smart pointers, without arguments"""
    ty = re.sub(r"^(&('\w+ )?(mut )?|alloc::boxed::Box<|core::option::Option<)+", "", ty)
    return ty.split("<")[0].rstrip(">")


class Options:
    def __init__(self, db):
        self.db = db; self.cg = flow.CallGraph(db); self._d = {}
        self.adt = {short(p): a for p, a in db.adts.items() if p.startswith("siderust::") and OPT.search(p.split("::")[-1])}
        self.fieldsof = {n: {f[0]: f[1] for v in a["variants"] for f in v[1]} for n, a in self.adt.items()}
        self.parts = {n: self.flat(n, frozenset()) for n in self.adt}
        self.carry = {}
        for p, a in db.adts.items():
            n = short(p)
            self.carry[n] = {m for v in a["variants"] for f in v[1] for m in self.adt if base(f[1]) == m} | ({n} if n in self.adt else set())

        self.fields = dict(self.fieldsof); self.all = dict(self.parts)
        for p, a in db.adts.items():
            n = short(p)
            if n not in self.adt and self.carry[n]:
                self.fields[n] = {f[0]: f[1] for v in a["variants"] for f in v[1]}
                self.all[n] = {f for m in self.carry[n] for f in self.parts[m]}

    def simple(self, n): return all(f.isdigit() for f in self.fieldsof[n])

    def flat(self, n, seen):
        """every named option a type carries, through its parts; a type without named fields counts as one option"""
        if self.simple(n): return {"#" + n}
        out = set()
        for f, ty in self.fieldsof[n].items():
            m = base(ty)
            if m in self.adt and m not in seen: out |= self.flat(m, seen | {n})
            else: out.add(f)
        return out

    def d(self, b):
        if b.id not in self._d: self._d[b.id] = flow.Defs(b)
        return self._d[b.id]

    def held(self, b):
        out = set()
        for i in range(1, b.argc + 1): out |= self.carry.get(base(b.ty(i)), set())
        return out

    def names(self, b): return {f for m in self.held(b) for f in self.parts[m]}


def ops(r):
    """operands an rvalue is computed from"""
    k = r[0]
    if k == "use": return [r[1]]
    if k == "cast": return [r[2]]
    if k == "bin": return list(r[2:4])
    if k == "un": return [r[2]]
    if k == "agg": return list(r[2])
    if k in ("ref", "addr"): return [["c", r[2]]]
    if k == "discr": return [["c", r[1]]]
    if k == "repeat": return [r[1]]
    return []


class Walk:
    """labels of values in one body, given the labels of its parameters (and captures)"""

    def __init__(self, O, b, env, caps):
        self.O = O; self.b = b; self.caps = caps
        self.v = {i + 1: e for i, e in enumerate(env)}
        defs = O.d(b)
        self.entry = dict(self.v)
        for _ in range(40):
            ch = False
            for l in set(defs.full) | set(defs.part):
                new = self.entry.get(l, NONE)
                for bi, si, (kind, r), ln in defs.full.get(l, ()): new |= self.of(kind, r)
                for bi, si, (kind, r), ln in defs.part.get(l, ()): new |= self.of(kind, r) - {"K"}
                if new != self.v.get(l, NONE): self.v[l] = new; ch = True
            if not ch: break

    def of(self, kind, r):
        args = r[2] if kind == "call" else ops(r)
        vs = [self.val(a) for a in args]
        if not vs: return K
        out = frozenset().union(*vs) - {"K"}
        if kind == "rv" and r[0] == "agg" and r[1][0] == "closure": return out
        return out | K if all("K" in v for v in vs) else out

    def val(self, o):
        if o[0] == "k": return K
        return self.place(o[1])

    def place(self, p):
        l, pr = pl(p)
        if self.caps is not None and l == 1:
            # a captured variable
            for j, x in enumerate(pr):
                if x[0] == ".":
                    v = self.caps[x[1]] if x[1] < len(self.caps) else NONE
                    return self.proj(v, pr[j + 1:])
            return NONE
        return self.proj(self.v.get(l, NONE), pr)

    def proj(self, v, pr):
        for x in pr:
            if x[0] != "." or len(x) < 4: continue
            n = short(x[3] or "")
            if "*" not in v: continue
            if n in self.O.adt:
                ty = self.O.fieldsof[n].get(x[2])
                if ty is None: continue
                v = frozenset([x[2]]) | (TOP if base(ty) in self.O.adt else NONE) if not x[2].isdigit() else TOP
            elif self.O.carry.get(n):
                a = self.O.db.adts.get("siderust::" + n)
                ty = next((f[1] for vv in a["variants"] for f in vv[1] if f[0] == x[2]), "")
                if not self.O.carry.get(base(ty)): v = NONE
        return v


def governed(O, f, name):
    """does a parameter called `name` mean the option field f?"""
    if not name or f.startswith("#"): return False
    r = CONCEPT.get(f)
    return bool(r.match(name)) if r else len(f) > 3 and name.lstrip("_") == f


def run(db):
    ck = Check("P04", "option-flow analysis over MIR and the call graph: labels for the caller's option fields, demand summaries, replacement and bypass checks")
    O = Options(db)
    ck.count("option types", len(O.adt))
    own = {}                       # methods of the option types themselves
    for im in db.impls:
        for n, i in im["items"]: own[i] = short(base(im["self"]))
    defaults = {i: (tr["path"], n) for tr in db.traits.values() for n, i, has in tr["items"] if has}
    bodies = [b for b in db.local_fns() if b.kind in ("fn", "closure") and not b.span[0].startswith("tests/")]
    setters = setter_calls(bodies)
    hold = {b.id: O.names(b) for b in bodies if b.kind == "fn"}
    for b in bodies:
        names = hold.get(b.id)
        if b.id in defaults: continue
        if not names or (own.get(b.id) in O.adt and b.path.split("::")[-1] in NOTE): continue
        ck.count("functions given options"); ck.sample(short(b.path))
        follow(O, ck, db, b, names, hold, own, setters)
    demand = Demand(O, db)
    for b in bodies:
        if not hold.get(b.id) or own.get(b.id) in O.adt or not public(db, b): continue
        takers = inherit(db, b) if b.id in defaults else [None]
        ck.count("implementations that inherit a method taking options", len(takers) if b.id in defaults else 0)
        for i in range(1, b.argc + 1):
            for m in O.carry.get(base(b.ty(i)), ()):
                if base(b.ty(i)) not in O.adt: continue
                got = demand.of(b, i)
                for f in sorted(O.parts[m]):
                    ck.ob(); ck.count("option fields demanded")
                    if f in got or "!" in got: continue
                    for im in takers:
                        who = f" ({short(im)} inherits it)" if im else ""
                        ck.violation(f"unused|{b.path}|{f}" + (f"|{im}" if im else ""), f"{b.where()}: {short(b.path)}{who} takes {m.split('::')[-1]} but nothing it computes depends on its {f.lstrip('#').split('::')[-1]}")
    ck.floor("option types", 10); ck.floor("functions given options", 80); ck.floor("governed parameters", 20); ck.floor("option fields demanded", 30)
    return ck.finish("options")


def public(db, b):
    return bool(b.d.get("pub")) or bool(b.d.get("trait"))


def inherit(db, b):
    """types whose impl of b's trait leaves b as it is"""
    tr, n = next((tr["path"], n) for tr in db.traits.values() for n, i, has in tr["items"] if i == b.id)
    return sorted(short(im["self"]) for im in db.impls if im.get("trait") == tr and n not in [x for x, i in im["items"]])


def follow(O, ck, db, root, names, hold, own, setters):
    """walk a holder and what it calls, up to other holders of the same options"""
    env = tuple(TOP if O.carry.get(base(root.ty(i))) else NONE for i in range(1, root.argc + 1))
    st = [(root.id, env, None, (root.id,))]; seen = set()
    while st:
        bid, env, caps, chain = st.pop()
        if (bid, env, caps) in seen: continue
        seen.add((bid, env, caps)); b = db.bodies[bid]
        w = Walk(O, b, env, caps)
        path = " <- ".join(short(db.bodies[z].path) for z in reversed(chain[-5:]))
        if not (own.get(bid) in O.all and b.path.split("::")[-1] in NOTE): fresh(O, ck, b, w, names, root, path, own)
        for bi, t in b.calls():
            n = callee(t)[0] or ""
            if STD.match(n) and not callee(t)[1]: continue      # an unresolved library trait: any type's impl
            for y in O.cg.targets(t):
                if y not in db.bodies: continue
                yb = db.bodies[y]; vals = tuple(w.val(a) for a in t[2][:yb.argc]); vals += (NONE,) * (yb.argc - len(vals))
                for f in names:
                    for i in range(1, min(yb.argc, len(t[2])) + 1):
                        if own.get(y) in O.adt or not governed(O, f, yb.names.get(i)): continue
                        ck.count("governed parameters"); ck.ob()
                        v = vals[i - 1]; lab = {x for x in v if x not in ("K", "*")}
                        if "K" in v and not (lab and chooses(O, b, w, f)) or lab and f not in lab and lab & names:
                            what = "a constant" if "K" in v else f"the caller's {'/'.join(sorted(lab))}"
                            ck.violation(f"bypass|{root.path}|{f}|{yb.path}", f"{b.where(t[5])}: {short(root.path)} is given {f}, but {yb.path.split('::')[-1]} gets {what} for its {yb.names.get(i)} (path: {path})")
                if hold.get(y) and hold[y] & names: continue
                st.append((y, vals, None, chain + (y,)))
        if bid == root.id or not hold.get(bid): builders(O, ck, b, w, names, root, setters)
        for bb in b.blocks:
            if not bb: continue
            for p, r, ln in bb[0]:
                if r[0] == "agg" and r[1][0] == "closure" and r[1][1] in db.bodies:
                    cb = db.bodies[r[1][1]]
                    st.append((cb.id, (NONE,) * cb.argc, tuple(w.val(a) for a in r[2]), chain + (cb.id,)))
            for a in (bb[1][2] if bb[1][0] == "call" else ()):
                if a[0] == "k" and "fn" in a[1] and a[1]["fn"].get("id") in db.bodies:
                    y = a[1]["fn"]["id"]; yb = db.bodies[y]
                    if not hold.get(y): st.append((y, (NONE,) * yb.argc, None, chain + (y,)))


def setter_calls(bodies):
    """option types built step by step: type -> {field: setter path}, from the with_<field> calls made anywhere"""
    out = defaultdict(dict)
    for b in bodies:
        for bi, t in b.calls():
            n = callee(t)[0] or ""; m = re.match(r"with_(\w+)$", n.split("::")[-1])
            if m and pl(t[3])[1] == () or m:
                ty = short(base(b.ty(pl(t[3])[0])))
                if OPT.search(ty.split("::")[-1]): out[ty][m.group(1)] = n
    return out


def builders(O, ck, b, w, names, root, setters):
    """an option value of another library built from the caller's options takes every one of them it has a setter for"""
    made, done = assembled(O, b, w, names, setters, ck)
    for ty, t in made.items():
        if base(b.ty(0)) == ty and not public(O.db, b): continue      # a helper: judged where it is called
        for f in set(setters[short(ty)]) & names - done[ty]:
            ck.violation(f"unset|{root.path}|{b.path}|{ty}|{f}", f"{b.where(t[5])}: {short(root.path)} is given {f}, but the {ty.split('::')[-1]} built here is never told it")


def assembled(O, b, w, names, setters, ck=None, depth=0):
    """(option values of another library started in b, the fields each has been told from the caller's options), helpers included"""
    made = {}; done = defaultdict(set)
    for bi, t in b.calls():
        n = callee(t)[0] or ""; ty = base(b.ty(pl(t[3])[0]))
        if short(ty) not in setters or short(ty) in O.adt: continue
        m = re.match(r"with_(\w+)$", n.split("::")[-1])
        if m and len(t[2]) > 1:
            if ck: ck.count("setter calls"); ck.ob()
            if m.group(1) in w.val(t[2][1]): done[ty].add(m.group(1))
            continue
        if n.split("::")[-1] in ("new", "default"): made[ty] = t
        for y in O.cg.targets(t):
            if y not in O.db.bodies or depth > 3: continue
            yb = O.db.bodies[y]; vals = tuple(w.val(a) for a in t[2][:yb.argc]); vals += (NONE,) * (yb.argc - len(vals))
            mk, dn = assembled(O, yb, Walk(O, yb, vals, None), names, setters, None, depth + 1)
            if ty in mk: made[ty] = t
            done[ty] |= dn[ty]
    return made, done


def chooses(O, b, w, f):
    """a branch of the body looks at the option itself (present or not)"""
    for bi in b.reachable():
        t = b.blocks[bi][1]
        if t[0] == "switch" and f in w.val(t[1]): return True
    return False


def picked(b, w, m):
    """fixed values of m, more than one, picked by looking at the option"""
    made = {r[1][3] for bi in b.reachable() for p, r, ln in b.blocks[bi][0] if r[0] == "agg" and r[1][0] == "adt" and short(r[1][1]) == m}
    return len(made) > 1 and any(t[0] == "switch" and "*" in w.val(t[1]) for t in (b.blocks[bi][1] for bi in b.reachable()))


def overlap(O, m, names): return O.all[m] & names


def fresh(O, ck, b, w, names, root, path, own):
    """option values that do not come from the caller"""
    db = O.db
    def tyname(k): return short(base(db.types[k["ty"]])) if "ty" in k else ""
    def bad(m, need, ln, how):
        need = sorted(x.lstrip("#").split("::")[-1] for x in need)
        ck.violation(f"replaced|{root.path}|{b.path}|{m}", f"{b.where(ln)}: {short(root.path)} is given {', '.join(need)}, but {how} of {m.split('::')[-1]} takes its place here (path: {path})")
    defs = O.d(b)
    for bi in sorted(b.reachable()):
        stmts, t = b.blocks[bi][0], b.blocks[bi][1]
        for p, r, ln in stmts:
            l, pr = pl(p)
            if r[0] == "agg" and r[1][0] == "adt" and short(r[1][1]) in O.adt:
                m = short(r[1][1]); ck.count("option values built")
                if O.simple(m):
                    if overlap(O, m, names) and not any("*" in w.val(a) for a in r[2]) and not picked(b, w, m):
                        need = uses(O, b, w, l, m, names, own)
                        if need: bad(m, need, ln, "a fixed value")
                    continue
                for f, a in zip(r[1][5], r[2]):
                    ck.ob()
                    fm = base(O.fieldsof[m].get(f, ""))
                    if fm in O.adt:
                        continue               # judged where the part is built
                    if f in names and f not in w.val(a):
                        need = uses(O, b, w, l, m, {f}, own)
                        if need: bad(m, need, ln, f"a {f} of its own")
            elif r[0] == "use" and r[1][0] == "k" and tyname(r[1][1]) in O.adt and not pr:
                m = tyname(r[1][1])
                if overlap(O, m, names):
                    need = uses(O, b, w, l, m, names, own)
                    if need: bad(m, need, ln, "a constant")
        if t[0] == "call":
            n = callee(t)[0] or ""; y = (O.cg.targets(t) or [None])[0]
            noted = STD.match(n) and n.split("::")[-1] in NOTE or own.get(y) in O.adt
            for a in t[2]:
                if a[0] == "k" and tyname(a[1]) in O.adt and not noted:
                    m = tyname(a[1]); need = overlap(O, m, names)
                    if need: bad(m, need, t[5], "a constant")
            l, pr = pl(t[3])
            m = base(b.ty(l)) if not pr else ""
            m = short(m)
            if m in O.all and overlap(O, m, names) and all("K" in w.val(a) for a in t[2]):
                need = uses(O, b, w, l, m, names, own)
                if need: bad(m, need, t[5], "a default" if n.split("::")[-1] == "default" else "a fixed value")


def uses(O, b, w, l, m, names, own, seen=()):
    """which of the caller's options a fresh value of option type m in local l decides"""
    if l == 0 and own.get(b.id) in O.adt: return set()
    if l == 0: return overlap(O, m, names)
    if l in seen: return set()
    over = set()
    for bi, si, (kind, r), ln in O.d(b).part.get(l, ()):
        p = b.blocks[bi][0][si][0] if si != "call" else b.blocks[bi][1][3]
        fs = [x[2] for x in pl(p)[1] if x[0] == "."]
        for f in fs:
            if f in w.of(kind, r): over.add(f)
            m2 = base(O.fields[m].get(f, ""))
            if m2 in O.adt and "*" in w.of(kind, r): over |= O.parts[m2]
    need = set()
    def read(p, dest=None):
        x, pr = pl(p)
        if x != l: return
        fs = [y for y in pr if y[0] == "."]
        if fs and not fs[0][2].isdigit():
            f = fs[-1][2] if base(O.fields[m].get(fs[0][2], "")) in O.adt and len(fs) > 1 else fs[0][2]
            m2 = base(O.fields[m].get(f, ""))
            need.update(O.parts[m2] & names if m2 in O.adt else {f} & names if m in O.adt else ())
        elif dest is not None and short(base(b.ty(dest))) == m: need.update(uses(O, b, w, dest, m, names, own, seen + (l,)))
        else: need.update(overlap(O, m, names))
    for bi in b.reachable():
        stmts, t = b.blocks[bi][0], b.blocks[bi][1]
        for p, r, ln in stmts:
            x, pr = pl(p)
            for o in ops(r):
                if o[0] != "k": read(o[1], x if not pr and r[0] in ("use", "ref") else None)
        if t[0] == "call":
            n = callee(t)[0] or ""; y = (O.cg.targets(t) or [None])[0]
            if STD.match(n) and n.split("::")[-1] in NOTE or own.get(y) in O.adt and O.simple(m): continue
            for a in t[2]:
                if a[0] != "k": read(a[1])
    return need - over


def pure(b, t):
    """the call can only hand back a value: no argument lets it write elsewhere"""
    return all(a[0] == "k" or not re.search(r"&('\w+ )?mut |dyn |closure|fn\(", b.ty(pl(a[1])[0])) for a in t[2]) and re.search(r"^(f64|f32|bool|u\d+|i\d+|usize|isize|core::option::Option<|qtty_core::quantity::Quantity)", b.ty(pl(t[3])[0]))


class Demand:
    """which option fields of a parameter some computation of the body depends on ('!' = the whole value)"""

    def __init__(self, O, db):
        self.open = {i for tr in db.traits.values() for n, i, has in tr["items"]}
        self.O = O; self.db = db; self.memo = {}; self.final = set(); self.lived = set(); self.done = set(); self.grew = False; self._live = {}; self._doom = {}

    def of(self, b, i):
        """least fixed point over the calls: whole rounds until nothing new is demanded"""
        key = (b.id, i)
        while key not in self.final:
            self.done = set(); self.lived = set(); self.grew = False
            self.round(b, i)
            if not self.grew: self.final |= self.done
        return self.memo[key]

    def round(self, b, i):
        key = (b.id, i)
        if key in self.final or key in self.done: return self.memo.get(key, set())
        self.done.add(key); old = self.memo.setdefault(key, set())
        new = self.compute(b, i)
        if not new <= old: self.memo[key] = old | new; self.grew = True
        return self.memo[key]

    def doomed(self, b):
        """blocks from which every way out returns an error: what is read there only words or guards the refusal"""
        if b.id in self._doom: return self._doom[b.id]
        out = set()
        if re.match(r"core::result::Result<", b.ty(0)):
            reach = b.reachable(); own = set()
            for bi in reach:
                for p, r, ln in b.blocks[bi][0]:
                    if pl(p) == (0, ()) or p == 0 or pl(p)[0] == 0 and not pl(p)[1]:
                        if r[0] == "agg" and r[1][0] == "adt" and r[1][3] == "Err": own.add(bi)
                t = b.blocks[bi][1]
                if t[0] == "call" and pl(t[3])[0] == 0 and (callee(t)[0] or "").split("::")[-1] == "from_residual": own.add(bi)
            out = set(own); ch = True
            while ch:
                ch = False
                for bi in reach - out:
                    ss = [x for x in succs(b.blocks[bi]) if x in reach]
                    if ss and all(x in out for x in ss): out.add(bi); ch = True
        self._doom[b.id] = out
        return out

    def guards(self, b, bi):
        """the switch ending block bi only refuses bad options: it looks at nothing but them, and one way out is an error"""
        d = self.doomed(b); t = b.blocks[bi][1]
        if not any(x in d for x in succs(b.blocks[bi])): return False
        if t[1][0] == "k": return True
        st = [pl(t[1][1])[0]]; seen = set()
        while st:
            l = st.pop()
            if l in seen: continue
            seen.add(l)
            if 0 < l <= b.argc:
                if short(base(b.ty(l))) not in self.O.adt: return False
                continue
            for kind, r in [x[2] for x in self.O.d(b).full.get(l, []) + self.O.d(b).part.get(l, [])]:
                st += [pl(o[1])[0] for o in (r[2] if kind == "call" else ops(r)) if o[0] != "k"]
        return True

    def live(self, b, l):
        """does anything depend on local l?"""
        if b.id not in self.lived:
            self.lived.add(b.id); self._live.setdefault(b.id, {0})
            ch = True
            while ch:
                ch = False; live = self._live[b.id]
                for x in self.feeds(b, live):
                    if x not in live: live.add(x); ch = self.grew = True
        return l in self._live[b.id]

    def feeds(self, b, live):
        """locals read by anything that matters, given the locals known to matter"""
        out = set()
        for bi in b.reachable() - self.doomed(b):
            stmts, t = b.blocks[bi][0], b.blocks[bi][1]
            for p, rv, ln in stmts:
                d, pr = pl(p)
                if d in live or pr and 0 < d <= b.argc: out |= {pl(o[1])[0] for o in ops(rv) if o[0] != "k"}
            if t[0] == "switch" and t[1][0] != "k" and not self.guards(b, bi): out.add(pl(t[1][1])[0])
            if t[0] == "assert": out |= {int(x) for x in re.findall(r"\d+", str(t[1:2]))}
            if t[0] == "call":
                d, pr = pl(t[3])
                if d in live or pr or not pure(b, t):
                    out |= {pl(a[1])[0] for j, a in enumerate(t[2]) if a[0] != "k" and self.arg(b, t, j)}
            if t[0] == "call" and len(t) > 1 and isinstance(t[1], list) and t[1][0] in ("c", "m"): out.add(pl(t[1][1])[0])
        return out

    def callees(self, t):
        """bodies a call is sure to run; none when it leaves the crate or any implementation of a trait may answer it (those are judged on their own)"""
        rec = callee(t)[2]
        return [rec["id"]] if rec is not None and rec.get("id") in self.db.bodies and rec["id"] not in self.open else []

    def arg(self, b, t, j):
        ys = self.callees(t)
        if not ys: return True
        return any([bool(self.round(self.db.bodies[y], j + 1)) for y in ys if j < self.db.bodies[y].argc])

    def compute(self, b, i):
        O = self.O; got = set(); alias = {i}
        def field(p):
            """(is it about the option, demanded names, ends at option)"""
            l, pr = pl(p)
            if l not in alias: return None
            fs = [x for x in pr if x[0] == "." and len(x) > 3]
            opt = [x for x in fs if short(x[3] or "") in O.adt and not x[2].isdigit()]
            if not opt: return "!"
            last = opt[-1]
            return last[2]
        def add(f, whole):
            """a read of field f whose value matters"""
            if f == "!": got.update(whole)
            else:
                got.add(f)
        # aliases: plain copies and borrows of the whole parameter or of an option part
        parts = defaultdict(set)      # local -> the option type it stands for
        ch = True
        while ch:
            ch = False
            for bi in b.reachable():
                for p, r, ln in b.blocks[bi][0]:
                    d, pr = pl(p)
                    if pr or d in alias or r[0] not in ("use", "ref"): continue
                    o = r[1] if r[0] == "use" else ["c", r[2]]
                    if o[0] == "k" or pl(o[1])[0] not in alias: continue
                    if short(base(b.ty(d))) in O.adt or O.carry.get(short(base(b.ty(d)))): alias.add(d); ch = True
        for bi in b.reachable() - self.doomed(b):
            stmts, t = b.blocks[bi][0], b.blocks[bi][1]
            for p, r, ln in stmts:
                d, pr = pl(p)
                for o in ops(r):
                    if o[0] == "k": continue
                    f = field(o[1])
                    if f is None: continue
                    if d in alias and not pr and d != 0: continue
                    if pr or d == 0 or self.live(b, d): add(f, {"!"})
            if t[0] == "switch" and t[1][0] != "k" and not self.guards(b, bi):
                f = field(t[1][1])
                if f: add(f, {"!"})
            if t[0] == "call":
                for j, a in enumerate(t[2]):
                    if a[0] == "k": continue
                    f = field(a[1])
                    if f is None: continue
                    ys = self.callees(t)
                    if not ys:
                        l, pr = pl(t[3])
                        if pr or l == 0 or self.live(b, l) or not pure(b, t): add(f, {"!"})
                        continue
                    for y in ys:
                        yb = self.db.bodies[y]
                        if j >= yb.argc: continue
                        dm = self.round(yb, j + 1)
                        m = short(base(yb.ty(j + 1)))
                        if m in O.adt or O.carry.get(m): got.update(dm)
                        elif dm: add(f, {"!"})
        for l in alias:
            if l == 0: got.add("!")
        return got
