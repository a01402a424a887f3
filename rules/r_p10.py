"""P10: a number that cannot be read is never replaced by another number."""
import re
from collections import defaultdict
from mir import pl, callee, succs
from flow import CallGraph, Defs
from report import Check

NUM = re.compile(r"^(f32|f64|[ui](8|16|32|64|128|size))$")
SOURCES = {"parse", "from_str_radix", "from_str", "to_digit"}
TOKENS = re.compile(r"Split|Chunks|Iter<'[^,]*, &.*str>|IntoIter<&.*str>")   # items that belong to one record
SINKS = {"unwrap_or": "a default", "unwrap_or_default": "the default", "unwrap_or_else": "a default", "map_or": "a default", "map_or_else": "a default", "or": "another", "or_else": "another", "is_ok_and": None, "is_some_and": None}
OKIDX = {"Result": 0, "Option": 1}


def wrapper(ty):
    m = re.match(r"(?:core|std)::(?:result|option)::(Result|Option)<", ty)
    return m.group(1) if m else None


def payload(ty):
    """first type argument of an Option or Result"""
    i = ty.index("<") + 1; d = 0
    for j in range(i, len(ty)):
        c = ty[j]
        if c in "<([": d += 1
        elif c in ">)]":
            if d == 0: return ty[i:j].strip()
            d -= 1
        elif c == "," and d == 0: return ty[i:j].strip()
    return ty[i:]


class Numbers:
    def __init__(self, db):
        self.db = db; self.cg = CallGraph(db); self.D = {}
        self.ret = {}          # body id -> does it return an unread-number outcome?
        self.fields = {}       # (type, field) of an Option or Result that holds the outcome of reading a number -> line
        self.memo = {}

    def d(self, b):
        if b.id not in self.D: self.D[b.id] = Defs(b)
        return self.D[b.id]

    def numeric(self, ty):
        return bool(NUM.match(ty) or "Quantity<" in ty and not wrapper(ty) or re.match(r"[A-Z]\w*$", ty) and ty not in ("String", "Self"))

    def source(self, b, t):
        d, r, rec = callee(t); n = (d or "").split("::")[-1]
        if n not in SOURCES: return False
        ty = b.ty(pl(t[3])[0])
        if not wrapper(ty): return False
        p = payload(ty)
        return bool(NUM.match(p)) or bool(re.match(r"[A-Z]\w*$", p)) and p not in ("String", "Self")

    def tainted(self, b):
        """locals holding the outcome of reading a number: Option/Result whose failure means it could not be read"""
        if b.id in self.memo: return self.memo[b.id]
        D = self.d(b); out = {}; inner = {}; ch = True
        while ch:
            ch = False
            for l in range(len(b.locals) if hasattr(b, "locals") else 0):
                pass
            for bi in b.reachable():
                for p, r, ln in b.blocks[bi][0]:
                    l, pr = pl(p)
                    if pr or l in out or not wrapper(b.ty(l).lstrip("&")): continue
                    src = None
                    if r[0] == "use": src = r[1]
                    elif r[0] == "ref": src = ["c", r[2]]
                    elif r[0] == "agg": continue
                    if src and src[0] != "k":
                        s, spr = pl(src[1])
                        pr2 = [e for e in spr if e != "*"]
                        if s in out and not pr2: out[l] = out[s]; ch = True
                        elif s in inner and l not in inner and not pr2: inner[l] = inner[s]; ch = True
                        elif s in inner and pr2 and self.layers(b.ty(l)) == 1: out[l] = inner[s]; ch = True
                        elif pr2 and self.field(pr2[-1]) in self.fields: out[l] = self.fields[self.field(pr2[-1])]; ch = True
                t = b.blocks[bi][1]
                if t[0] != "call": continue
                l, pr = pl(t[3])
                if pr or l in out or not wrapper(b.ty(l)): continue
                n = (callee(t)[0] or "").split("::")[-1]
                if t[2] and t[2][0][0] != "k" and pl(t[2][0][1])[0] in inner:
                    # an optional text whose number was read: its absence is not a failure, what is inside it is
                    w = inner[pl(t[2][0][1])[0]]
                    if self.layers(b.ty(l)) > 1 and n != "transpose":
                        if l not in inner: inner[l] = w; ch = True
                    else: out[l] = w; ch = True
                    continue
                w = self.outcome(b, t, out)
                if w and n == "map" and self.layers(b.ty(l)) > 1 and not (t[2][0][0] != "k" and pl(t[2][0][1])[0] in out):
                    if l not in inner: inner[l] = w; ch = True
                elif w: out[l] = w; ch = True
        self.memo[b.id] = out
        return out

    @staticmethod
    def layers(ty):
        ty = ty.lstrip("&")
        return 0 if not wrapper(ty) else 1 + bool(wrapper(payload(ty).lstrip("&")))

    @staticmethod
    def field(e):
        """fields of types declared inside a function: working state of a reader (a public optional field is a value marked absent)"""
        return (e[3], e[2]) if isinstance(e, list) and e[0] == "." and re.search(r"::[a-z_0-9]+::[A-Z]\w*$", str(e[3])) and e[3].rsplit("::", 1)[0] in Numbers.fns else None

    fns = set()

    def gather(self):
        """fields that receive an outcome, until nothing more is found"""
        Numbers.fns = {b.path for b in self.db.local_fns()}
        while True:
            n = len(self.fields); self.memo = {}; self.ret = {}
            for b in self.db.local_fns():
                out = self.tainted(b)
                if not out: continue
                for bi in b.reachable():
                    for p, r, ln in b.blocks[bi][0]:
                        l, pr = pl(p)
                        if pr and r[0] == "use" and r[1][0] != "k" and pl(r[1][1])[0] in out and not pl(r[1][1])[1]:
                            k = self.field(pr[-1])
                            if k: self.fields.setdefault(k, out[pl(r[1][1])[0]])
                        if r[0] == "agg" and r[1][0] == "adt" and len(r[1]) > 5:
                            for name, o in zip(r[1][5], r[2]):
                                if o[0] != "k" and pl(o[1])[0] in out and not pl(o[1])[1] and r[1][1].rsplit("::", 1)[0] in Numbers.fns: self.fields.setdefault((r[1][1], name), out[pl(o[1])[0]])
                    t = b.blocks[bi][1]
                    if t[0] == "call" and pl(t[3])[1]:
                        k = self.field(pl(t[3])[1][-1])
                        if k and t[2] and t[2][0][0] != "k" and (pl(t[2][0][1])[0] in out or self.source(b, t)): self.fields.setdefault(k, t[5])
            if len(self.fields) == n: return

    def outcome(self, b, t, out):
        d, r, rec = callee(t); n = (d or "").split("::")[-1]
        if self.source(b, t): return t[5]
        if n in ("branch", "from_residual"): return None
        if rec and rec.get("id") in self.db.bodies and self.db.bodies[rec["id"]].kind in ("fn", "closure"):
            return t[5] if self.returns(rec["id"]) else None
        # combinators: of a tainted receiver, or applying something that reads a number
        ty = b.ty(pl(t[3])[0])
        if t[2] and t[2][0][0] != "k" and pl(t[2][0][1])[0] in out and n in ("ok", "map", "map_err", "and_then", "copied", "cloned", "filter", "transpose", "flatten", "ok_or", "ok_or_else", "as_ref", "inspect_err", "or", "or_else", "xor", "zip"):
            if n in ("ok_or", "ok_or_else", "map_err"): pass
            return out[pl(t[2][0][1])[0]]
        if n in ("and_then", "map", "then", "next", "find_map", "try_fold", "flatten", "transpose"):
            for a in t[2][1:] if n != "next" else []:
                i = self.fnof(b, a)
                if i == "source" or i in self.db.bodies and self.returns(i): return t[5]
        return None

    def fnof(self, b, a):
        """function or closure an operand stands for"""
        if a[0] == "k":
            f = a[1].get("fn")
            if not f: return None
            n = f["p"].split("::")[-1]
            if n in ("parse", "from_str", "from_str_radix"):
                return "source" if any(NUM.match(x) for x in f["a"]) else None
            return f.get("id")
        l = pl(a[1])[0]
        for bi, si, (k, r), ln in self.d(b).full.get(l, ()):
            if k == "rv" and r[0] == "agg" and r[1][0] == "closure": return r[1][1]
            if k == "rv" and r[0] == "use": return self.fnof(b, r[1])
        return None

    def returns(self, i):
        if i in self.ret: return self.ret[i]
        self.ret[i] = False
        b = self.db.bodies[i]
        if not wrapper(b.ty(0)): return False
        if b.kind == "fn" and not self.numeric(payload(b.ty(0))): return False
        out = self.tainted(b)
        r = 0 in out
        if not r and b.kind == "fn":
            # Ok(s.parse()?) and hand-made matches: the outcome is handed on by a helper that reads one number
            r = bool(out) and any((callee(t)[0] or "").split("::")[-1] in ("branch",) and t[2][0][0] != "k" and pl(t[2][0][1])[0] in out for _, t in b.calls())
        self.ret[i] = r
        return r


def run(db):
    ck = Check("P10", "error-flow analysis over MIR: the failure of reading a number is followed to where it is discharged")
    N = Numbers(db); N.gather()
    for b in db.local_fns():
        if b.span[0].startswith("tests/"): continue
        out = N.tainted(b)
        src = sum(1 for _, t in b.calls() if N.source(b, t))
        ck.count("numbers read", src)
        for _ in range(src): ck.ob()
        if not out: continue
        ck.count("functions that read numbers")
        for bi, t in b.calls():
            n = (callee(t)[0] or "").split("::")[-1]
            if not t[2] or t[2][0][0] == "k" or pl(t[2][0][1])[0] not in out: continue
            ck.count("outcomes discharged")
            if n not in SINKS or SINKS[n] is None or digits(N, b, out, bi, t): continue
            ty = b.ty(pl(t[3])[0])
            if wrapper(ty): ty = payload(ty) if n in ("or", "or_else") else ""
            if n in ("map_or", "map_or_else") and not N.numeric(ty): continue
            if n in ("or", "or_else"):
                if len(t[2]) < 2 or not another(N, b, t, n): continue
            if not ty or ty == "bool" or "str" in ty or "String" in ty: continue
            if nan(N, b, t): continue
            ck.violation(f"{b.path}|{n}|{site(b, t)}", f"{b.where(t[5])} in {b.path}: when the number read at line {out[pl(t[2][0][1])[0]]} is malformed, {n} puts {SINKS[n]} {short(ty)} in its place")
        for v in arms(N, b, out): ck.violation(*v)
    for b in db.local_fns():
        if b.span[0].startswith("tests/"): continue
        for bi, t in b.calls():
            # a list of numbers from which malformed ones are dropped: the rest move up into their places
            n = (callee(t)[0] or "").split("::")[-1]
            if n not in ("filter_map", "flat_map", "flatten") or not t[2] or t[2][0][0] == "k": continue
            i = N.fnof(b, t[2][1]) if len(t[2]) > 1 else None
            if not (i == "source" or i in db.bodies and N.returns(i) and NUM.match(payload(db.bodies[i].ty(0)))):
                # .map(parse) before it
                o = N.d(b).origin(t[2][0])
                if o[0] != "call" or (callee(o[1])[0] or "").split("::")[-1] != "map" or len(o[1][2]) < 2: continue
                i = N.fnof(b, o[1][2][1])
                if not (i == "source" or i in db.bodies and N.returns(i)): continue
                if n == "filter_map" and (t[2][1][0] != "k" or not str(t[2][1][1].get("fn", {}).get("p")).endswith("::ok")): continue
            if not TOKENS.search(b.ty(pl(t[2][0][1])[0])): continue
            ck.ob()
            ck.violation(f"{b.path}|dropped|{site(b, t)}", f"{b.where(t[5])} in {b.path}: malformed numbers are left out of the list, so those after them take their places")
    ck.floor("numbers read", 60)
    return ck.finish("every number parsed from text in the crate, followed through combinators, helpers and matches to where its failure is handled")


def digits(N, b, out, bi, t):
    """the text was checked to consist of digits, so reading it cannot fail"""
    for x in b.reachable():
        u = b.blocks[x][1]
        if u[0] == "call" and (callee(u)[0] or "").split("::")[-1] == "is_ascii_digit" and x != bi and b.dominates(x, bi): return True
    return False


def nan(N, b, t):
    """the default is not-a-number, which marks the value absent"""
    o = N.d(b).origin(t[2][1]) if len(t[2]) > 1 else None
    return bool(o) and o[0] == "const" and "NAN" in str(o[1])


def another(N, b, t, n):
    """does the alternative construct a success of its own, rather than read the number some other way?"""
    w = wrapper(b.ty(pl(t[3])[0])); ok = OKIDX[w]
    def makes(c, l, seen):
        for bi, si, (kind, r), ln in N.d(c).full.get(l, ()):
            if kind == "rv" and r[0] == "agg" and r[1][0] == "adt" and wrapper(c.ty(l)) and variant(r) == ok:
                if r[2][0][0] == "k" or not N.tainted(c): return True
            if kind == "rv" and r[0] == "use" and r[1][0] != "k" and not pl(r[1][1])[1] and pl(r[1][1])[0] not in seen and makes(c, pl(r[1][1])[0], seen | {l}): return True
        return False
    if n == "or": return t[2][1][0] != "k" and makes(b, pl(t[2][1][1])[0], set())
    i = N.fnof(b, t[2][1])
    return i in N.db.bodies and makes(N.db.bodies[i], 0, set())


def variant(r):
    return r[1][2] if len(r[1]) > 2 and isinstance(r[1][2], int) else 0


def short(ty): return "number" if NUM.match(ty) else "quantity" if "Quantity" in ty else "value"


def site(b, t):
    """names the place by what is assigned, not by its line"""
    l = pl(t[3])[0]
    return b.names.get(l) or str(sum(1 for _, u in b.calls() if u[5] < t[5] and (callee(u)[0] or "").split("::")[-1] == (callee(t)[0] or "").split("::")[-1]))


def arms(N, b, out):
    """matches on an outcome whose failure arm gives a number to what the success arm fills"""
    D = N.d(b); res = []
    for x in b.reachable():
        t = b.blocks[x][1]
        if t[0] != "switch" or t[1][0] == "k": continue
        l = pl(t[1][1])[0]; ds = D.full.get(l, ())
        if len(ds) != 1 or ds[0][2][0] != "rv" or ds[0][2][1][0] != "discr": continue
        p, ppr = pl(ds[0][2][1][1])
        if p not in out or [e for e in ppr if e != "*"]: continue
        w = wrapper(b.ty(p).lstrip("&")); okv = OKIDX[w]
        arm = {int(v): y for v, y in t[2]}
        good = arm.get(okv, t[3]); bad = arm.get(1 - okv, t[3])
        if good == bad: continue
        filled = {}
        for l2 in D.full:
            if l2 == 0 and wrapper(b.ty(0)): continue
            if not (NUM.match(b.ty(l2)) or "Quantity<" in b.ty(l2) and not wrapper(b.ty(l2))): continue
            g = [d for d in D.full[l2] if b.dominates(good, d[0]) and frompay(N, b, d, p)]
            if g: filled[l2] = g
        for l2, g in filled.items():
            for d in D.full[l2]:
                if d in g: continue
                # the failure side sets it, or leaves what was there before
                if not b.dominates(good, d[0]) and d[0] in onward(b, bad, x) and isconst(N, b, d): res.append((f"{b.path}|match|{b.names.get(l2, l2)}", f"{b.where(d[3])} in {b.path}: when the number read at line {out[p]} is malformed, {b.names.get(l2, 'the value')} is set to a constant")); break
                if not b.dominates(good, d[0]) and not b.dominates(bad, d[0]) and b.dominates(d[0], x) and isconst(N, b, d) and meets(b, bad, g[0][0], x) : res.append((f"{b.path}|kept|{b.names.get(l2, l2)}", f"{b.where(ds[0][3])} in {b.path}: when the number read at line {out[p]} is malformed, {b.names.get(l2, 'the value')} silently keeps the constant of line {d[3]}")); break
        # the number is handed on wrapped (Ok, Some, a value variant): the failure side wraps a constant the same way
        for l2, ds in D.full.items():
            wrap = {}
            for d in ds:
                r = d[2][1] if d[2][0] == "rv" else None
                if r and r[0] == "agg" and r[1][0] == "adt" and len(r[2]) == 1 and b.dominates(good, d[0]) and frompay(N, b, (d[0], d[1], ("rv", ["use", r[2][0]]), d[3]), p): wrap[(r[1][1], variant(r))] = d
            for d in ds:
                r = d[2][1] if d[2][0] == "rv" else None
                if r and r[0] == "agg" and r[1][0] == "adt" and (r[1][1], variant(r)) in wrap and not b.dominates(good, d[0]) and d[0] in onward(b, bad, x) and isconst(N, b, (d[0], d[1], ("rv", ["use", r[2][0]]), d[3])):
                    res.append((f"{b.path}|wrapped|{l2}", f"{b.where(d[3])} in {b.path}: when the number read at line {out[p]} is malformed, a constant is returned as if it had been read")); break
        # the number goes into a place of its own: a field or element that otherwise keeps what it had
        for l2, ds in D.part.items():
            for d in ds:
                if not b.dominates(good, d[0]) or not frompay(N, b, d, p): continue
                if d[2][0] == "rv":
                    r = d[2][1]
                    if r[0] != "use" or r[1][0] == "k" or not NUM.match(valty(N, b, r[1])): continue
                    st = next(q for q, _, ln in b.blocks[d[0]][0] if pl(q)[0] == l2 and pl(q)[1] and _ is r)
                    idx = any(isinstance(e, list) and e[0] in ("i", "idx", "index") for e in pl(st)[1])
                else:
                    idx = False
                    if not (NUM.match(b.ty(l2)) or "Quantity<" in str(d[2][1][4:5])): continue
                if joins(b, good, bad, x, idx):
                    res.append((f"{b.path}|field|{sum(1 for q in D.part for e in D.part[q] if e[0] < d[0])}", f"{b.where(d[3])} in {b.path}: when the number read at line {out[p]} is malformed, the field or element it belongs in silently keeps its initial value")); break
        # one number of a record's list
        for y in b.reachable():
            u = b.blocks[y][1]
            if u[0] != "call" or (callee(u)[0] or "").split("::")[-1] not in ("push", "push_back") or len(u[2]) < 2 or u[2][1][0] == "k" or not b.dominates(good, y): continue
            if not NUM.match(valty(N, b, u[2][1])) or not frompay(N, b, (y, 0, ("rv", ["use", u[2][1]]), u[5]), p): continue
            nx = [z for z in b.reachable() if b.blocks[z][1][0] == "call" and (callee(b.blocks[z][1])[0] or "").split("::")[-1] == "next" and b.dominates(z, x)]
            near = max(nx, key=lambda z: len([w for w in nx if b.dominates(w, z)]), default=None)
            if near is None or not TOKENS.search(b.ty(pl(b.blocks[near][1][2][0][1])[0])): continue
            if joins(b, good, bad, x, True): res.append((f"{b.path}|pushed|{len(res)}", f"{b.where(u[5])} in {b.path}: when the number read at line {out[p]} is malformed it is left out of the list, so those after it take its place"))
    return res


def onward(b, s, x):
    """blocks the failure side goes through before it leaves the record"""
    seen = set(); todo = [s]
    while todo:
        y = todo.pop()
        if y in seen or y == x or not b.dominates(x, y): continue
        seen.add(y); todo += succs(b.blocks[y])
    return seen


def valty(N, b, o):
    l, pr = pl(o[1])
    if not pr: return b.ty(l)
    w = wrapper(b.ty(l).lstrip("&"))
    return payload(b.ty(l).lstrip("&")) if w else ""


def joins(b, good, bad, x, loop):
    """does the failure side run on to where the success side goes, without leaving the record (or, with loop, without leaving the loop)?"""
    def after(s):
        seen = set(); todo = [s]
        while todo:
            y = todo.pop()
            if y in seen or y == x: continue
            if not b.dominates(x, y):
                if loop: seen.add(y)
                continue
            seen.add(y); todo += succs(b.blocks[y])
        return seen
    both = after(good) & after(bad)
    def leaving(y):
        for _ in range(40):
            k = b.blocks[y][1][0]
            if k == "ret": return True
            if b.blocks[y][0] and k != "drop" or k not in ("goto", "drop"): return k in ("unreachable", "resume")
            y = succs(b.blocks[y])[0]
        return False
    return any(y != good and not leaving(y) for y in both)


def meets(b, bad, good, x):
    """does the failure side run on to where the success side goes, within the same turn?"""
    after = set(); todo = list(succs(b.blocks[good]))
    while todo:
        y = todo.pop()
        if y in after or y == x: continue
        after.add(y); todo += succs(b.blocks[y])
    seen = set(); todo = [bad]
    while todo:
        y = todo.pop()
        if y in seen or y == x: continue
        seen.add(y)
        if y in after and not (b.blocks[y][1][0] in ("ret", "drop")): return True
        if len(seen) > 6: return False
        todo += succs(b.blocks[y])
    return False


def isconst(N, b, d, depth=0):
    kind, r = d[2]
    if kind == "call":
        n = (callee(r)[0] or "").split("::")[-1]
        if n == "default": return True
        return n in ("new",) and all(a[0] == "k" for a in r[2]) and bool(r[2])
    if r[0] == "use":
        if r[1][0] == "k": return True
        ds = N.d(b).full.get(pl(r[1][1])[0], ())
        return depth < 4 and len(ds) == 1 and isconst(N, b, ds[0], depth + 1)
    return False


def frompay(N, b, d, p, depth=0):
    """does the definition use the number inside p?"""
    kind, r = d[2]
    ops = r[2] if kind == "call" else [r[1]] if r[0] == "use" else [r[2]] if r[0] == "cast" else r[2:4] if r[0] == "bin" else [["c", r[2]]] if r[0] == "ref" else []
    for o in ops:
        if o[0] == "k": continue
        l, pr = pl(o[1])
        if l == p and any(isinstance(e, list) and e[0] == "as" for e in pr): return True
        if depth < 6:
            ds = N.d(b).full.get(l, ())
            if len(ds) == 1 and frompay(N, b, ds[0], p, depth + 1): return True
    return False
