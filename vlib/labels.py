"""Frame and centre labels carried by plain components taken out of coordinates (dataflow over MIR).

A label is ("L", frame, centre, raw): components of a vector in that frame; raw means they are still the components of
a position relative to that centre, unmodified.  "T" is unlabelled.
"""
import re
from collections import defaultdict
import tys
from flow import Reporting
from mir import pl, callee

COORD = re.compile(r"^affn::(cartesian|spherical)::(position::Position|direction::Direction|vector::Vector|line_of_sight)")
CART = ("position::Position", "direction::Direction", "vector::Vector", "vector::Displacement", "vector::Velocity")
OUT = {"x", "y", "z", "as_array", "to_array", "as_vec3", "into_array", "coords", "to_raw", "as_raw", "ra", "dec", "lon", "lat", "az", "alt", "polar", "azimuth", "as_xyz", "xyz", "components"}
NEW = {"new", "from_array", "new_unchecked", "new_with_params", "from_xyz", "new_raw", "from_vec3", "from_array_origin", "from_raw", "new_unchecked_with_params", "normalize", "try_new", "try_new_with_params"}
KEEP = {"value", "to", "new", "clone", "abs", "neg", "deref", "copied", "cloned", "into", "from", "iter", "into_iter", "next", "unwrap", "expect", "index", "as_ref", "borrow", "collect", "to_owned", "first", "last", "get", "from_array", "map_identity", "branch", "from_output", "ok", "ok_or", "into_array", "as_array", "to_raw", "as_slice", "black_box"}


def coord(ty):
    """(kind, frame, centre) of a (reference to a) coordinate type string, else None"""
    ty = ty.lstrip("&").replace("mut ", "")
    if not ty.startswith("affn::"): return None
    try: t = tys.parse(ty)
    except Exception: return None
    n = t[1]
    if n.startswith("affn::cartesian::position::Position") or n.startswith("affn::spherical::position::Position"): return ("pos", tys.show(t[2][1]), tys.show(t[2][0]))
    if n.startswith("affn::cartesian::direction::Direction") or n.startswith("affn::spherical::direction::Direction"): return ("dir", tys.show(t[2][0]), None)
    if n.startswith("affn::cartesian::vector::Vector"): return ("vec", tys.show(t[2][0]), None)
    return None


def lab(x): return isinstance(x, tuple) and x[0] == "L"
def raw(x, r): return x[:3] + (x[3] and r,) if lab(x) else x


def join(a, b):
    if a is None: return b
    if b is None: return a
    if a == b: return a
    if lab(a) and lab(b) and a[1] == b[1]: return ("L", a[1], a[2] if a[2] == b[2] else None, a[3] and b[3] and a[2] == b[2])
    if a == "0": return b
    if b == "0": return a
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "t" and len(a[1]) == len(b[1]):
        return ("t", tuple(join(x, y) for x, y in zip(a[1], b[1])))
    return "T"


def flat(x):
    if isinstance(x, tuple) and x[0] == "t":
        r = None
        for y in x[1]: r = join(r, flat(y))
        return r
    return x


def isparam(f): return "::" not in f


class Labels(Reporting):
    def __init__(self, db, report):
        self.db = db; self.start(report); self.memo = {}; self.stack = set()
        self.sites = defaultdict(set); self.known = set()

    def see(self, b, ln, what, known):
        self.sites[what].add((b.id, ln))
        if known: self.known.add((b.id, ln, what))

    def export(self, x):
        """a label that leaves its function: generic frames are meaningless elsewhere"""
        if lab(x): return x if not isparam(x[1]) and not (x[2] and isparam(x[2])) else ("L", x[1], None, False) if not isparam(x[1]) else "T"
        if isinstance(x, tuple) and x[0] == "t": return ("t", tuple(self.export(y) for y in x[1]))
        return x

    def read(self, b, env, op):
        if op[0] == "k":
            k = op[1]
            for c in ("f", "i"):
                if c in k:
                    try: return "0" if float(k[c]) == 0 else "T"
                    except (TypeError, ValueError): return "T"
            return "T"
        l, pr = pl(op[1])
        return self.rp(b, env, l, pr)

    def rp(self, b, env, l, pr):
        v = env.get(l)
        for e in pr:
            if e == "*" or e[0] == "as": continue
            if e[0] == ".":
                owner = e[3]
                if isinstance(v, tuple) and v[0] == "t" and e[1] < len(v[1]): v = v[1][e[1]]
                elif owner and owner.startswith("affn::spherical"):
                    c = self.place_coord(b, l, pr[:pr.index(e)])
                    v = ("L", c[1], c[2], False) if c and e[2] in ("polar", "azimuth") else "T"
                elif owner and any(w in owner for w in ("Option", "Result", "ControlFlow", "Quantity")): pass
                elif not owner and lab(v): pass
                else: v = "T"
            elif e[0] in ("[]", "[c]", "[s]"): v = flat(v)
        return v

    def place_coord(self, b, l, pr):
        if all(e == "*" for e in pr): return coord(b.ty(l))
        for e in reversed(pr):
            if e != "*" and e[0] == ".": return coord(self.db.types[e[4]])
        return None

    def bin(self, b, op, x, y, ln, ctx):
        x, y = flat(x), flat(y)
        if op in ("Add", "Sub", "Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            if lab(x) and lab(y):
                self.see(b, ln, "sum", True)
                if x[1] != y[1]: self.report(b, ln, "sum or comparison", x[1], y[1], ctx)
            if op not in ("Add", "Sub"): return "T"
            if lab(x) and lab(y): return raw(x, False) if x[1] == y[1] else "T"
            if lab(x) and y == "0": return x
            if lab(y) and x == "0": return y
            return "T"
        if op in ("Mul", "Div"):
            if lab(x) and lab(y):
                if op == "Mul":
                    self.see(b, ln, "product", True)
                    if x[1] != y[1]: self.report(b, ln, "product", x[1], y[1], ctx)
                return "T"
            # a scalar multiple still points the same way in the same frame
            if lab(x): return raw(x, True)
            if lab(y) and op == "Mul": return raw(y, True)
            return "T"
        return "T"

    def fn(self, b, args, ctx=()):
        key = (b.id, tuple(args))
        if key in self.memo: self.seen(key); return self.memo[key]
        if b.id in self.stack or len(ctx) > 10: return "T"
        self.stack.add(b.id); self.memo[key] = "T"
        env = {i: (args[i - 1] if i - 1 < len(args) else None) for i in range(1, b.argc + 1)}
        order = b.rpo(); keep = self.quiet()
        for _ in range(4):
            old = dict(env)
            for bi in order: self.block(b, env, bi, ctx, False)
            if old == env: break
        self.loud()
        for bi in order: self.block(b, env, bi, ctx, True)
        self.stack.discard(b.id)
        self.done(key, keep)
        self.memo[key] = self.export(env.get(0)) or "T"
        return self.memo[key]

    def write(self, b, env, p, v):
        l, pr = pl(p)
        if not pr: env[l] = join(env.get(l), v); return
        if any(e != "*" and e[0] == "." and e[3] for e in pr): return
        env[l] = join(flat(env.get(l)), flat(v))

    def block(self, b, env, bi, ctx, final):
        bb = b.blocks[bi]
        for p, r, ln in bb[0]:
            k = r[0]
            if k == "use": v = self.read(b, env, r[1])
            elif k in ("ref", "raw"): l, pr = pl(r[2]); v = self.rp(b, env, l, pr)
            elif k == "bin": v = self.bin(b, r[1].replace("WithOverflow", ""), self.read(b, env, r[2]), self.read(b, env, r[3]), ln, ctx)
            elif k in ("un", "cast"): v = self.read(b, env, r[2])
            elif k == "agg":
                vs = tuple(self.read(b, env, x) for x in r[2]); kind = r[1][0]
                if kind == "closure":
                    v = ("t", vs); c = self.db.bodies.get(r[1][1])
                    if final and c is not None: self.fn(c, [v] + [None] * (c.argc - 1), ctx + ((b.path, ln),))
                elif kind in ("tuple", "array"): v = ("t", vs) if len(vs) <= 9 else "T"
                elif kind == "adt": v = vs[0] if len(vs) == 1 and r[1][1] not in self.db.adts else "T"
                else: v = "T"
            else: v = "T"
            self.write(b, env, p, v)
        t = bb[1]
        if t[0] == "call": self.write(b, env, t[3], self.call(b, env, t, ctx))

    def call(self, b, env, t, ctx):
        d, r, rec = callee(t)
        if rec is None: return "T"
        args = [self.read(b, env, x) for x in t[2]]
        n = d.split("::")[-1]; ln = t[5]
        dst = coord(b.ty(pl(t[3])[0])) if not pl(t[3])[1] else None
        if d.startswith("affn") or "affn::" in d.split(">::")[0]:
            rc = None
            if t[2] and t[2][0][0] != "k":
                l, pr = pl(t[2][0][1]); rc = self.place_coord(b, l, pr)
            if n in OUT and rc: return ("L", rc[1], rc[2], rc[2] is not None and args[0] != "focal")
            if n in NEW or n == "from_cartesian":
                ty = self.db.types[b.locals[pl(t[3])[0]]] if not pl(t[3])[1] else ""
                m = re.search(r"affn::(cartesian|spherical)::(position|direction|vector)::.*", ty)
                if m: dst = dst or coord(m.group(0).rstrip(">") + ">" * (m.group(0).rstrip(">").count("<") - m.group(0).rstrip(">").count(">")))
                if dst:
                    known = False
                    for x in args:
                        x = flat(x)
                        if not lab(x): continue
                        known = True
                        if x[1] != dst[1]: self.report(b, ln, "constructor", x[1], dst[1], ctx); break
                        if x[3] and dst[2] and x[2] and x[2] != dst[2]: self.report(b, ln, "constructor", x[2], dst[2], ctx); break
                    self.see(b, ln, "constructor", known)
                return "T"
            if n in ("reinterpret_frame", "relabel"):
                a = [tys.show(x) if not isinstance(x, str) else x for x in rec["a"]]
                x, y = (rc[1], dst[1]) if rc and dst else (a[0], a[-1])
                self.see(b, ln, "constructor", True)
                if x != y: self.report(b, ln, "constructor", x, y, ctx)
            return "T" if n not in KEEP or rc else (args[0] if args else "T")
        tid = rec.get("id")
        if dst is not None and dst[2] and d.startswith("siderust::astro::") and ("orbit" in d.lower() or "conic" in d.lower()):
            return "focal"      # a position on an orbit is relative to that orbit's focus, whatever body this is
        if tid in self.db.bodies and self.db.bodies[tid].kind == "fn":
            c = self.db.bodies[tid]
            if c.id in self.stack: return "T"
            return self.fn(c, [self.export(x) if not (isinstance(x, str)) else x for x in args], ctx + ((b.path, ln),))
        tr = rec.get("t", "")
        if tr.startswith("core::ops") and any("Rotation" in x or "matrix" in x.lower() or "Transform" in x for x in rec["a"]): return "T"
        if tr.startswith(("core::ops", "core::cmp")) and len(args) == 2:
            op = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "lt": "Lt", "gt": "Gt", "le": "Le", "ge": "Ge"}.get(n)
            if op: return self.bin(b, op, args[0], args[1], ln, ctx)
        if n == "mul_add" and len(args) == 3: return self.bin(b, "Add", self.bin(b, "Mul", args[0], args[1], ln, ctx), args[2], ln, ctx)
        if n in KEEP and args: return args[0]
        return "T"
