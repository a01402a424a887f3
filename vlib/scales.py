"""Time-scale labels on instants and on the plain numbers taken out of them (dataflow over MIR).

("S", scale, format): an instant, or its raw day count, in that scale and format; "T": no label; "0"/("c", x): a constant.
"""
import re
from collections import defaultdict
import tys
from mir import pl, callee
from flow import CallGraph, Reporting

SC = {"tt": "TT", "ut1": "UT1", "utc": "UTC", "tdb": "TDB", "tai": "TAI", "gps": "GPS", "gpst": "GPS"}
KEEP = {"clone", "abs", "deref", "copied", "cloned", "into", "from", "unwrap", "expect", "as_ref", "borrow", "branch", "from_output", "ok", "ok_or", "ok_or_else", "max", "min", "unwrap_or", "map_err", "value", "raw",
        "to_owned", "black_box", "start", "end", "next", "iter", "into_iter", "index", "get", "first", "last", "collect", "try_value", "clamp"}
TIME = re.compile(r"tempoch_core::model::time::Time<")


def named(n):
    """(scale, format) documented by a name: jd_ut1, epoch_utc, et_s, tdb_seconds; None otherwise"""
    w = [x for x in n.lower().split("_") if x]
    if not w or w[0] in ("to", "from", "try", "into"): return None
    sec = w[-1] in ("s", "seconds", "sec")
    if sec: w = w[:-1]
    if w and w[-1] == "et" and (len(w) > 1 or sec or n == "et"): return "TDB", "ET"
    if w and w[-1] in SC and (len(w) > 1 or sec): return SC[w[-1]], "ET" if sec and w[-1] == "tdb" else ("JD" if w[0] == "jd" else "MJD" if w[0] == "mjd" else None)
    return None


def ttype(ty):
    """(scale, format) of the instant a type holds, through references and wrappers; None otherwise"""
    m = TIME.search(ty)
    if not m or ty.startswith(("fn", "for<")): return None
    if not re.match(r"^(&(mut )?|core::option::Option<|core::result::Result<|tempoch_core::period::Interval<|alloc::vec::Vec<|\[)*tempoch_core::model::time::Time<", ty): return None
    i = m.end(); d = 1; args = [""]
    while i < len(ty) and d:
        c = ty[i]
        if c == "<": d += 1
        elif c == ">":
            d -= 1
            if not d: break
        if c == "," and d == 1: args.append("")
        else: args[-1] += c
        i += 1
    args = [a.strip().split("::")[-1] for a in args]
    return args[0], (args[1] if len(args) > 1 else "native")


def lab(x): return isinstance(x, tuple) and x[0] == "S"
def const(x): return isinstance(x, tuple) and x[0] == "c"


def join(a, b):
    if a is None: return b
    if b is None: return a
    if a == b: return a
    if lab(a) and const(b): return a
    if lab(b) and const(a): return b
    if lab(a) and lab(b) and a[1] == b[1]: return ("S", a[1], None)
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "t" and len(a[1]) == len(b[1]):
        return ("t", tuple(join(x, y) for x, y in zip(a[1], b[1])))
    return "T"


def flat(x):
    if isinstance(x, tuple) and x[0] == "t":
        r = None
        for y in x[1]: r = join(r, flat(y))
        return r
    return x


CONTRACT = re.compile(r"(?:^|_)(?:jd|mjd|epoch|time|et)_(tt|ut1|utc|tdb|tai)_from_|(?:^|_)(?:to|into|as)_(?:jd_|mjd_)?(tt|ut1|utc|tdb|tai)(?:_|$)|^(?:jd|mjd)_(tt|ut1|utc|tdb|tai)$")


def contract(fn):
    if "et" in fn.split("_")[1:] and "seconds" in fn or fn.endswith("_to_et"): return "TDB"
    m = CONTRACT.search(fn)
    return SC[next(g for g in m.groups() if g)] if m else None


# documented approximations of UTC by UT1: their result counts as UTC
APPROX = {"siderust::astro::earth_rotation::jd_utc_from_tt_delta_t", "siderust::astro::earth_rotation::jd_utc_from_tt"}


class Scales(Reporting):
    def __init__(self, db, report):
        self.db = db; self.cg = CallGraph(db); self.start(report); self.memo = {}; self.stack = set(); self.sites = defaultdict(set); self.known = set()

    def see(self, b, ln, what, known):
        self.sites[what].add((b.id, ln, what))
        if known: self.known.add((b.id, ln, what))

    def typed(self, ty, n):
        """label of a value of type ty known under the name n"""
        t = ttype(ty)
        s = named(n) if n else None
        if t is None:
            return ("S",) + s if s and re.match(r"^&?(f64|qtty_core::quantity::Quantity<.*(Day|Second)>)$", ty) else None
        sc, f = t
        if not sc.isupper() or len(sc) < 2: return "T"
        if s and sc == "TT": sc = s[0]
        return ("S", sc, f)

    def param(self, c, i):
        """label required of parameter i of body c: a private helper or closure takes what its callers give it unless the parameter's name says otherwise"""
        n = (c.names.get(i) or "").lstrip("_")
        w = self.typed(c.ty(i), n)
        if lab(w) and w[1] == "TT" and not named(n) and (c.kind == "closure" or self.db.sigs.get(c.id, {}).get("vis", "Public") != "Public"): return "T"
        return w

    def need(self, b, ln, what, got, want, ctx):
        got = flat(got)
        if not lab(want): return
        k = lab(got)
        self.see(b, ln, what.split(" ")[0], k)
        if not k: return
        if got[1] != want[1]: self.report(b, ln, what, got[1], want[1], ctx)
        elif got[2] and want[2] and got[2] != want[2] and {got[2], want[2]} <= {"JD", "MJD", "ET"}: self.report(b, ln, what, got[2], want[2], ctx)

    def read(self, b, env, op):
        if op[0] == "k":
            for c in ("f", "i"):
                if c in op[1]:
                    try: return ("c", float(op[1][c]))
                    except (TypeError, ValueError): return "T"
            t = ttype(self.db.types[op[1]["ty"]]) if "ty" in op[1] else None
            return "T"
        l, pr = pl(op[1])
        return self.rp(b, env, l, pr)

    def rp(self, b, env, l, pr):
        v = env.get(l)
        for e in pr:
            if e == "*" or e[0] == "as": continue
            if e[0] == ".":
                owner = e[3] or ""
                if isinstance(v, tuple) and v[0] == "t" and e[1] < len(v[1]): v = v[1][e[1]]
                elif owner.startswith("siderust::") or owner in self.db.adts: v = self.typed(self.db.types[e[4]], e[2]) or "T"
                elif any(w in owner for w in ("Option", "Result", "ControlFlow", "Interval", "Time", "Quantity")): pass
                elif not owner and lab(v): pass
                else: v = "T"
            elif e[0] in ("[]", "[c]", "[s]"): v = flat(v)
        return v

    def bin(self, b, op, x, y, ln, ctx):
        x, y = flat(x), flat(y)
        if op in ("Sub", "Lt", "Le", "Gt", "Ge", "Eq", "Ne") and lab(x) and lab(y):
            self.see(b, ln, "difference", True)
            if x[1] != y[1]: self.report(b, ln, "difference or comparison", x[1], y[1], ctx)
            elif x[2] and y[2] and x[2] != y[2] and {x[2], y[2]} <= {"JD", "MJD", "ET"}: self.report(b, ln, "difference or comparison", x[2], y[2], ctx)
            return "T"
        if op in ("Add", "Sub"):
            a, c = (x, y) if lab(x) else (y, x) if op == "Add" else (None, None)
            if a is not None and lab(a) and const(c):
                if abs(abs(c[1]) - 2400000.5) < 1e-9:
                    s = c[1] if op == "Add" else -c[1]
                    return ("S", a[1], "JD" if s > 0 and a[2] in ("MJD", None) else "MJD" if s < 0 and a[2] in ("JD", None) else None)
                if op == "Sub" and a is x:
                    # days since J2000, judged when they are turned into centuries
                    for f, v in (("JD", 2451545.0), ("MJD", 51544.5)):
                        if c[1] == v:
                            if a[2] in ("JD", "MJD") and a[2] != f: self.report(b, ln, "days since J2000", a[2], f, ctx)
                            return ("d", a[1], None)
                return a if abs(c[1]) < 1e5 else "T"
            if const(x) and const(y): return ("c", x[1] + y[1] if op == "Add" else x[1] - y[1])
        if op == "Div" and isinstance(x, tuple) and x[0] == "d" and const(y) and y[1] in (36525.0, 365250.0, 365.25):
            self.see(b, ln, "centuries", True)
            if x[1] not in ("TT", "TDB"): self.report(b, ln, "centuries since J2000", x[1], "TT", ctx)
            return "T"
        if op in ("Mul", "Div") and const(x) and const(y) and (op == "Mul" or y[1]): return ("c", x[1] * y[1] if op == "Mul" else x[1] / y[1])
        return "T"

    def fn(self, b, args, ctx=()):
        key = (b.id, tuple(args))
        if key in self.memo: self.seen(key); return self.memo[key]
        if b.id in self.stack or len(ctx) > 10: return "T"
        self.stack.add(b.id); self.memo[key] = "T"
        env = {}
        for i in range(1, b.argc + 1):
            a = args[i - 1] if i - 1 < len(args) else None
            w = self.param(b, i) if lab(a) else self.typed(b.ty(i), b.names.get(i))
            env[i] = w if lab(w) else a
        order = b.rpo(); keep = self.quiet()
        for _ in range(4):
            old = dict(env)
            for bi in order: self.block(b, env, bi, ctx, False)
            if old == env: break
        self.loud()
        for bi in order: self.block(b, env, bi, ctx, True)
        self.stack.discard(b.id)
        r = env.get(0)
        c = contract(b.path.split("::")[-1]) if b.kind == "fn" else None
        if not c and b.kind == "fn" and (ttype(b.ty(0)) or ("",))[0] == "TT": self.need(b, b.span[1], "return value", r, ("S", "TT", None), ctx)
        if b.path in APPROX: r = ("S", "UTC", "JD")
        elif c:
            self.need(b, b.span[1], "return value", r, ("S", c, None), ctx)
            r = ("S", c, (ttype(b.ty(0)) or (None, None))[1])
        self.done(key, keep)
        self.memo[key] = r or "T"
        return self.memo[key]

    def write(self, b, env, p, v, ln, ctx):
        l, pr = pl(p)
        if not pr:
            if (v is None or v == "T") and not isinstance(env.get(l), tuple):
                w = self.typed(b.ty(l), None)
                if lab(w) and w[1] != "TT": v = w
            env[l] = join(env.get(l), v); return
        e = pr[-1]
        if e != "*" and e[0] == "." and e[3] and (e[3].startswith("siderust::") or e[3] in self.db.adts):
            self.need(b, ln, f"field {e[2]}", v, self.typed(self.db.types[e[4]], e[2]), ctx); return
        if any(e != "*" and e[0] == "." and e[3] for e in pr): return
        if isinstance(env.get(l), tuple) and env[l][0] == "t" and len(pr) == 1 and pr[0] != "*" and pr[0][0] == "." and pr[0][1] < len(env[l][1]):
            t = list(env[l][1]); t[pr[0][1]] = join(t[pr[0][1]], v); env[l] = ("t", tuple(t)); return
        env[l] = join(flat(env.get(l)), flat(v))

    def block(self, b, env, bi, ctx, final):
        bb = b.blocks[bi]
        for p, r, ln in bb[0]:
            k = r[0]
            if k == "use": v = self.read(b, env, r[1])
            elif k in ("ref", "raw"): l, pr = pl(r[2]); v = self.rp(b, env, l, pr)
            elif k == "bin": v = self.bin(b, r[1].replace("WithOverflow", ""), self.read(b, env, r[2]), self.read(b, env, r[3]), ln, ctx)
            elif k == "cast": v = self.read(b, env, r[2])
            elif k == "un":
                v = self.read(b, env, r[2]); v = ("c", -v[1]) if const(v) and r[1] == "Neg" else "T"
            elif k == "agg":
                vs = tuple(self.read(b, env, x) for x in r[2]); kind = r[1][0]
                if kind == "closure":
                    v = ("t", vs); c = self.db.bodies.get(r[1][1])
                    if final and c is not None: self.fn(c, [v] + [None] * (c.argc - 1), ctx + ((b.path, ln),))
                elif kind in ("tuple", "array"): v = ("t", vs) if len(vs) <= 9 else "T"
                elif kind == "adt":
                    path = r[1][1]
                    if path in self.db.adts:
                        a = self.db.adts[path]; vi = r[1][2] if isinstance(r[1][2], int) else 0
                        fs = a["variants"][vi][1] if vi < len(a["variants"]) else []
                        for (n, ty, *_), x in zip(fs, vs): self.need(b, ln, f"field {n}", x, self.typed(ty, n), ctx)
                        v = "T"
                    else: v = vs[0] if len(vs) == 1 else "T"
                else: v = "T"
            else: v = "T"
            self.write(b, env, p, v, ln, ctx)
        t = bb[1]
        if t[0] == "call": self.write(b, env, t[3], self.call(b, env, t, ctx), t[5], ctx)

    def call(self, b, env, t, ctx):
        d, r, rec = callee(t)
        if rec is None: return "T"
        args = [self.read(b, env, x) for x in t[2]]
        n = d.split("::")[-1]; ln = t[5]
        dty = b.ty(pl(t[3])[0]) if not pl(t[3])[1] else ""
        dt = ttype(dty)
        if "tempoch" in d.split("<")[0] or d.startswith("tempoch"):
            x = flat(args[0]) if args else None
            if n in ("new", "try_new", "from_raw", "new_unchecked") and "Time" in d:
                # the TT-typed instant also carries UT1 and UTC (the crate's convention): the label goes on and is
                # judged where the instant is used or returned
                if dt and dt[0].isupper() and len(dt[0]) > 1: self.need(b, ln, "constructor", x, ("S", x[1] if lab(x) and dt[0] == "TT" else dt[0], dt[1]), ctx)
                # a day count of unknown origin takes the label of its type, except in the TT carrier
                return x if lab(x) else (("S",) + dt if dt and dt[0] != "TT" else "T")
            if n in ("to_scale", "to_with", "try_to_scale", "try_to_with"): return ("S",) + dt if dt else "T"
            if n in ("to", "try_to"): return ("S", x[1], dt[1] if dt else None) if lab(x) else "T"
            if n == "julian_centuries": self.need(b, ln, "centuries since J2000", x, ("S", "TT" if not lab(x) or x[1] != "TDB" else "TDB", None), ctx); return "T"
            if n in ("raw", "value", "add_duration"): return x
            if n == "difference" and len(args) > 1: return self.bin(b, "Sub", args[0], args[1], ln, ctx)
            if "Interval" in d:
                if n == "new": return join(flat(args[0]), flat(args[1]))
                return args[0] if dt else "T"
            return ("S",) + dt if dt and dt[0] != "TT" else "T"
        if "Quantity" in d and "qtty" in d:
            return args[0] if n in ("new", "value", "raw", "to", "new_const") and args else "T"
        tid = rec.get("id")
        if tid in self.db.bodies:
            c = self.db.bodies[tid]
            for i, x in enumerate(args):
                if i + 1 <= c.argc and i + 1 in c.names:
                    self.need(b, ln, f"argument {c.names[i + 1]} of {n}", x, self.param(c, i + 1), ctx)
            if c.kind == "fn" and c.id not in self.stack:
                return self.fn(c, [x if not (isinstance(x, tuple) and x[0] == "c") else "T" for x in args], ctx + ((b.path, ln),))
            return "T"
        for x in self.cg.targets(t)[:12]:
            c = self.db.bodies[x]
            for i, y in enumerate(args):
                if i + 1 <= c.argc and i + 1 in c.names:
                    self.need(b, ln, f"argument {c.names[i + 1].lstrip('_')} of {n}", y, self.param(c, i + 1), ctx)
        k = contract(n)
        if k: return ("S", k, dt[1] if dt else None)
        tr = rec.get("t", "")
        if tr.startswith(("core::ops", "core::cmp")) and len(args) == 2:
            op = {"add": "Add", "sub": "Sub", "lt": "Lt", "gt": "Gt", "le": "Le", "ge": "Ge", "partial_cmp": "Lt", "cmp": "Lt", "eq": "Eq"}.get(n)
            if op == "Sub" and lab(flat(args[0])) and not lab(flat(args[1])) and dt: return args[0]
            if op == "Add" and lab(flat(args[0])) and dt: return args[0]
            if op: return self.bin(b, op, args[0], args[1], ln, ctx)
        if n in ("max", "min", "clamp") and len(args) > 1:
            for y in args[1:]: self.bin(b, "Lt", args[0], y, ln, ctx)
        if n in KEEP and args: return args[0]
        return ("S",) + dt if dt and dt[0] != "TT" and dt[0].isupper() and len(dt[0]) > 1 else "T"
