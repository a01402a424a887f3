"""Call semantics for the relational interpreter: standard-library containers, strings, options, iterators; crate calls inline."""
import re, time
from mir import pl, callee
from safe import atoms_of, Safe, State, I, B, S, O, E, K, A, add, sub, scale, atom, eqf, opaque, strip, islist, TYR, LEN, UNIT, _desc

IDENT = {"deref", "as_ref", "as_str", "as_bytes", "as_slice", "borrow", "clone", "to_string", "to_owned", "into", "from", "copied", "cloned", "as_deref", "into_owned", "to_vec", "into_bytes", "into_boxed_slice", "into_vec", "into_string",
         "must_use", "by_ref", "peekable", "fuse", "unescape", "as_path", "into_inner_", "identity", "black_box", "as_mut_slice", "deref_mut", "borrow_mut", "as_mut_str", "box_assume_init_into_vec_unsafe", "into_boxed_str"}
PANICKY = {"panic", "panic_fmt", "panic_str", "panic_display", "panic_explicit", "assert_failed", "unreachable_display", "panic_nounwind", "unwrap_failed", "expect_failed", "panic_const", "unreachable_default_msg", "begin_panic", "panic_str_2015", "assert_failed_matches"}
INPUT = {"parse", "from_le_bytes", "from_be_bytes", "from_ne_bytes", "from_str_radix", "from_str"}
CHRONO_PANIC = {"from_ymd", "from_yo", "from_hms", "and_hms", "and_hms_nano", "and_hms_milli", "and_hms_micro", "from_num_days_from_ce", "days", "weeks", "hours", "minutes", "seconds", "milliseconds", "with_ymd_and_hms_unwrap", "ymd", "timestamp"}


def utf8len(c): return len(chr(c).encode("utf8", "surrogatepass"))


def some(n, v, fs=(), fn=()): return E((0, S(n + ("none",)), tuple(fn)), (1, S(n + ("some",), {0: v}), tuple(fs)))
def okv(n, v, fs=(), fe=()): return E((0, S(n + ("ok",), {0: v}), tuple(fs)), (1, S(n + ("err",)), tuple(fe)))


class Engine(Safe):
    def __init__(self, *a, **k):
        super().__init__(*a, **k); self.frids = {}; self.memo = {}
        self.adtof = {x["path"]: x for x in self.db.adts} if isinstance(self.db.adts, list) else self.db.adts
        self.entries = []; self.recs = set(); self.skipped = set(); self.generic = False

    def frame(self, key):
        return self.frids.setdefault(key, len(self.frids) + 1)

    # ---------------- helpers
    def deref(self, v, st):
        n = 0
        while v[0] == "R" and n < 5: v = self.load(v, st); n += 1
        return v

    def aslist(self, v, st, name):
        v = self.deref(v, st)
        if v[0] == "O": return v
        if v[0] == "S" and not v[2]: return O(("v", v[1]))
        return O(("v", name))

    def asopt(self, v, st, res=False):
        """an enum view of an Option/Result value; variants as in the type"""
        v = self.deref(v, st)
        if v[0] == "E": return v
        i = v[1] if v[0] == "S" else v
        if res:
            return E((0, S(("pk", i), {0: S(("fld", i, 0, 0))}), (("var", i, 0),)), (1, S(("pe", i), {0: S(("fld", i, 1, 0))}), (("var", i, 1),)))
        return E((0, S(("pn", i)), (("var", i, 0),)), (1, S(("ps", i), {0: S(("fld", i, 1, 0))}), (("var", i, 1),)))

    def variant(self, e, vi):
        for x in e[1]:
            if x[0] == vi: return x[1], x[2]
        return None, (("false",),)

    def payload(self, s, ty=None):
        if s is None: return S(("dead",))
        d = dict(s[2]) if s[0] == "S" else {}
        v = d.get(0, UNIT)
        return self.typed(v, ty) if ty else v

    def choose(self, st, alts, name):
        """value that is v_i when facts_i hold"""
        ss = []
        for fs, v in alts:
            s = st.copy()
            for f in fs: s.put(f)
            if s.dead: continue
            s.env[("tmp", 0)] = v; ss.append(s)
        if not ss: return S(name), st
        j = self.join(ss, name, False)
        v = j.env.pop(("tmp", 0), S(name))
        return v, j

    def invoke(self, f, args, st, fr, name, ctx, obl, many=False):
        """call a closure or function value; returns (value, new facts learned)"""
        f = self.deref(f, st)
        if many: self.havoc(f, st, name + ("cap",))
        bid = f[1] if f[0] == "C" else (f[1].get("id") if f[0] == "F" else None)
        if f[0] == "F": 
            v = self.builtin_fn(f[1], args, st, name)
            if v is not None: return v, ()
        b = self.db.bodies.get(bid) if bid else None
        if b is None or bid in self.stack or len(self.stack) > self.maxframes: 
            for a in args: self.havoc(a, st, name)
            return S(name + ("cv",)), ()
        nf = self.frame((fr, name, bid))
        self.stack.append(bid)
        s0 = st.copy()
        cargs = ([f] if f[0] == "C" else []) + list(args)
        if f[0] == "C" and b.argc == 2 and len(args) > 1 and b.d.get("tupled"): cargs = [f, S(name, dict(enumerate(args)))]
        v, s1, o = self.run(b, cargs, s0, nf, ctx + ((b.path, b.span[1]),))
        self.stack.pop()
        obl.extend(o)
        if many: self.havoc(f, st, name + ("cap2",))
        else:
            # mutations of captured cells
            self.havoc(f, st, name + ("cap3",))
        if s1 is None: return ("N",), (("false",),)
        fs = tuple(("ge", g) for g in s1.ge - st.ge) + tuple(s1.tags - st.tags)
        return v, fs

    def builtin_fn(self, rec, args, st, name):
        n = rec["p"].split("::")[-1]
        if n in IDENT and args: return self.deref(args[0], st)
        if n == "parse": return S(("in", name))
        if n in ("trim", "trim_end", "trim_start"): return self.trim(self.aslist(args[0], st, name), st, name, n)
        if n == "is_ascii_digit" and args and self.deref(args[0], st)[0] == "I":
            x = self.deref(args[0], st)[1]; return B((("ge", sub(x, K(48))), ("ge", sub(K(57), x))))
        return None

    def const(self, b, k):
        if "fn" in k: return ("F", k["fn"]) if False else ("F", Rec(k["fn"]))
        return super().const(b, k)

    def trim(self, o, st, name, n):
        a = K(0) if n.startswith(("trim_end", "trim_right")) else A(atom(("v", name + ("ta",)), LEN)); l = A(atom(("v", name + ("tl",)), LEN))
        if n.startswith(("trim_start", "trim_left")):      # what is kept is a suffix
            st.put(("ge", sub(o[3], a))); l = sub(o[3], a)
        else: st.put(("ge", sub(sub(o[3], l), a)))
        st.put(("bd", o[1], add(o[2], a))); st.put(("bd", o[1], add(add(o[2], a), l)))
        return ("O", o[1], add(o[2], a), l)

    def pat(self, v, st, raw):
        """length of a pattern if it is a known char or string; (len or None, min len)"""
        v = self.deref(v, st)
        if v[0] == "I" and not v[1][1]: return K(utf8len(v[1][0]))
        if v[0] == "O": return v[3]
        return None

    def litasc(self, v, st):
        v = self.deref(v, st)
        return v[0] == "I" and not v[1][1] and v[1][0] < 128 or v[0] == "O" and self.ascii(v, st)

    # ---------------- iterators
    def asit(self, v, ty, st, name):
        v = self.deref(v, st)
        if v[0] == "IT": return v
        t = strip(ty)
        if t.startswith("core::ops::range::Range<"): return ("IT", "range", self.lin(self.field(v, None, 0, "usize", st), name), self.lin(self.field(v, None, 1, "usize", st), name + (1,)))
        if t.startswith("core::ops::range::RangeInclusive<"): return ("IT", "range", self.lin(self.field(v, None, 0, "usize", st), name), add(self.lin(self.field(v, None, 1, "usize", st), name + (1,)), K(1)))
        if t.startswith("core::ops::range::RangeFrom<"): return ("IT", "from", self.lin(self.field(v, None, 0, "usize", st), name))
        if v[0] == "O": return ("IT", "seq", v)
        if islist(t): return ("IT", "seq", self.aslist(v, st, name))
        return ("IT", "any")

    def itlen(self, it, st):
        if it[1] in ("range", "rrange"):
            d = sub(it[3], it[2]); return d if st.prove(d) else None
        if it[1] == "seq": return it[2][3]
        if it[1] == "enum": return self.itlen(it[2], st)
        if it[1] == "len": return it[2]
        return None

    def itmax(self, it, st):
        """upper bound of the number of items"""
        if it[1] in ("range", "rrange", "seq"): return self.itlen(it, st)
        if it[1] in ("enum",): return self.itmax(it[2], st)
        if it[1] == "len": return it[2]
        if it[1] == "upto": return it[2]
        return None

    def item(self, it, st, name, fs):
        k = it[1]
        if k in ("range", "rrange"):
            i = A(atom(("v", name + ("i",)), (0, 2**64 - 1) if st.prove(it[2]) else (-2**63, 2**64 - 1)))
            fs += [("ge", sub(i, it[2])), ("ge", sub(sub(it[3], i), K(1)))]
            return I(i)
        if k == "from":
            i = A(atom(("v", name + ("i",)), (0, 2**64 - 1))); fs.append(("ge", sub(i, it[2]))); return I(i)
        if k == "enum":
            i = A(atom(("v", name + ("e",)), (0, 2**40)))
            n = self.itmax(it[2], st)
            if n is not None: fs.append(("ge", sub(sub(n, i), K(1))))
            if it[2][1] == "chunk" and not it[2][2][1]:
                k = it[2][2][0]; fs.append(("ge", sub(sub(it[2][3][3], scale(i, 1 if it[2][5] else k)), K(k if it[2][4] else 1))))
            return S(name + ("en",), {0: I(i), 1: self.item(it[2], st, name + ("x",), fs)})
        if k == "zip": return S(name + ("z",), {0: self.item(it[2], st, name + ("l",), fs), 1: self.item(it[3], st, name + ("r",), fs)})
        if k == "chunk":
            k, o, exact = it[2], it[3], it[4]
            l = A(atom(("v", name + ("cl",)), LEN)); fs += [("ge", sub(l, K(1))), ("ge", sub(k, l))]
            return ("O", ("sub", o[1], name), K(0), k if exact else l)
        if k == "subs":
            o = O(("sub", it[2][1], name)); fs.append(("ge", sub(it[2][3], o[3])))
            if it[3]: fs.append(("ge", sub(o[3], K(1))))
            return o
        if k == "chars": return I(A(atom(("v", name + ("c",)), TYR["char"])))
        if k == "ascchars":
            return I(A(atom(("v", name + ("c",)), (0, 127))))
        if k == "bytes": return I(A(atom(("v", name + ("b",)), (0, 255))))
        if k == "cidx":
            i = A(atom(("v", name + ("ci",)), LEN)); o = it[2]
            fs += [("ge", sub(sub(o[3], i), K(1))), ("bd", o[1], add(o[2], i))]
            return S(name + ("cp",), {0: I(i), 1: I(A(atom(("v", name + ("c",)), TYR["char"])))})
        if k == "val": return it[2]
        return S(name + ("it",))

    # ---------------- indexing
    def rng(self, v, ty, o, st, name):
        """(start, end) of a range value over list o, or None"""
        t = strip(ty); n = t.split("<")[0].split("::")[-1]
        f = lambda i: self.lin(self.field(v, None, i, "usize", st), name + (i,))
        if n == "Range": return f(0), f(1)
        if n == "RangeFrom": return f(0), o[3]
        if n == "RangeTo": return K(0), f(0)
        if n == "RangeFull": return K(0), o[3]
        if n == "RangeInclusive": return f(0), add(f(1), K(1))
        if n == "RangeToInclusive": return K(0), add(f(0), K(1))
        return None

    def slice(self, o, a, e): return ("O", o[1], add(o[2], a), sub(e, a))

    def isstr(self, b, op, ga):
        t = strip(ga[0]) if ga else self.opty(b, op)
        return t in ("str", "alloc::string::String") or t.startswith("alloc::borrow::Cow<")

    # ---------------- calls
    def call(self, b, fr, st, bi, t, ctx, obl):
        d, r, rec = callee(t)
        args = [self.operand(b, fr, st, x) for x in t[2]]
        ln = t[5]; name = ("c", fr, bi)
        dty = b.ty(pl(t[3])[0]) if not pl(t[3])[1] else None
        def out(v, s=st): return v, s
        def need(what, ok, why=""):
            if not ok and not why and not what.startswith(("unwrap", "expect", "panic")):
                at = set()
                for a in args: atoms_of(self.deref(a, st), at)
                why = self.unknown(at)
            self.need(b, bi, ln, what, ok, ctx, obl, why)
        if rec is None:
            f = args and None
            fv = self.operand(b, fr, st, t[1])
            if fv[0] in ("C", "F"):
                v, fs = self.invoke(fv, args, st, fr, name, ctx, obl)
                for f in fs: st.put(f)
                return out(v)
            for a in args: self.havoc(a, st, name)
            return out(opaque(name, dty or "()"))
        n = d.split("::")[-1]; ga = rec["a"]
        tid = rec.get("id")
        if tid in self.db.bodies and self.db.bodies[tid].path.startswith("siderust::") or tid in self.db.bodies and "siderust" in tid:
            return self.crate_call(b, fr, st, bi, t, ctx, obl, rec, tid, args, name, dty)
        if n in PANICKY or d.startswith("core::panicking"):
            need(f"{n} is unreachable", False); return S(name), None
        if n in ("call_once", "call_mut", "call") and "function::Fn" in d:
            tup = self.deref(args[1], st) if len(args) > 1 else UNIT
            f = self.deref(args[0], st)
            xs = [x for _, x in tup[2]] if tup[0] == "S" else []
            if f[0] in ("C", "F"):
                v, fs = self.invoke(f, xs, st, fr, name, ctx, obl)
                for x in fs: st.put(x)
                if v == ("N",): return S(name), None
                return out(self.typed(v, dty) if dty else v)
            for a in args: self.havoc(a, st, name)
            return out(opaque(name, dty or "()"))
        h = getattr(self, "x_" + n, None)
        if h is not None:
            z = h(b, fr, st, bi, t, d, ga, args, name, dty, need, ctx, obl)
            if z is not None:
                v, s = z
                return (self.typed(v, dty) if dty and v[0] == "S" else v), s
        if n in IDENT and args:
            v = args[0]
            if n in ("deref_mut", "as_mut_slice", "borrow_mut", "by_ref", "as_mut_str"): return out(v)
            v = self.deref(v, st)
            if n in ("into", "from", "to_string", "into_owned") and v[0] not in ("O", "I"): return out(opaque(name, dty or "()"))
            if n == "to_string" and v[0] == "I": return out(opaque(name, dty))
            if n in ("into", "from") and v[0] == "I" and dty and strip(dty) not in TYR: return out(opaque(name, dty))
            return out(v)
        if "chrono" in d and (n in CHRONO_PANIC and "Timelike" not in d and "Datelike" not in d and n != "timestamp"): need(f"{n} may panic on out-of-range values", False)
        if d.startswith("core::ops::arith::") and ga and any("chrono" in x for x in ga) and any("TimeDelta" in x for x in ga): need("chrono arithmetic cannot overflow", False)
        # unknown: closures run on unknown values, mutable references are forgotten
        for i, a in enumerate(args):
            x = self.deref(a, st)
            if x[0] == "C":
                cb = self.db.bodies.get(x[1])
                if cb is not None: self.invoke(x, [None] * (cb.argc - 1), st, fr, name + ("g", i), ctx, obl, many=True)
        for i, a in enumerate(args): self.havoc(a, st, ("unk",) + name + (i,))
        return out(opaque(("in", name) if n in INPUT else ("unk",) + name, dty or "()"))

    def crate_call(self, b, fr, st, bi, t, ctx, obl, rec, tid, args, name, dty):
        c = self.db.bodies[tid]
        if c.id in self.stack: return self.recursive(b, fr, st, bi, t, ctx, obl, c, args, name, dty)
        if len(self.stack) > self.maxframes or not self.inline(c) or (self.deadline and time.time() > self.deadline):
            for i, a in enumerate(args): self.havoc(a, st, ("unk",) + name + (i,))
            self.skipped.add((c.id, "covered" if not self.inline(c) else "limit"))
            return opaque(("unk",) + name, dty or "()"), st
        if c.kind == "const": return opaque(name, dty or "()"), st
        if c.kind == "closure" and len(args) == 2:        # called through Fn*: the arguments come as a tuple
            tup = self.deref(args[1], st)
            args = [self.deref(args[0], st)] + [x for _, x in tup[2]] if tup[0] == "S" and len(tup[2]) == c.argc - 1 else [self.deref(args[0], st)]
            for x in args: self.havoc(x, st, name + ("clo",))
        nf = self.frame((fr, bi, tid))
        self.stack.append(c.id); self.entries.append([self.deref(a, st) for a in args])
        v, s1, o = self.run(c, args, st, nf, ctx + ((b.path, t[5]),))
        self.stack.pop(); self.entries.pop()
        obl.extend(o)
        if s1 is None: return S(name), None
        return v, s1

    # ---- recursion: a struct behind &mut keeps "its index is a position in its text", a counter bounds the depth
    def cursor(self, ty):
        """(text field, index fields) of a cursor struct: one str/slice field and usize fields"""
        m = re.match(r"^&mut ([\w:]+)", ty)
        a = self.adtof.get(m.group(1)) or self.adtof.get("siderust::" + m.group(1)) if m else None
        if a is None or a["kind"] != "Struct": return None
        fs = a["variants"][0][1]
        tx = [i for i, f in enumerate(fs) if re.match(r"^&('\w+ )?(str|\[\w+\])$", f[1])]
        ix = [i for i, f in enumerate(fs) if f[1] == "usize"]
        return (a, tx[0], ix) if len(tx) == 1 and ix and len(fs) == len(tx) + len(ix) else None

    def fieldof(self, r, cur, i, st):
        s = self.deref(r, st)
        return self.field(s, None, i, re.sub(r"'\w+ ", "", cur[0]["variants"][0][1][i][1]), st)

    def inv(self, r, cur, st):
        tx = self.deref(self.fieldof(r, cur, cur[1], st), st)
        for i in cur[2]:
            x = self.fieldof(r, cur, i, st)
            if tx[0] != "O" or x[0] != "I" or not st.prove(sub(tx[3], x[1])): return False
            if "str" in cur[0]["variants"][0][1][cur[1]][1] and not self.boundary(tx, x[1], st): return False
        return True

    def assume_inv(self, r, cur, st):
        tx = self.deref(self.fieldof(r, cur, cur[1], st), st)
        for i in cur[2]:
            x = self.fieldof(r, cur, i, st)
            st.put(("ge", sub(tx[3], x[1]))); st.put(("bd", tx[1], add(tx[2], x[1])))

    def written(self, adt, idx):
        """is the field ever assigned or mutably borrowed outside the struct's construction?"""
        if self._written is None:
            w = Engine._written = set()
            for b in self.db.bodies.values():
                for bb in filter(None, b.blocks):
                    ps = [p for p, _, _ in bb[0]] + [r[2] for _, r, _ in bb[0] if r[0] in ("ref", "addr") and r[1] != "shared"]
                    if bb[1][0] == "call": ps.append(bb[1][3])
                    for p in ps:
                        l, pr = pl(p)
                        for e in pr:
                            if e != "*" and e[0] == ".": w.add((e[3], e[1]))
                        if pr and pr[-1] == "*": w.add(("whole", strip(b.ty(l))))
        return (adt, idx) in self._written or any(t[0] == "whole" and t[1].split("<")[0] == adt for t in self._written)
    _written = None

    def recursive(self, b, fr, st, bi, t, ctx, obl, c, args, name, dty):
        k = len(self.stack) - 1 - self.stack[::-1].index(c.id)
        entry = self.entries[k]
        self.recs.add(c.id)
        vals = [self.deref(a, st) for a in args]
        ok = False
        for x, y in zip(entry, vals):
            if x[0] == "I" and y[0] == "I":
                gen = k == 0 and self.generic
                if st.prove(sub(sub(x[1], y[1]), K(1))) and st.prove(y[1]) and (gen or st.prove(sub(K(4096), x[1]))): ok = True
                if st.prove(sub(sub(y[1], x[1]), K(1))) and st.prove(sub(K(4096), y[1])): ok = True
        self.need(b, bi, t[5], "recursion is depth-bounded", ok, ctx, obl)
        for i, a in enumerate(args):
            cur = self.cursor(c.ty(i + 1)) if a[0] == "R" else None
            if cur is None: self.havoc(a, st, name + (i,)); continue
            self.need(b, bi, t[5], "cursor stays inside its text at the recursive call", self.inv(a, cur, st), ctx, obl)
            s = self.deref(a, st)
            if s[0] != "S": self.havoc(a, st, name + (i,)); continue
            fs = {j: opaque(name + (i, j), "usize") for j in cur[2]}
            fs[cur[1]] = opaque(name + (i, "text"), "str") if self.written(cur[0]["path"], cur[1]) else self.fieldof(a, cur, cur[1], st)
            tgt = a
            while self.load(tgt, st)[0] == "R": tgt = self.load(tgt, st)
            st.env[tgt[1]] = self.update(st.env[tgt[1]], list(tgt[2]), S(s[1], fs), st)
            self.assume_inv(a, cur, st)
        return opaque(name, dty or "()"), st

    def root(self, b, generic=False):
        """analyse b from an unconstrained entry; a recursive function assumes and must re-establish its cursor's invariant"""
        self.stack = [b.id]; self.generic = generic; self.recs = set(); self.skipped = set()
        st = State(); args = []; curs = []
        for i in range(1, b.argc + 1):
            cur = self.cursor(b.ty(i)) if generic else None
            if cur is None: args.append(None if b.ty(i) not in TYR else opaque(("arg", "root", i), b.ty(i))); continue
            cell = ("root", i)
            st.env[cell] = S(("cur", i)); r = ("R", cell, ())
            args.append(r); curs.append((r, cur)); self.assume_inv(r, cur, st)
        self.entries = [[self.deref(a, st) if a is not None else UNIT for a in args]]
        v, s, o = self.run(b, args, st, self.frame(("root", b.id)), ())
        if s is not None:
            for r, cur in curs: self.need(b, 0, b.span[1], "cursor stays inside its text on return", self.inv(r, cur, s), (), o)
        return v, s, o


    # ---- options and results
    def x_branch(self, b, fr, st, bi, t, d, ga, args, name, dty, need, ctx, obl):
        res = "Result<" in ga[0].split("<")[0] + "<"
        e = self.asopt(args[0], st, res)
        if res: return E(*[(vi, s if vi == 0 else S(name + ("brk",)), fs) for vi, s, fs in e[1]]), st
        return E(*[(1 - vi, s if vi == 1 else S(name + ("brk",)), fs) for vi, s, fs in e[1]]), st

    def x_from_residual(self, b, fr, st, bi, t, d, ga, args, name, dty, need, ctx, obl):
        if ga and ga[0].startswith("core::result::Result"): return E((1, S(name), ())), st
        if ga and ga[0].startswith("core::option::Option"): return E((0, S(name), ())), st

    def x_unwrap(self, b, fr, st, bi, t, d, ga, args, name, dty, need, ctx, obl):
        res = "Result::<" in d
        if not res and "Option::<" not in d: return None
        bad_ok = d.endswith("_err")
        e = self.asopt(args[0], st, res)
        good, bad = (0, 1) if res else (1, 0)
        if bad_ok: good, bad = bad, good
        s, fs = self.variant(e, good); _, fb = self.variant(e, bad)
        v = self.deref(args[0], st)
        known = v[0] == "S" and ("var", v[1], good) in st.tags
        need(f"{d.split('::')[-1]} cannot fail", known or self.refuted(fb, st))
        for f in fs: st.put(f)
        if st.dead: return S(name), None
        return self.payload(s, dty), st
    x_expect = x_unwrap; x_unwrap_err = x_unwrap; x_expect_err = x_unwrap

    def _is(self, args, st, res, vi):
        e = self.asopt(args[0], st, res)
        _, T = self.variant(e, vi); _, F = self.variant(e, 1 - vi)
        return ("B", tuple(T), tuple(F)), st
    def x_is_some(self, b, fr, st, bi, t, d, ga, args, *r): return self._is(args, st, False, 1)
    def x_is_none(self, b, fr, st, bi, t, d, ga, args, *r): return self._is(args, st, False, 0)
    def x_is_ok(self, b, fr, st, bi, t, d, ga, args, *r): return self._is(args, st, True, 0)
    def x_is_err(self, b, fr, st, bi, t, d, ga, args, *r): return self._is(args, st, True, 1)

    def x_ok(self, b, fr, st, bi, t, d, ga, args, name, *r):
        e = self.asopt(args[0], st, True); s, fs = self.variant(e, 0); _, fe = self.variant(e, 1)
        return E((0, S(name), fe), (1, S(name + (1,), {0: self.payload(s)}), fs)), st
    def x_err(self, b, fr, st, bi, t, d, ga, args, name, *r):
        e = self.asopt(args[0], st, True); _, fs = self.variant(e, 0); s, fe = self.variant(e, 1)
        return E((0, S(name), fs), (1, S(name + (1,), {0: self.payload(s)}), fe)), st
    def x_ok_or(self, b, fr, st, bi, t, d, ga, args, name, *r):
        e = self.asopt(args[0], st); s, fs = self.variant(e, 1); _, fn = self.variant(e, 0)
        return okv(name, self.payload(s), fs, fn), st
    def x_ok_or_else(self, b, fr, st, bi, t, d, ga, args, name, dty, need, ctx, obl):
        e = self.asopt(args[0], st); s, fs = self.variant(e, 1); _, fn = self.variant(e, 0)
        s2 = st.copy()
        for f in fn: s2.put(f)
        if not s2.dead: self.invoke(args[1], [], s2, fr, name + ("f",), ctx, obl)
        return okv(name, self.payload(s), fs, fn), st
    def x_map_err(self, b, fr, st, bi, t, d, ga, args, name, dty, need, ctx, obl):
        if "Result" not in d: return None
        e = self.asopt(args[0], st, True); s, fs = self.variant(e, 0); s1, fe = self.variant(e, 1)
        s2 = st.copy()
        for f in fe: s2.put(f)
        if not s2.dead: self.invoke(args[1], [self.payload(s1)], s2, fr, name + ("f",), ctx, obl)
        return okv(name, self.payload(s), fs, fe), st
    def x_or_else(self, b, fr, st, bi, t, d, ga, args, name, dty, need, ctx, obl):
        s2 = st.copy(); self.invoke(args[1], [None], s2, fr, name + ("f",), ctx, obl)
        self.havoc(args[1], st, name)
        return None

    def optmap(self, b, fr, st, d, args, name, ctx, obl, flat, fidx=1):
        res = "Result" in d.split("::<")[0]
        good = 0 if res else 1
        e = self.asopt(args[0], st, res); s, fs = self.variant(e, good); sb, fb = self.variant(e, 1 - good)
        s2 = st.copy()
        for f in fs: s2.put(f)
        if s2.dead or s is None: return E((1 - good, sb if sb is not None else S(name), fb)), st
        v, nf = self.invoke(args[fidx], [self.payload(s)], s2, fr, name + ("f",), ctx, obl)
        self.havoc(args[fidx], st, name + ("h",))
        if v == ("N",): return E((1 - good, sb if sb is not None else S(name), fb)), st
        if flat:
            v = self.asopt(v, st, res); g, gf = self.variant(v, good)
            return E((1 - good, S(name), ()), (good, g if g is not None else S(name + (1,)), tuple(fs) + tuple(nf) + tuple(gf))), st
        return E((1 - good, sb if sb is not None else S(name), fb), (good, S(name + (1,), {0: v}), tuple(fs) + tuple(nf))), st
    def x_map(self, b, fr, st, bi, t, d, ga, args, name, dty, need, ctx, obl):
        if "Option::<" in d or "Result::<" in d: return self.optmap(b, fr, st, d, args, name, ctx, obl, False)
        if "Iterator" in d: return self.itmap(b, fr, st, ga, args, name, ctx, obl, True)
    def x_and_then(self, b, fr, st, bi, t, d, ga, args, name, dty, need, ctx, obl):
        if "Option::<" in d or "Result::<" in d: return self.optmap(b, fr, st, d, args, name, ctx, obl, True)
    def x_filter(self, b, fr, st, bi, t, d, ga, args, name, dty, need, ctx, obl):
        if "Option" in d:
            e = self.asopt(args[0], st); s, fs = self.variant(e, 1)
            s2 = st.copy()
            for f in fs: s2.put(f)
            if s2.dead: return E((0, S(name), ())), st
            v, nf = self.invoke(args[1], [self.payload(s)], s2, fr, name + ("f",), ctx, obl)
            tf = v[1] if v[0] == "B" else ()
            return E((0, S(name), ()), (1, s, tuple(fs) + tuple(nf) + tuple(tf))), st
        it = self.asit(args[0], ga[0] if ga else "", st, name)
        f = []; x = self.item(it, st, name + ("fi",), f); s2 = st.copy()
        for q in f: s2.put(q)
        if not s2.dead: self.invoke(args[1], [x], s2, fr, name + ("f",), ctx, obl, many=True)
        self.havoc(args[1], st, name)
        m = self.itmax(it, st)
        return (it if it[1] in ("range", "subs", "chars", "cidx", "bytes", "chunk") else ("IT", "any")), st
    def x_unwrap_or(self, b, fr, st, bi, t, d, ga, args, name, dty, need, ctx, obl):
        res = "Result::<" in d; good = 0 if res else 1
        e = self.asopt(args[0], st, res); s, fs = self.variant(e, good); _, fb = self.variant(e, 1 - good)
        return self.choose(st, [(fs, self.payload(s, dty)), (fb, self.deref(args[1], st))], name)
    def x_unwrap_or_else(self, b, fr, st, bi, t, d, ga, args, name, dty, need, ctx, obl):
        res = "Result::<" in d; good = 0 if res else 1
        e = self.asopt(args[0], st, res); s, fs = self.variant(e, good); sb, fb = self.variant(e, 1 - good)
        s2 = st.copy()
        for f in fb: s2.put(f)
        if s2.dead: return self.payload(s, dty), st
        v, nf = self.invoke(args[1], [self.payload(sb)] if res else [], s2, fr, name + ("f",), ctx, obl)
        if v == ("N",): 
            for f in fs: st.put(f)
            return self.payload(s, dty), st
        return self.choose(st, [(fs, self.payload(s, dty)), (tuple(fb) + tuple(nf), self.typed(v, dty) if dty else v)], name)
    def x_unwrap_or_default(self, b, fr, st, bi, t, d, ga, args, name, dty, need, ctx, obl):
        res = "Result::<" in d; good = 0 if res else 1
        e = self.asopt(args[0], st, res); s, fs = self.variant(e, good); _, fb = self.variant(e, 1 - good)
        ty = strip(dty or "()")
        dv = I(K(0)) if ty in TYR else ("O", ("lit", ""), K(0), K(0)) if islist(ty) and not re.search(r"; \d+\]$", ty) else S(name + ("def",))
        return self.choose(st, [(fs, self.payload(s, dty)), (fb, dv)], name)
    def x_as_mut(self, b, fr, st, bi, t, d, ga, args, name, dty, *r):
        self.havoc(args[0], st, name); return opaque(name, dty or "()"), st
    def x_as_ref(self, b, fr, st, bi, t, d, ga, args, name, *r): return self.deref(args[0], st), st
    def x_take(self, b, fr, st, bi, t, d, ga, args, name, dty, *r):
        if "Iterator" in d:
            it = self.asit(args[0], ga[0] if ga else "", st, name); m = self.itmax(it, st)
            nn = self.deref(args[1], st)
            if nn[0] == "I" and it[1] in ("any", "from", "subs", "chars"): return ("IT", "upto", nn[1]) if it[1] == "any" else it, st
            return it, st
        if args[0][0] == "R":
            v = self.load(args[0], st); self.havoc(args[0], st, name)
            return v, st
    x_replace = lambda self, b, fr, st, bi, t, d, ga, args, name, dty, *r: self.x_take(b, fr, st, bi, t, d, ga, args, name, dty) if "mem::replace" in d else None

    # ---- lists and strings
    def x_len(self, b, fr, st, bi, t, d, ga, args, name, *r):
        v = self.deref(args[0], st)
        if v[0] == "IT":
            l = self.itlen(v, st); return (I(l), st) if l is not None else None
        if "HashMap" in d or "BTree" in d or "HashSet" in d: return I(A(atom(("len", v), LEN))), st
        return I(self.aslist(v, st, name)[3]), st
    def x_is_empty(self, b, fr, st, bi, t, d, ga, args, name, *r):
        v = self.deref(args[0], st)
        if "HashMap" in d or "BTree" in d or "HashSet" in d or "Range" in d: return None
        l = self.aslist(v, st, name)[3]
        return ("B", eqf(l, K(0)), (("ge", sub(l, K(1))),)), st
    def x_new(self, b, fr, st, bi, t, d, ga, args, name, *r):
        if re.search(r"(Vec|String|VecDeque)(::<.*>)?::new$", d) : return ("O", ("v", name), K(0), K(0)), st
        if "RangeInclusive" in d: return S(name, {0: args[0], 1: args[1]}), st
    def x_with_capacity(self, b, fr, st, bi, t, d, ga, args, name, dty, need, *r):
        v = self.deref(args[0], st)
        if v[0] == "I" and any(self.taintedv(a) for a, _ in v[1][1]): need("allocation size is bounded", self.sized(v[1], st))
        return ("O", ("v", name), K(0), K(0)), st

    def sized(self, l, st):
        """a size below a megabyte, or bounded by a small multiple of the length of something already in memory"""
        if self.bounds(l, st)[1] <= 2**20 or st.prove(sub(K(2**20), l)): return True
        ms = {a for f in st.ge for a, _ in f[1] if _desc[a][0] == "len" and not self.taintedv(a)}
        return any(st.prove(add(sub(scale(A(m), 16), l), K(2**20))) for m in ms)
    def x_from_elem(self, b, fr, st, bi, t, d, ga, args, name, dty, need, *r):
        v = self.deref(args[1], st); l = self.lin(v, name)
        if any(self.taintedv(a) for a, _ in l[1]): need("allocation size is bounded", self.sized(l, st))
        return ("O", ("v", name), K(0), l), st
    def taintedv(self, a):
        from safe import tainted
        return tainted(a)
    def x_repeat(self, b, fr, st, bi, t, d, ga, args, name, dty, need, *r):
        v = self.deref(args[1], st) if len(args) > 1 else K(0)
        if v[0] == "I" and any(self.taintedv(a) for a, _ in v[1][1]): need("allocation size is bounded", self.sized(v[1], st))

    def setlist(self, r, st, new):
        if r[0] == "R": st.env[r[1]] = self.update(st.env.get(r[1], S(("cell", r[1], ()))), list(r[2]), new, st)
    def x_push(self, b, fr, st, bi, t, d, ga, args, name, *r):
        if args[0][0] != "R" or "BinaryHeap" in d: return None
        o = self.aslist(args[0], st, name)
        if "String" in d:
            c = self.deref(args[1], st)
            asc = self.ascii(o, st) and c[0] == "I" and st.prove(sub(K(127), c[1]))
            l = A(atom(("v", name + ("pl",)), LEN)); st.put(("ge", sub(sub(l, o[3]), K(1)))); st.put(("ge", sub(add(o[3], K(4)), l)))
            self.setlist(args[0], st, ("O", ("v", ("ascphi" if asc else "p",) + name), K(0), l)); return UNIT, st
        self.setlist(args[0], st, ("O", ("v", name + ("p",)), K(0), add(o[3], K(1))))
        return UNIT, st
    x_push_back = x_push; x_push_front = x_push
    def x_push_str(self, b, fr, st, bi, t, d, ga, args, name, *r):
        if args[0][0] != "R": return None
        o = self.aslist(args[0], st, name); p = self.aslist(args[1], st, name + (1,))
        asc = self.ascii(o, st) and self.ascii(p, st)
        self.setlist(args[0], st, ("O", ("v", ("ascphi" if asc else "p",) + name), K(0), add(o[3], p[3]))); return UNIT, st
    def x_pop(self, b, fr, st, bi, t, d, ga, args, name, *r):
        if args[0][0] != "R": return None
        o = self.aslist(args[0], st, name); l = A(atom(("v", name + ("pl",)), LEN))
        st.put(("ge", sub(o[3], l))); st.put(("ge", add(sub(l, o[3]), K(1))))
        self.setlist(args[0], st, ("O", ("v", name + ("p",)), K(0), l))
        return some(name, S(name + ("e",)), (("ge", sub(o[3], K(1))),) + eqf(l, sub(o[3], K(1))), eqf(o[3], K(0))), st
    x_pop_back = x_pop; x_pop_front = x_pop
    def x_clear(self, b, fr, st, bi, t, d, ga, args, name, *r):
        if args[0][0] != "R" or "Hash" in d or "BTree" in d: return None
        self.setlist(args[0], st, ("O", ("v", name), K(0), K(0))); return UNIT, st
    def x_truncate(self, b, fr, st, bi, t, d, ga, args, name, dty, need, *r):
        if args[0][0] != "R": return None
        o = self.aslist(args[0], st, name); x = self.lin(self.deref(args[1], st), name)
        if "String" in d: need("truncate at a char boundary", self.boundary(o, x, st) if st.prove(sub(o[3], x)) else st.prove(sub(x, o[3])))
        m = self.minmax("min", o[3], x, st)
        self.setlist(args[0], st, ("O", o[1], o[2], m)); return UNIT, st
    def x_extend(self, b, fr, st, bi, t, d, ga, args, name, *r):
        if args[0][0] != "R" or "Hash" in d: return None
        if not ga or not islist(strip(ga[0])): return None
        o = self.aslist(args[0], st, name); l = A(atom(("v", name + ("xl",)), LEN)); st.put(("ge", sub(l, o[3])))
        self.setlist(args[0], st, ("O", ("v", name + ("p",)), K(0), l)); return UNIT, st
    def x_extend_from_slice(self, b, fr, st, bi, t, d, ga, args, name, *r):
        if args[0][0] != "R": return None
        o = self.aslist(args[0], st, name); p = self.aslist(args[1], st, name)
        self.setlist(args[0], st, ("O", ("v", name + ("p",)), K(0), add(o[3], p[3]))); return UNIT, st
    def samelen(self, b, fr, st, bi, t, d, ga, args, name, dty, *r):
        if args[0][0] != "R": return None
        o = self.aslist(args[0], st, name)
        self.setlist(args[0], st, ("O", ("v", name + ("p",)), K(0), o[3])); return None if dty is None else (opaque(name, dty), st)
    def x_sort(self, *a): return self.samelen(*a)
    x_sort_by = x_sort_unstable = x_sort_by_key = x_sort_unstable_by = x_sort_unstable_by_key = x_reverse = x_fill = x_sort
    def x_dedup(self, b, fr, st, bi, t, d, ga, args, name, *r):
        if args[0][0] != "R": return None
        o = self.aslist(args[0], st, name); l = A(atom(("v", name + ("dl",)), LEN)); st.put(("ge", sub(o[3], l)))
        self.setlist(args[0], st, ("O", ("v", name + ("p",)), K(0), l)); return UNIT, st
    x_retain = x_dedup; x_dedup_by = x_dedup; x_dedup_by_key = x_dedup
    def x_resize(self, b, fr, st, bi, t, d, ga, args, name, dty, need, *r):
        if args[0][0] != "R": return None
        l = self.lin(self.deref(args[1], st), name)
        if any(self.taintedv(a) for a, _ in l[1]): need("allocation size is bounded", self.sized(l, st))
        self.setlist(args[0], st, ("O", ("v", name + ("p",)), K(0), l)); return UNIT, st
    def x_remove(self, b, fr, st, bi, t, d, ga, args, name, dty, need, *r):
        if args[0][0] != "R" or "Hash" in d or "BTree" in d: return None
        o = self.aslist(args[0], st, name); x = self.lin(self.deref(args[1], st), name)
        if "VecDeque" not in d: need(f"{d.split('::')[-1]} within bounds", st.prove(sub(sub(o[3], x), K(1))))
        l = A(atom(("v", name + ("rl",)), LEN)); st.put(("ge", sub(o[3], l))); st.put(("ge", add(sub(l, o[3]), K(1))))
        self.setlist(args[0], st, ("O", ("v", name + ("p",)), K(0), l)); return (opaque(name, dty) if dty else S(name)), st
    x_swap_remove = x_remove
    def x_insert(self, b, fr, st, bi, t, d, ga, args, name, dty, need, *r):
        if args[0][0] != "R" or not ("Vec::<" in d or "String" in d): return None
        o = self.aslist(args[0], st, name); x = self.lin(self.deref(args[1], st), name)
        need("insert within bounds", st.prove(sub(o[3], x)) and ("String" not in d or self.boundary(o, x, st)))
        l = A(atom(("v", name + ("il",)), LEN)); st.put(("ge", sub(l, add(o[3], K(1)))))
        self.setlist(args[0], st, ("O", ("v", name + ("p",)), K(0), l)); return UNIT, st
    def x_swap(self, b, fr, st, bi, t, d, ga, args, name, dty, need, *r):
        if "mem::swap" in d: return None
        o = self.aslist(args[0], st, name)
        for i in (1, 2): need("swap within bounds", st.prove(sub(sub(o[3], self.lin(self.deref(args[i], st), name + (i,))), K(1))))
        return self.samelen(b, fr, st, bi, t, d, ga, args, name, dty)
    def x_copy_from_slice(self, b, fr, st, bi, t, d, ga, args, name, dty, need, *r):
        o = self.aslist(args[0], st, name); p = self.aslist(args[1], st, name + (1,))
        need("copy_from_slice of equal lengths", st.eq(o[3], p[3]))
        return self.samelen(b, fr, st, bi, t, d, ga, args, name, dty)
    x_clone_from_slice = x_copy_from_slice
    def x_split_at(self, b, fr, st, bi, t, d, ga, args, name, dty, need, *r):
        o = self.aslist(args[0], st, name); x = self.lin(self.deref(args[1], st), name)
        isstr = "impl str" in d
        need("split_at within bounds", st.prove(sub(o[3], x)) and st.prove(x) and (not isstr or self.boundary(o, x, st)))
        st.put(("ge", sub(o[3], x)))
        return S(name, {0: self.slice(o, K(0), x), 1: self.slice(o, x, o[3])}), st
    def x_chunks(self, b, fr, st, bi, t, d, ga, args, name, dty, need, *r):
        n = d.split("::")[-1]; o = self.aslist(args[0], st, name); x = self.lin(self.deref(args[1], st), name)
        need(f"{n} size is not zero", st.prove(sub(x, K(1))))
        whole = n in ("chunks_exact", "windows")
        if not whole and not x[1] and x[0] > 0:
            lo, hi = self.bounds(o[3], st)
            r = __import__("safe")._ids.get(("r", o[3], x[0]))
            whole = lo == hi and lo % x[0] == 0 or r is not None and st.prove(sub(K(0), A(r)))
        return ("IT", "chunk", x, o, whole, n == "windows"), st
    x_chunks_exact = x_chunks; x_windows = x_chunks; x_rchunks = x_chunks
    def x_get(self, b, fr, st, bi, t, d, ga, args, name, dty, need, ctx, obl):
        if not ("impl [T]" in d or "impl str" in d or "Vec" in d): return None
        o = self.aslist(args[0], st, name); ity = ga[-1] if ga else "usize"
        ix = self.deref(args[1], st)
        rg = self.rng(ix, self.tyarg(b, t[2][1]), o, st, name)
        if rg is None:
            x = self.lin(ix, name)
            return some(name, S(("el", o[1], add(o[2], x))), (("ge", sub(sub(o[3], x), K(1))), ("ge", x)), (("ge", sub(x, o[3])),)), st
        a, e = rg; fs = [("ge", sub(e, a)), ("ge", sub(o[3], e)), ("ge", a)]
        if "impl str" in d: fs += [("bd", o[1], add(o[2], a)), ("bd", o[1], add(o[2], e))]
        fn = ()
        if "impl str" not in d and st.prove(sub(e, a)): fn = (("ge", sub(sub(e, o[3]), K(1))),)
        return some(name, self.slice(o, a, e), fs, fn), st
    def tyarg(self, b, op):
        if op[0] == "k": return self.db.types[op[1]["ty"]]
        l, pr = pl(op[1])
        return b.ty(l) if not pr else self.opty(b, op)
    def x_get_mut(self, b, fr, st, bi, t, d, ga, args, name, dty, need, ctx, obl):
        if not ("impl [T]" in d or "Vec" in d): return None
        o = self.aslist(args[0], st, name); x = self.deref(args[1], st)
        if args[0][0] == "R": self.setlist(args[0], st, ("O", ("v", name + ("m",)), K(0), o[3]))
        if x[0] != "I": return None
        return some(name, S(name + ("e",)), (("ge", sub(sub(o[3], x[1]), K(1))),), (("ge", sub(x[1], o[3])),)), st
    def x_first(self, b, fr, st, bi, t, d, ga, args, name, *r):
        if "impl [T]" not in d: return None
        o = self.aslist(args[0], st, name); last = "last" in d.split("::")[-1]
        if args[0][0] == "R" and d.endswith("_mut"): self.setlist(args[0], st, ("O", ("v", name + ("m",)), K(0), o[3]))
        return some(name, S(("el", o[1], add(o[2], sub(o[3], K(1)))) if last else ("el", o[1], o[2])), (("ge", sub(o[3], K(1))),), eqf(o[3], K(0))), st
    x_last = x_first; x_first_mut = x_first; x_last_mut = x_first
    def x_split_first(self, b, fr, st, bi, t, d, ga, args, name, *r):
        o = self.aslist(args[0], st, name)
        return some(name, S(name + ("p",), {0: S(name + ("e",)), 1: self.slice(o, K(1), o[3])}), (("ge", sub(o[3], K(1))),), eqf(o[3], K(0))), st
    def x_index(self, b, fr, st, bi, t, d, ga, args, name, dty, need, ctx, obl):
        base = strip(ga[0]) if ga else ""
        if not islist(base):
            if "HashMap" in base or "BTreeMap" in base: need("map key is present", False)
            elif "Mat<" in base or "faer" in base: pass
            if args[0][0] == "R": self.havoc(args[0], st, name)
            return (opaque(name, dty) if dty else S(name)), st
        mut = d.endswith("index_mut")
        o = self.aslist(args[0], st, name); ity = ga[1] if len(ga) > 1 else "usize"
        ix = self.deref(args[1], st)
        rg = self.rng(ix, ity, o, st, name)
        isstr = base in ("str", "alloc::string::String")
        if rg is None:
            x = self.lin(ix, name)
            need("index within bounds", st.prove(sub(sub(o[3], x), K(1))) and st.prove(x))
            st.put(("ge", sub(sub(o[3], x), K(1))))
            if mut:
                if args[0][0] == "R": self.setlist(args[0], st, ("O", ("v", name + ("m",)), K(0), o[3]))
                return S(name + ("el",)), st
            return S(("el", o[1], add(o[2], x))), st
        a, e = rg
        need("slice within bounds", st.prove(sub(e, a)) and st.prove(sub(o[3], e)) and st.prove(a))
        st.put(("ge", sub(e, a))); st.put(("ge", sub(o[3], e)))
        if isstr:
            need("slice at char boundaries", self.boundary(o, a, st) and self.boundary(o, e, st))
            st.put(("bd", o[1], add(o[2], a))); st.put(("bd", o[1], add(o[2], e)))
        if mut and args[0][0] == "R":
            self.setlist(args[0], st, ("O", ("v", name + ("m",)), K(0), o[3]))
            return ("O", ("v", name + ("ms",)), K(0), sub(e, a)), st
        return self.slice(o, a, e), st
    x_index_mut = x_index
    def x_find(self, b, fr, st, bi, t, d, ga, args, name, dty, need, ctx, obl):
        if "impl str" in d:
            o = self.aslist(args[0], st, name); k = self.pat(args[1], st, None)
            i = A(atom(("v", name + ("i",)), LEN))
            fs = [("ge", sub(sub(o[3], i), k if k is not None else K(1))), ("bd", o[1], add(o[2], i))]
            if k is not None: fs.append(("bd", o[1], add(o[2], add(i, k))))
            x = self.deref(args[1], st)
            if x[0] == "C": self.invoke(x, [None], st, fr, name + ("f",), ctx, obl, many=True)
            return some(name, I(i), fs), st
        return self.itcall(b, fr, st, ga, args, name, ctx, obl, lambda it, x: S(name + ("found",)))
    x_rfind = x_find
    def x_strip_prefix(self, b, fr, st, bi, t, d, ga, args, name, *r):
        if "impl str" not in d: return None
        o = self.aslist(args[0], st, name); k = self.pat(args[1], st, None); suf = d.endswith("suffix")
        l = k if k is not None else A(atom(("v", name + ("k",)), LEN))
        fs = [("ge", sub(o[3], l))]
        if suf: return some(name, self.slice(o, K(0), sub(o[3], l)), fs), st
        return some(name, self.slice(o, l, o[3]), fs + [("bd", o[1], add(o[2], l))]), st
    x_strip_suffix = x_strip_prefix
    def x_starts_with(self, b, fr, st, bi, t, d, ga, args, name, dty, need, ctx, obl):
        o = self.aslist(args[0], st, name); k = self.pat(args[1], st, None)
        x = self.deref(args[1], st)
        if x[0] == "C": self.invoke(x, [None], st, fr, name + ("f",), ctx, obl, many=True)
        if k is None: return ("B", () if x[0] == "O" else (("ge", sub(o[3], K(1))),), ()), st
        fs = [("ge", sub(o[3], k))]
        if "impl str" in d:
            e = sub(o[3], k) if d.endswith("ends_with") else k
            fs.append(("bd", o[1], add(o[2], e)))
        return ("B", tuple(fs), ()), st
    x_ends_with = x_starts_with
    def x_is_ascii(self, b, fr, st, bi, t, d, ga, args, name, *r):
        v = self.deref(args[0], st)
        if v[0] == "O": return ("B", (("asc", v[1]),), ()), st
        if v[0] == "I": return ("B", (("ge", sub(K(127), v[1])),), ()), st
    def x_is_char_boundary(self, b, fr, st, bi, t, d, ga, args, name, *r):
        o = self.aslist(args[0], st, name); x = self.lin(self.deref(args[1], st), name)
        return ("B", (("bd", o[1], add(o[2], x)), ("ge", sub(o[3], x))), ()), st
    def _trim(self, b, fr, st, bi, t, d, ga, args, name, *r):
        if "impl str" not in d: return None
        return self.trim(self.aslist(args[0], st, name), st, name, d.split("::")[-1]), st
    x_trim = x_trim_start = x_trim_end = x_trim_matches = x_trim_end_matches = x_trim_start_matches = x_trim_left = x_trim_right = _trim
    def x_to_ascii_uppercase(self, b, fr, st, bi, t, d, ga, args, name, *r):
        v = self.deref(args[0], st)
        if v[0] == "O": return ("O", ("v", ("ascphi" if self.ascii(v, st) else "up",) + name), K(0), v[3]), st
    x_to_ascii_lowercase = x_to_ascii_uppercase
    def x_lines(self, b, fr, st, bi, t, d, ga, args, name, *r):
        if "impl str" not in d: return None
        o = self.aslist(args[0], st, name)
        return ("IT", "subs", o, d.split("::")[-1] in ("split_whitespace", "split_ascii_whitespace")), st
    x_split = x_rsplit = x_split_whitespace = x_split_ascii_whitespace = x_splitn = x_rsplitn = x_split_terminator = x_split_inclusive = x_lines
    def x_parse(self, b, fr, st, bi, t, d, ga, args, name, dty, *r):
        m = re.match(r"^core::result::Result<(\w+),", dty or "")
        if "impl str" not in d or not m or m.group(1) not in TYR: return None
        o = self.aslist(args[0], st, name); lo, hi = TYR[m.group(1)]
        a = A(atom(("v", ("in", name)), (lo, hi))); n = self.bounds(o[3], st)[1]
        fs = (("ge", sub(o[3], K(1))),)
        if n <= 18: fs += (("ge", sub(K(10**int(n) - 1), a)), ("ge", add(a, K(10**int(n) - 1))))
        return okv(name, I(a), fs), st
    def x_split_once(self, b, fr, st, bi, t, d, ga, args, name, *r):
        if "impl str" not in d: return None
        o = self.aslist(args[0], st, name); k = self.pat(args[1], st, None); i = A(atom(("v", name + ("i",)), LEN))
        l = k if k is not None else A(atom(("v", name + ("k",)), LEN))
        return some(name, S(name + ("p",), {0: self.slice(o, K(0), i), 1: self.slice(o, add(i, l), o[3])}), (("ge", sub(sub(o[3], i), l)), ("bd", o[1], add(o[2], i)), ("bd", o[1], add(o[2], add(i, l))))), st
    x_rsplit_once = x_split_once
    def x_chars(self, b, fr, st, bi, t, d, ga, args, name, *r):
        o = self.aslist(args[0], st, name); n = d.split("::")[-1]
        if n == "bytes": return ("IT", "bytes"), st
        if n == "char_indices": return ("IT", "cidx", o), st
        return ("IT", "chars", o), st
    x_bytes = x_char_indices = x_chars

    # ---- comparison of strings and numbers
    def x_eq(self, b, fr, st, bi, t, d, ga, args, name, *r):
        x, y = self.deref(args[0], st), self.deref(args[1], st)
        if x[0] == "O" and y[0] == "O":
            fs = list(eqf(x[3], y[3]))
            for p, q in ((x, y), (y, x)):
                if self.ascii(p, st): fs.append(("asc", q[1])) if st.eq(q[2], K(0)) and False else None
            for p, q in ((x, y), (y, x)):
                if p[1][0] == "lit" and len(p[1][1]) <= 24:
                    z = 0
                    for ch in p[1][1]:
                        z += len(ch.encode()); fs.append(("bd", q[1], add(q[2], K(z))))
            T, F = tuple(fs), ()
            if x[0] == "O" and not y[3][1] and y[3][0] == 0: F = (("ge", sub(x[3], K(1))),)
        elif x[0] == "I" and y[0] == "I": T, F = eqf(x[1], y[1]), (("ne", sub(x[1], y[1])),)
        elif x[0] == "E" and y[0] == "E" and len(y[1]) == 1:
            vi = y[1][0][0]; s, fs = self.variant(x, vi); T, F = tuple(fs), ()
            if s is None: T = (("false",),)
            else:
                p, q = self.payload(s), self.payload(y[1][0][1])
                if p[0] == "I" and q[0] == "I": T = T + eqf(p[1], q[1])
                elif p == UNIT or q == UNIT: pass
        else: return None
        return (("B", F, T) if d.endswith("::ne") else ("B", T, F)), st
    x_ne = x_eq
    def x_lt(self, b, fr, st, bi, t, d, ga, args, name, *r):
        x, y = self.deref(args[0], st), self.deref(args[1], st)
        if x[0] != "I" or y[0] != "I": return None
        n = d.split("::")[-1]; p, q = x[1], y[1]; dd = sub(p, q)
        T, F = {"lt": ((("ge", sub(sub(q, p), K(1))),), (("ge", dd),)), "le": ((("ge", sub(q, p)),), (("ge", sub(dd, K(1))),)),
                "gt": ((("ge", sub(dd, K(1))),), (("ge", sub(q, p)),)), "ge": ((("ge", dd),), (("ge", sub(sub(q, p), K(1))),))}[n]
        return ("B", T, F), st
    x_le = x_gt = x_ge = x_lt
    def x_contains(self, b, fr, st, bi, t, d, ga, args, name, *r):
        if "Range" not in d: return None
        v, x = self.deref(args[0], st), self.deref(args[1], st)
        if x[0] != "I": return None
        a, e = self.field(v, None, 0, "usize", st), self.field(v, None, 1, "usize", st)
        if a[0] != "I" or e[0] != "I": return None
        return ("B", (("ge", sub(x[1], a[1])), ("ge", sub(e[1], x[1]) if "Inclusive" in d else sub(sub(e[1], x[1]), K(1)))), ()), st

    # ---- integers
    def ity(self, d, ga=None):
        m = re.search(r"<impl (\w+)>", d)
        return m.group(1) if m and m.group(1) in TYR else None
    def minmax(self, k, x, y, st):
        if st.prove(sub(y, x)): return x if k == "min" else y
        if st.prove(sub(x, y)): return y if k == "min" else x
        a = atom((k, x, y), (-2**127, 2**128))
        for z in (x, y): st.put(("ge", sub(z, A(a)) if k == "min" else sub(A(a), z)))
        return A(a)
    def x_min(self, b, fr, st, bi, t, d, ga, args, name, *r):
        if len(args) != 2 or "f64" in d: return None
        x, y = self.deref(args[0], st), self.deref(args[1], st)
        if x[0] != "I" or y[0] != "I": return None
        return I(self.minmax(d.split("::")[-1], x[1], y[1], st)), st
    x_max = x_min
    def x_clamp(self, b, fr, st, bi, t, d, ga, args, name, dty, need, *r):
        x, y = self.deref(args[1], st), self.deref(args[2], st)
        if x[0] == "I" and y[0] == "I":
            need("clamp bounds are ordered", st.prove(sub(y[1], x[1])))
            a = A(atom(("v", name), (-2**127, 2**128))); st.put(("ge", sub(a, x[1]))); st.put(("ge", sub(y[1], a)))
            return I(a), st
    def ints(self, args, st):
        xs = [self.deref(a, st) for a in args]
        return [x[1] for x in xs] if all(x[0] == "I" for x in xs) else None
    def x_checked_sub(self, b, fr, st, bi, t, d, ga, args, name, *r):
        ty = self.ity(d); z = self.ints(args, st)
        if ty is None or z is None: return None
        lo, hi = TYR[ty]; x, y = z; n = d.split("::")[-1]
        if n in ("checked_add", "checked_sub"): e = add(x, y) if n == "checked_add" else sub(x, y)
        elif not y[1]: e = scale(x, y[0])
        elif not x[1]: e = scale(y, x[0])
        else:
            v = self.arith("Mul", I(x), I(y), ty, st, name)
            return some(name, v), st
        fs = [("ge", sub(e, K(lo))), ("ge", sub(K(hi), e))]
        fn = (("ge", sub(K(-1), e)),) if lo == 0 and n == "checked_sub" else ()
        return some(name, I(e), fs, fn), st
    x_checked_add = x_checked_mul = x_checked_sub
    def x_saturating_sub(self, b, fr, st, bi, t, d, ga, args, name, *r):
        ty = self.ity(d); z = self.ints(args, st)
        if ty is None or z is None or TYR[ty][0] != 0: return None
        return I(self.minmax("max", sub(*z), K(0), st)), st
    def x_saturating_add(self, b, fr, st, bi, t, d, ga, args, name, *r):
        ty = self.ity(d); z = self.ints(args, st)
        if ty is None or z is None: return None
        return I(self.minmax("min", add(*z), K(TYR[ty][1]), st)), st
    def x_abs_diff(self, b, fr, st, bi, t, d, ga, args, name, *r):
        z = self.ints(args, st)
        if z is None: return None
        return I(self.minmax("max", sub(*z), sub(z[1], z[0]), st)), st
    def x_rem_euclid(self, b, fr, st, bi, t, d, ga, args, name, dty, need, *r):
        ty = self.ity(d); z = self.ints(args, st)
        if ty is None or z is None: return None
        x, y = z
        need("divisor is not zero", (not y[1] and y[0] != 0) or st.prove(sub(y, K(1))))
        a = A(atom(("v", name), TYR[ty])); st.put(("ge", a))
        if not y[1]: st.put(("ge", sub(K(abs(y[0]) - 1), a)))
        return I(a), st
    def x_div_euclid(self, b, fr, st, bi, t, d, ga, args, name, dty, need, *r):
        ty = self.ity(d); z = self.ints(args, st)
        if ty is None or z is None: return None
        need("divisor is not zero", (not z[1][1] and z[1][0] != 0) or st.prove(sub(z[1], K(1))))
    def x_div_ceil(self, b, fr, st, bi, t, d, ga, args, name, dty, need, *r):
        ty = self.ity(d); z = self.ints(args, st)
        if ty is None or z is None: return None
        x, y = z
        need("divisor is not zero", (not y[1] and y[0] != 0) or st.prove(sub(y, K(1))))
        if not y[1] and y[0] > 0:
            a = A(atom(("v", name), TYR[ty])); st.put(("ge", sub(scale(a, y[0]), x))); st.put(("ge", sub(add(x, K(y[0] - 1)), scale(a, y[0]))))
            return I(a), st
    def x_abs(self, b, fr, st, bi, t, d, ga, args, name, dty, need, *r):
        ty = self.ity(d); z = self.ints(args, st)
        if ty is None or z is None: return None
        if d.endswith("unsigned_abs"):
            a = A(atom(("v", name), (0, -TYR[ty][0]))); return I(a), st
        need("abs cannot overflow", st.prove(sub(z[0], K(TYR[ty][0] + 1))))
        return I(A(atom(("v", name), (0, TYR[ty][1])))), st
    x_unsigned_abs = x_abs
    def x_pow(self, b, fr, st, bi, t, d, ga, args, name, dty, need, *r):
        ty = self.ity(d); z = self.ints(args, st)
        if ty is None or z is None: return None
        if not z[0][1] and not z[1][1]: return I(K(z[0][0] ** z[1][0])), st
        hi = self.bounds(z[0], st); e = self.bounds(z[1], st)
        ok = hi[0] >= 0 and e[1] < 200 and hi[1] ** e[1] <= TYR[ty][1]
        need("pow cannot overflow", ok)
    def x_try_from(self, b, fr, st, bi, t, d, ga, args, name, dty, *r):
        v = self.deref(args[0], st)
        m = re.match(r"^core::result::Result<(?:&)?([^,]+),", strip(dty or ""))
        if not m: return None
        ty = m.group(1).strip()
        if v[0] == "I" and ty in TYR:
            lo, hi = TYR[ty]
            return okv(name, v, (("ge", sub(v[1], K(lo))), ("ge", sub(K(hi), v[1])))), st
        if v[0] == "O":
            m = re.match(r"^core::result::Result<&?\[.*?; (\d+)\]", strip(dty))
            if m:
                n = K(int(m.group(1)))
                return okv(name, ("O", v[1], v[2], n), eqf(v[3], n), (("ne", sub(v[3], n)),)), st
    x_try_into = x_try_from
    def x_is_ascii_digit(self, b, fr, st, bi, t, d, ga, args, name, *r):
        v = self.deref(args[0], st)
        if v[0] != "I": return None
        n = d.split("::")[-1]; x = v[1]
        R = {"is_ascii_digit": (48, 57), "is_ascii_uppercase": (65, 90), "is_ascii_lowercase": (97, 122), "is_ascii_alphabetic": (65, 122), "is_ascii_alphanumeric": (48, 122), "is_ascii_whitespace": (9, 32), "is_ascii_punctuation": (33, 126), "is_ascii_graphic": (33, 126), "is_ascii_hexdigit": (48, 102), "is_ascii_control": (0, 127)}[n]
        F = ()
        return ("B", (("ge", sub(x, K(R[0]))), ("ge", sub(K(R[1]), x))), F), st
    x_is_ascii_uppercase = x_is_ascii_lowercase = x_is_ascii_alphabetic = x_is_ascii_alphanumeric = x_is_ascii_whitespace = x_is_ascii_punctuation = x_is_ascii_graphic = x_is_ascii_hexdigit = x_is_ascii_digit
    def x_len_utf8(self, b, fr, st, bi, t, d, ga, args, name, *r):
        c = self.deref(args[0], st)
        return I(A(atom(("u8", c[1]) if c[0] == "I" else ("v", name), (1, 4)))), st
    def x_to_digit(self, b, fr, st, bi, t, d, ga, args, name, dty, need, *r):
        z = self.ints(args, st)
        if z is None: return None
        need("radix at most 36", st.prove(sub(K(36), z[1])))
        a = A(atom(("v", name), (0, 35))); return some(name, I(a), (("ge", sub(sub(z[1], a), K(1))),)), st
    def x_leading_zeros(self, b, fr, st, bi, t, d, ga, args, name, *r): return I(A(atom(("v", name), (0, 128)))), st
    x_count_ones = x_trailing_zeros = x_leading_zeros
    def x_month(self, b, fr, st, bi, t, d, ga, args, name, *r):
        R = {"month": (1, 12), "day": (1, 31), "hour": (0, 23), "minute": (0, 59), "second": (0, 59), "ordinal": (1, 366), "nanosecond": (0, 1999999999), "year": (-262144, 262143), "num_seconds_from_midnight": (0, 86399), "timestamp_subsec_nanos": (0, 1999999999), "timestamp_subsec_micros": (0, 1999999)}.get(d.split("::")[-1])
        if "chrono" not in d: return None
        return I(A(atom(("v", name), R))), st
    x_day = x_hour = x_minute = x_second = x_ordinal = x_nanosecond = x_year = x_num_seconds_from_midnight = x_timestamp_subsec_nanos = x_timestamp_subsec_micros = x_month
    def x_from_ymd_opt(self, b, fr, st, bi, t, d, ga, args, name, *r):
        z = self.ints(args, st)
        if z is None or any(x[1] for x in z): return None
        y, m, dd = (x[0] for x in z)
        import calendar
        if 1 <= m <= 12 and 1 <= y <= 9999 and 1 <= dd <= calendar.monthrange(y, m)[1]: return E((1, S(name, {0: S(name + (1,))}), ())), st
    def x_from_yo_opt(self, b, fr, st, bi, t, d, ga, args, name, *r):
        y = self.deref(args[0], st)
        if y[0] == "I" and st.prove(sub(K(200000), y[1])) and st.prove(add(y[1], K(200000))): return some(name, S(("near", name))), st
    def x_from_utc_datetime(self, b, fr, st, bi, t, d, ga, args, name, *r):
        v = self.deref(args[-1], st)
        if v[0] == "S" and v[1][0] == "near": return v, st
    x_and_utc = x_from_utc_datetime
    def x_nanoseconds(self, b, fr, st, bi, t, d, ga, args, name, *r):
        if "TimeDelta" in d: return S(("small", name)), st
    def x_add(self, b, fr, st, bi, t, d, ga, args, name, dty, need, *r):
        if not (ga and "chrono" in ga[0] and any("TimeDelta" in x for x in ga)): return None
        x, y = self.deref(args[0], st), self.deref(args[1], st)
        need("chrono arithmetic cannot overflow", x[0] == "S" and x[1][0] == "near" and y[0] == "S" and y[1][0] == "small")
        return S(name), st
    x_sub = x_add
    def x_and_hms_opt(self, b, fr, st, bi, t, d, ga, args, name, *r):
        z = self.ints(args[1:], st)
        if z is None or any(x[1] for x in z): return None
        if z[0][0] < 24 and z[1][0] < 60 and z[2][0] < 60:
            v = self.deref(args[0], st)
            return E((1, S(name, {0: v if v[0] == "S" and v[1][0] == "near" else S(name + (1,))}), ())), st

    # ---- iterators
    def x_into_iter(self, b, fr, st, bi, t, d, ga, args, name, *r):
        v = args[0]
        if v[0] == "R" and self.load(v, st)[0] == "O":
            o = self.load(v, st); self.setlist(v, st, ("O", ("v", name + ("m",)), K(0), o[3])); return ("IT", "seq", ("O", ("v", name + ("it",)), K(0), o[3])), st
        if v[0] == "R": return v, st
        return self.asit(v, ga[0] if ga else self.tyarg(b, t[2][0]), st, name), st
    def x_iter(self, b, fr, st, bi, t, d, ga, args, name, *r):
        if "impl [T]" in d or "Vec" in d:
            o = self.aslist(args[0], st, name)
            if d.endswith("iter_mut") and args[0][0] == "R": self.setlist(args[0], st, ("O", ("v", name + ("m",)), K(0), o[3]))
            return ("IT", "seq", o if d.endswith("::iter") else ("O", ("v", name + ("it",)), K(0), o[3])), st
    x_iter_mut = x_iter
    def keepit(self, b, fr, st, bi, t, d, ga, args, name, *r):
        if "Iterator" not in d and "iter::" not in d: return None
        return self.asit(args[0], ga[0] if ga else "", st, name), st
    def x_rev(self, b, fr, st, bi, t, d, ga, args, name, *r):
        if "Iterator" not in d: return None
        it = self.asit(args[0], ga[0] if ga else "", st, name)
        return ("IT", "rrange") + it[2:] if it[1] == "range" else ("IT", "len", self.itlen(it, st)) if it[1] in ("enum", "zip") and self.itlen(it, st) is not None else it, st
    def x_skip(self, b, fr, st, bi, t, d, ga, args, name, *r):
        it = self.asit(args[0], ga[0] if ga else "", st, name)
        if it[1] == "range":
            z = self.deref(args[1], st)
            if z[0] == "I": return ("IT", "range", add(it[2], z[1]), it[3]), st
        m = self.itmax(it, st)
        if it[1] == "seq": return ("IT", "seqany", it[2]), st
        return it, st
    def x_step_by(self, b, fr, st, bi, t, d, ga, args, name, dty, need, *r):
        z = self.deref(args[1], st)
        need("step is not zero", z[0] == "I" and st.prove(sub(z[1], K(1))))
        it = self.asit(args[0], ga[0] if ga else "", st, name)
        return ("IT", "rrange") + it[2:] if it[1] == "range" else it if it[1] in ("rrange", "seq") else ("IT", "any"), st
    def x_enumerate(self, b, fr, st, bi, t, d, ga, args, name, *r): return ("IT", "enum", self.asit(args[0], ga[0] if ga else "", st, name)), st
    def x_zip(self, b, fr, st, bi, t, d, ga, args, name, *r): return ("IT", "zip", self.asit(args[0], ga[0] if ga else "", st, name), self.asit(args[1], ga[1] if len(ga) > 1 else "", st, name + (1,))), st
    def x_next(self, b, fr, st, bi, t, d, ga, args, name, *r):
        ty = ga[0] if ga else ""
        rr = rec_r(t)
        v = self.deref(args[0], st)
        if v[0] != "IT":
            t2 = strip(self.tyarg(b, t[2][0]))
            v = self.asit(v, t2, st, name)
            if v[1] == "any": 
                self.havoc(args[0], st, name); return None
        if v[1] == "range" and args[0][0] == "R" and self.load(args[0], st)[0] == "IT" and not d.endswith("next_back"):
            lo, hi = v[2], v[3]
            self.setlist(args[0], st, ("IT", "range", add(lo, K(1)), hi))
            return some(name, I(lo), (("ge", sub(sub(hi, lo), K(1))),), (("ge", sub(lo, hi)),)), st
        fs = []
        x = self.item(v, st, name, fs)
        if v[1] == "chars" and args[0][0] == "R" and self.load(args[0], st)[0] == "IT" and not d.endswith("next_back"):
            o = v[2]; l = A(atom(("u8", x[1]), (1, 4)))
            fs += [("ge", sub(o[3], l)), ("bd", o[1], add(o[2], l))]
            fn = (("ge", sub(K(0), o[3])),)
            self.setlist(args[0], st, ("IT", "chars", O(("rest", name)) if not self.ascii(o, st) else O(("v", ("ascphi",) + name))))
            return some(name, x, fs, fn), st
        return some(name, x, fs, ()), st
    x_next_back = x_next
    def itmap(self, b, fr, st, ga, args, name, ctx, obl, keep):
        it = self.asit(args[0], ga[0] if ga else "", st, name)
        f = []; x = self.item(it, st, name + ("mi",), f); s2 = st.copy()
        for q in f: s2.put(q)
        v = None
        if not s2.dead: v, nf = self.invoke(args[1], [x], s2, fr, name + ("f",), ctx, obl, many=True)
        self.havoc(args[1], st, name)
        l = self.itlen(it, st)
        if l is not None and keep: return ("IT", "len", l), st
        return ("IT", "any"), st
    def itcall(self, b, fr, st, ga, args, name, ctx, obl, res):
        src = self.deref(args[0], st)
        it = self.asit(src, ga[0] if ga else "", st, name)
        f = []; x = self.item(it, st, name + ("ci",), f); s2 = st.copy()
        for q in f: s2.put(q)
        for i, a in enumerate(args[1:]):
            c = self.deref(a, st)
            if c[0] == "C" and not s2.dead:
                cb = self.db.bodies.get(c[1])
                n = cb.argc - 1 if cb else 1
                self.invoke(c, ([x] if n == 1 else [None] * (n - 1) + [x]), s2, fr, name + ("f", i), ctx, obl, many=True)
                self.havoc(a, st, name)
        v = res(it, x)
        if v is None: return None
        return v, st
    def x_filter_map(self, b, fr, st, bi, t, d, ga, args, name, dty, need, ctx, obl): return self.itcall(b, fr, st, ga, args, name, ctx, obl, lambda it, x: ("IT", "any"))
    x_flat_map = x_take_while = x_skip_while = x_inspect = x_map_while = x_filter_map
    def x_any(self, b, fr, st, bi, t, d, ga, args, name, dty, need, ctx, obl): return self.itcall(b, fr, st, ga, args, name, ctx, obl, lambda it, x: B())
    def x_all(self, b, fr, st, bi, t, d, ga, args, name, dty, need, ctx, obl):
        src = self.deref(args[0], st)
        it = self.asit(src, ga[0] if ga else "", st, name)
        f = []; x = self.item(it, st, name + ("ci",), f); s2 = st.copy()
        for q in f: s2.put(q)
        v, nf = self.invoke(args[1], [x], s2, fr, name + ("f",), ctx, obl, many=True)
        self.havoc(args[1], st, name)
        T = ()
        if it[1] == "chars" and v[0] == "B" and x[0] == "I":
            s3 = s2.copy()
            for q in tuple(nf) + v[1]: s3.put(q)
            if s3.prove(sub(K(127), x[1])): T = (("asc", it[2][1]),)
        return ("B", T, ()), st
    def x_fold(self, b, fr, st, bi, t, d, ga, args, name, dty, need, ctx, obl): return self.itcall(b, fr, st, ga, args, name, ctx, obl, lambda it, x: opaque(name, dty or "()"))
    x_for_each = x_try_fold = x_max_by = x_min_by = x_max_by_key = x_min_by_key = x_fold
    def x_position(self, b, fr, st, bi, t, d, ga, args, name, dty, need, ctx, obl):
        i = A(atom(("v", name + ("pos",)), LEN))
        def res(it, x):
            n = self.itmax(it, st)
            return some(name, I(i), (("ge", sub(sub(n, i), K(1))),) if n is not None else ())
        return self.itcall(b, fr, st, ga, args, name, ctx, obl, res)
    x_rposition = x_position
    def x_binary_search(self, b, fr, st, bi, t, d, ga, args, name, dty, need, ctx, obl):
        o = self.aslist(args[0], st, name); i = A(atom(("v", name + ("bs",)), LEN)); j = A(atom(("v", name + ("be",)), LEN))
        for k, a in enumerate(args[1:]):
            c = self.deref(a, st)
            if c[0] == "C":
                cb = self.db.bodies.get(c[1])
                if cb: self.invoke(c, [None] * (cb.argc - 1), st, fr, name + ("f", k), ctx, obl, many=True)
        return E((0, S(name + ("ok",), {0: I(i)}), (("ge", sub(sub(o[3], i), K(1))),)), (1, S(name + ("er",), {0: I(j)}), (("ge", sub(o[3], j)),))), st
    x_binary_search_by = x_binary_search_by_key = x_binary_search
    def x_partition_point(self, b, fr, st, bi, t, d, ga, args, name, dty, need, ctx, obl):
        o = self.aslist(args[0], st, name); i = A(atom(("v", name + ("pp",)), LEN)); st.put(("ge", sub(o[3], i)))
        c = self.deref(args[1], st)
        if c[0] == "C": self.invoke(c, [None], st, fr, name + ("f",), ctx, obl, many=True)
        return I(i), st
    def x_collect(self, b, fr, st, bi, t, d, ga, args, name, dty, *r):
        if not dty or not islist(strip(dty)): return None
        it = self.asit(args[0], ga[0] if ga else "", st, name)
        l = self.itlen(it, st)
        o = O(("v", name))
        if l is not None: o = ("O", o[1], K(0), l)
        elif self.itmax(it, st) is not None: st.put(("ge", sub(self.itmax(it, st), o[3])))
        return o, st
    def x_count(self, b, fr, st, bi, t, d, ga, args, name, dty, *r):
        it = self.asit(args[0], ga[0] if ga else "", st, name); m = self.itmax(it, st)
        a = A(atom(("v", name), LEN))
        if m is not None: st.put(("ge", sub(m, a)))
        return I(a), st
    def x_borrow_panicking(self, *a): return None


def rec_r(t):
    f = t[1]
    return f[1]["fn"].get("r") if f[0] == "k" and "fn" in f[1] else None


class Rec(dict):
    """hashable function record"""
    def __hash__(self): return hash((self.get("p"), self.get("id")))
    def __eq__(self, o): return isinstance(o, dict) and self.get("p") == o.get("p") and self.get("id") == o.get("id") and self.get("a") == o.get("a")
