"""P21: a failure inside the library reaches the caller."""
import re
from mir import callee, pl, succs
from r_p20 import split
from report import Check

CARRY = {"map", "map_err", "and_then", "ok", "ok_or", "ok_or_else", "transpose", "copied", "cloned", "as_ref", "as_mut", "as_deref", "inspect", "inspect_err", "from", "into", "clone", "and", "filter", "zip", "err", "flatten"}
SWALLOW = {"unwrap_or", "unwrap_or_else", "unwrap_or_default", "or", "or_else", "map_or", "map_or_else", "is_ok", "is_err", "is_some", "is_none", "is_ok_and", "is_some_and", "iter", "into_iter"}
PEEK = {"is_ok", "is_err", "is_some", "is_none"}
# errors of reading text (what becomes of a number that cannot be read is P10) and of looking up, which are answers
TEXT = re.compile(r"^(core::num::|core::str::|core::char::|core::array::|chrono::|alloc::string::FromUtf8|core::convert::Infallible|usize$|u32$)")
# fallbacks that are part of a function's contract: (file, error) -> (which variants, how often)
CONTRACT = {
    ("src/astro/eop.rs", "EopError"): ("", 1, "eop_at is the infallible form of try_eop_at and documents zero outside the table"),
    ("src/coordinates/transform/context.rs", "EopError"): ("", 2, "eop_at_tt is the infallible form of try_eop_at_tt and uses the delta-T model outside the UTC table"),
    ("src/ephemeris/lagrange/mod.rs", "EphemerisError"): ("", 1, "outside the archive the equilibrium point is solved for"),
    ("src/event/search/crossings.rs", "ChebyError"): ("", 1, "the segment is scanned instead"),
    ("src/formats/ccsds/opm.rs", "FormatError"): ("", 4, "optional header keys"),
    ("src/formats/iers/eop.rs", "ConversionError"): ("", 1, "rows outside the calendar are skipped"),
    ("src/formats/ilrs/crd.rs", "ConversionError"): ("", 1, "records without a usable epoch are skipped"),
    ("src/formats/ilrs/mod.rs", "FormatError"): ("", 1, "permissive mode skips the record"),
    ("src/formats/rinex/nav.rs", "FormatError"): ("", 6, "permissive mode skips the record"),
    ("src/formats/spice/kernel.rs", "SpiceError"): ("UnsupportedDataType", 1, "a segment of a type that is not supported is indexed and refused when it is asked"),
    ("src/formats/spice/spk_kernel.rs", "SpkKernelError"): ("", 2, "the chain through the next segment or centre is tried"),
    ("src/spice/kernel_set.rs", "SpiceError"): ("NoChain|OutOfCoverage", 1, "the kernel loaded before is asked"),
}


def error(ty):
    ty = ty.lstrip("&").replace("mut ", "")
    if not ty.startswith("core::result::Result<"): return None
    e = split(ty); return e[1] if len(e) == 2 else None


class Fate:
    def __init__(self, db, b):
        self.db, self.b, self.live = db, b, b.reachable()
        self.ends = None
        self.adts = {a["path"].removeprefix("siderust::"): a for a in db.adts.values()}

    def returns(self):
        """blocks from which the function can return"""
        if self.ends is None:
            pre = self.b.preds(); seen = {x for x in self.live if self.b.blocks[x][1][0] == "ret"}; st = list(seen)
            while st:
                for y in pre[st.pop()]:
                    if y not in seen: seen.add(y); st.append(y)
            self.ends = seen
        return self.ends

    def uses(self, l):
        b = self.b
        for bi in self.live:
            for p, r, ln in b.blocks[bi][0]:
                if touches(r, l): yield bi, p, r, ln
            t = b.blocks[bi][1]
            if t[0] in ("call", "switch") and touches(t[1:3] if t[0] == "call" else t[1], l): yield bi, None, t, None

    def follow(self, l, seen, optional=False):
        """what becomes of the failure held in local l: a list of (line, how) where it is swallowed"""
        b = self.b
        if l == 0 and optional and b.kind == "closure":
            return self.passed_to(b)
        if l in seen or l == 0: return []
        seen.add(l); out = []; used = False
        for bi, p, r, ln in self.uses(l):
            used = True
            if p is None:
                t = r
                if t[0] != "call": continue
                c = callee(t)[0] or ""; m = c.split("::")[-1]; line = b.blocks[bi][1][-1]
                if c.endswith("Try::branch"): continue
                if c.endswith("IntoIterator::into_iter") and b.ty(l).startswith(("core::result::Result", "core::option::Option")): out.append((line, m, "")); continue
                own = "result::Result" in c or "option::Option" in c
                if m == "drop" and c.startswith("core::mem"): out.append((line, m, "")); continue
                if own and m in SWALLOW and t[2] and t[2][0][0] != "k" and pl(t[2][0][1])[0] == l:
                    if m in ("unwrap_or_else", "or_else", "map_or_else") and self.heeds(t): continue
                    if m in PEEK:
                        z = self.asked(t, m, seen)
                        if z is not None:
                            if z: out.append((line, "asked " + m, ""))
                            continue
                    out.append((line, m, "")); continue
                if m in CARRY and own: out += self.follow(pl(t[3])[0], seen, True); continue
                continue
            if r[0] == "discr":
                if any(x != "*" for x in pl(r[1])[1]): continue
                out += self.arms(l, pl(p)[0], optional, ln); continue
            d = pl(p)
            if not d[1] and r[0] in ("use", "ref", "cast") and not self.payload(r, l): out += self.follow(d[0], seen, optional)
            elif r[0] in ("use", "ref") or r[0] == "agg": continue
        if not used: out.append((None, "discarded", ""))
        if len(seen) and sum(1 for _ in self.uses(l)) > 1: out = [o for o in out if o[1] not in PEEK]
        return out

    def payload(self, r, l):
        """what is taken is a part of l"""
        for x in r[1:]:
            for y in (x, x[1] if isinstance(x, (list, tuple)) and len(x) == 2 and x[0] in ("m", "c") else None):
                if y is not None and not isinstance(y, (str, bool)) and place_of(y, l) and any(z != "*" for z in pl(y)[1]): return True
        return False

    def heeds(self, t):
        """the closure that is given the failure does not return, or uses it"""
        for o in t[2][1:2]:
            x = self.closure(o)
            if x is None: continue
            if not any(x.blocks[y][1][0] == "ret" for y in x.reachable()): return True
            if x.argc >= 2 and any(True for _ in Fate(self.db, x).uses(2)): return True
        return False

    def passed_to(self, b):
        """the adaptor a closure is given to, if it leaves out what the closure does not return"""
        name = b.path[b.path.rindex("{closure#"):]; up = b.path[:b.path.rindex("::{closure#")]
        for x in self.db.bodies.values():
            if x.path != up or x.kind not in ("fn", "closure"): continue
            F = Fate(self.db, x)
            for bi in F.live:
                t = x.blocks[bi][1]
                if t[0] != "call" or not any(F.closure(o) is b for o in t[2][1:]): continue
                c = callee(t)[0] or ""; m = c.split("::")[-1]
                if m in ("filter_map", "flat_map", "map_while", "find_map"): return [(None, m, "")]
                if ("option::Option" in c or "core::bool" in c) and x.ty(pl(t[3])[0]).startswith("core::option::Option"): return F.follow(pl(t[3])[0], set(), True)
        return []

    def closure(self, o):
        if o[0] == "k": ids = [str(o[1])]
        else:
            ids = [str(r[1]) for bi in self.live for p, r, ln in self.b.blocks[bi][0] if pl(p)[0] == pl(o[1])[0] and r[0] == "agg"]
        for s in ids:
            m = re.search(r"\{closure#\d+\}", s)
            if m:
                x = [c for c in self.db.bodies.values() if c.kind == "closure" and c.path.startswith(self.b.path) and c.path.endswith(m.group(0))]
                if len(x) == 1: return x[0]
        return None

    def arms(self, l, d, optional, ln):
        b = self.b; out = []; ty = b.ty(l).lstrip("&")
        for bi in self.live:
            t = b.blocks[bi][1]
            if t[0] != "switch" or t[1][0] == "k" or pl(t[1][1])[0] != d or self.later(l, bi): continue
            bad = 0 if ty.startswith("core::option::Option") else 1
            to = [z[1] for z in t[2] if z[0] == bad] or [t[3]]
            e = error(ty); a = self.adts.get((e or "").split("<")[0])
            names = frozenset(v[0] for v in a["variants"]) if a is not None else frozenset()
            got = self.lost(l, to[0], names, a)
            if got is not None: out.append((ln, "ignored", "" if got == names else "|".join(sorted(got))))
        return out

    def asked(self, t, m, held):
        """whether the function can return without a failure after is_err() said yes; None if the answer is not branched on"""
        b = self.b; d = pl(t[3])[0]; got = None
        for bi in self.live:
            w = b.blocks[bi][1]
            if w[0] != "switch" or w[1][0] == "k" or pl(w[1][1]) != (d, []): continue
            yes = [z[1] for z in w[2] if z[0] == 1] or [w[3]]; no = [z[1] for z in w[2] if z[0] == 0] or [w[3]]
            got = bool(got) or self.lost(min(held), (yes if m in ("is_err", "is_none") else no)[0], frozenset(), None, frozenset(held)) is not None
        return got

    def later(self, l, bi):
        """the switch only decides what is left to drop: another one on the same value comes before it"""
        b = self.b
        if self.__dict__.setdefault("_sw", {}).get(l) is None:
            ds = {pl(p)[0] for x in self.live for p, r, ln in b.blocks[x][0] if r[0] == "discr" and pl(r[1])[0] == l and not pl(r[1])[1]}
            self._sw[l] = [x for x in self.live if b.blocks[x][1][0] == "switch" and b.blocks[x][1][1][0] != "k" and pl(b.blocks[x][1][1][1])[0] in ds]
        return any(x != bi and self.dominates(x, bi) for x in self._sw[l])

    def dominates(self, x, y):
        seen = {0}; st = [0]
        if x == 0: return True
        while st:
            for z in succs(self.b.blocks[st.pop()]):
                if z == y: return False
                if z != x and z in self.live and z not in seen: seen.add(z); st.append(z)
        return True

    def lost(self, l, start, names, a, also=frozenset()):
        """the variants of the error for which control goes on to return something else than a failure"""
        b = self.b; ends = self.returns(); ret = b.ty(0); gone = None; st = [(start, names, frozenset([l]) | also, frozenset())]; seen = set()
        while st:
            x, vs, held, flags = st.pop()
            if (x, vs, held, flags) in seen or x not in ends: continue
            seen.add((x, vs, held, flags)); stop = False; asks = None
            for p, r, ln in b.blocks[x][0]:
                if not pl(p)[1] and b.ty(pl(p)[0]) == "bool":
                    v = truth(r[1]) if r[0] == "use" else None
                    if r[0] == "use" and r[1][0] != "k": v = dict(flags).get(pl(r[1][1])[0])
                    if r[0] == "un" and r[1] == "Not" and r[2][0] != "k" and pl(r[2][1])[0] in dict(flags): v = 1 - dict(flags)[pl(r[2][1])[0]]
                    flags = frozenset(z for z in flags if z[0] != pl(p)[0]) | (frozenset([(pl(p)[0], v)]) if v is not None else frozenset())
                if r[0] == "discr" and pl(r[1])[0] in held and (pl(r[1])[1] or pl(r[1])[0] != l): asks = pl(p)[0]; continue
                if r[0] != "discr" and any(touches(r, h) for h in held):
                    if (r[0] in ("use", "ref") or "core::fmt" in b.ty(pl(p)[0]) or r[0] == "agg" and b.ty(pl(p)[0])[:2] in ("(&", "[&")) and not pl(p)[1] and pl(p)[0] != 0: held = held | {pl(p)[0]}
                    else: stop = True
                if r[0] == "agg" and r[1][0] == "adt" and r[1][3] in ("Err", "None") and b.ty(pl(p)[0]) == ret: stop = True
                if r[0] == "use" and r[1][0] == "k" and pl(p)[0] == 0 and "None" in str(r[1]): stop = True
            t = b.blocks[x][1]
            if t[0] == "call":
                if any(touches(t[2], h) for h in held):
                    c = callee(t)[0] or ""                     # printing it does not pass it on
                    if c.startswith("core::fmt::") and ("Argument" in c): held = held | {pl(t[3])[0]}
                    elif not c.endswith(("io::stdio::_print", "io::stdio::_eprint", "io::_print", "io::_eprint")): stop = True
                elif pl(t[3]) == (l, []) or pl(t[3])[0] == l and not pl(t[3])[1]:       # the next failure takes its place
                    gone = (gone or frozenset()) | vs; continue
                c = callee(t)[0] or ""
                if c.endswith("from_residual"): stop = True
            if stop: continue
            if t[0] == "ret": gone = (gone or frozenset()) | vs if gone is not None else vs; continue
            if t[0] == "switch" and asks is not None and t[1][0] != "k" and pl(t[1][1])[0] == asks and a is not None:
                left = vs
                for z in t[2]:
                    if z[0] < len(a["variants"]):
                        n = a["variants"][z[0]][0]; left = left - {n}
                        if n in vs: st.append((z[1], frozenset([n]), held, flags))
                if left: st.append((t[3], left, held, flags))
                continue
            if t[0] == "switch" and t[1][0] != "k" and pl(t[1][1])[0] in dict(flags):
                v = dict(flags)[pl(t[1][1])[0]]; st.append((next((z[1] for z in t[2] if z[0] == v), t[3]), vs, held, flags)); continue
            for y in succs(b.blocks[x]): st.append((y, vs, held, flags))
        return gone


def touches(x, l):
    """x holds a place of local l"""
    if isinstance(x, (list, tuple)):
        if len(x) == 2 and x[0] in ("m", "c", "copy", "move"):
            return pl(x[1])[0] == l
        if x and x[0] == "ref": return any(isinstance(y, (int, list, tuple)) and not isinstance(y, bool) and place_of(y, l) for y in x[1:])
        if x and x[0] == "discr": return pl(x[1])[0] == l
        return any(touches(y, l) for y in x if isinstance(y, (list, tuple)))
    return False


def truth(o):
    v = o[1].get("b") if o[0] == "k" and isinstance(o[1], dict) else None
    return int(v) if isinstance(v, (int, bool)) or isinstance(v, str) and v in ("0", "1") else None


def place_of(y, l):
    try: return pl(y)[0] == l
    except Exception: return False


def run(db):
    ck = Check("P21", "forward flow of every failure on MIR: from the call that can fail to the return, the panic or the place that drops it")
    found = {}
    for b in db.bodies.values():
        if b.kind not in ("fn", "closure"): continue
        F = None
        for l in range(1, b.argc + 1):
            e = error(b.ty(l))
            if e is None or b.ty(l).startswith("&") or TEXT.match(e): continue
            ck.ob(); ck.count("failures handed in"); F = F or Fate(db, b)
            for ln, how, which in F.follow(l, set()):
                found.setdefault((b.span[0], e.split("<")[0].split("::")[-1]), []).append((b, ln, how, which, "its argument"))
        for bi in b.reachable():
            for p, r, ln in b.blocks[bi][0]:                   # an item or a field that is a failure
                d = pl(p)
                if r[0] != "use" or r[1][0] == "k" or d[1] or not pl(r[1][1])[1]: continue
                e = error(b.ty(d[0]))
                if e is None or b.ty(d[0]).startswith("&") or TEXT.match(e): continue
                ck.ob(); ck.count("failures taken out"); F = F or Fate(db, b)
                for l2, how, which in F.follow(d[0], set()):
                    found.setdefault((b.span[0], e.split("<")[0].split("::")[-1]), []).append((b, l2 if isinstance(l2, int) else ln, how, which, "an item"))
            t = b.blocks[bi][1]
            if t[0] != "call": continue
            d = pl(t[3])
            c = callee(t)[0] or ""
            for o in t[2]:
                f = o[1].get("fn") if o[0] == "k" and isinstance(o[1], dict) else None
                if not f or not str(f.get("r") or f["p"]).startswith("core::result::Result") or len(f.get("ra") or f["a"]) < 2: continue
                e = (f.get("ra") or f["a"])[1]; m = str(f.get("r") or f["p"]).split("::")[-1]
                if TEXT.match(e) or m not in SWALLOW | {"ok"}: continue
                F = F or Fate(db, b); ck.ob()
                if m == "ok" and c.split("::")[-1] not in ("filter_map", "flat_map", "map_while", "find_map"): gone = F.follow(d[0], set(), True) if b.ty(d[0]).startswith("core::option::Option") else []
                else: gone = [(t[-1], m, "")]
                for ln, how, which in gone: found.setdefault((b.span[0], e.split("<")[0].split("::")[-1]), []).append((b, ln, how, which, c))
            if d[1]: continue
            e = error(b.ty(d[0]))
            if e is None or TEXT.match(e): continue
            c = callee(t)[0] or ""
            if "result::Result" in c and c.split("::")[-1] in CARRY | SWALLOW or c.endswith(("from_residual", "Try::branch", "from_output")): continue
            ck.ob(); ck.count("calls that can fail")
            if F is None: F = Fate(db, b)
            for ln, how, which in F.follow(d[0], set()):
                if (c.split("::")[-1] in ("write_fmt", "write_str", "write_char")) and e.startswith("core::fmt"): continue
                found.setdefault((b.span[0], e.split("<")[0].split("::")[-1]), []).append((b, ln if isinstance(ln, int) else t[-1], how, which, c))
    for (f, e), xs in sorted(found.items()):
        ok = CONTRACT.get((f, e)); which, n = (set(ok[0].split("|")) - {""}, ok[1]) if ok else (set(), 0)
        right = [x for x in xs if not which or x[3] and set(x[3].split("|")) <= which] if ok else []
        wrong = [x for x in xs if x not in right] + right[n:]
        ck.count("fallbacks by contract", len(xs) - len(wrong))
        for b, ln, how, variants, c in wrong:
            ck.violation(f"{b.path}|{c}|{how}", f"{b.where(ln if isinstance(ln, int) else None)} {b.path}: {e} of {c} is swallowed ({how}{': ' + variants if variants else ''})")
    for k, v in CONTRACT.items(): ck.sample(f"{k[0]} {k[1]}: {v[2]}")
    ck.floor("calls that can fail", 1200)
    return ck.finish("a failure is passed on if its holder is returned, propagated with ?, unwrapped, or its payload is used; or every way on from it returns a failure")
