"""P20: what the library exports can be shared between threads, and its errors are errors."""
from report import Check

# holds an ephemeris object of the caller, which need not be shareable
CALLERS = {"siderust::coordinates::transform::context::DynAstroContext.ephemeris"}


def split(t):
    """arguments of the outermost generic type"""
    if "<" not in t: return []
    s = t[t.index("<") + 1:t.rindex(">")]; out, n, cur = [], 0, ""
    for i, c in enumerate(s):
        if c in "<([": n += 1
        if c in ")]" or c == ">" and s[i - 1] != "-": n -= 1
        if c == "," and n == 0: out.append(cur.strip()); cur = ""
        else: cur += c
    return out + [cur.strip()]


def run(db):
    ck = Check("P20", "auto-trait and trait queries to the compiler's trait solver for every field of every exported type and every error type of an exported function")
    for a in db.adts.values():
        if not a["pub"]: continue
        ck.count("exported types"); p = a["path"]; where = f"{a['span'][0]}:{a['span'][1]}"
        for v in a["variants"]:
            for f in v[1]:
                ck.ob(); ck.count("fields of exported types")
                if f[3] == "sy": continue
                name = f"{p}.{f[0]}" if a["kind"] != "Enum" else f"{p}::{v[0]}.{f[0]}"
                if name in CALLERS: ck.count("held for the caller"); continue
                what = {"": "moved to or shared with", "s": "shared with", "y": "moved to"}.get(f[3], "shown to be shareable with")
                ck.violation(name, f"{where} {name}: {f[1]} cannot be {what} another thread, so neither can {p.split('::')[-1]}")
    byname = {}
    for a in db.adts.values(): byname[a["path"].removeprefix("siderust::")] = a
    seen = {}
    for b in db.bodies.values():
        if b.kind != "fn" or not b.d.get("pub"): continue
        t = b.ty(0)
        if not t.startswith("core::result::Result<"): continue
        e = split(t); e = e[1] if len(e) == 2 else ""
        a = byname.get(e.split("<")[0].removeprefix("siderust::"))
        if a is not None: seen.setdefault(a["path"], (a, b)); ck.count("fallible exported functions")
    for p, (a, b) in sorted(seen.items()):
        ck.ob(); ck.count("error types")
        if not a["err"]: ck.violation(f"{p}|error", f"{b.where()} {b.path} returns {p} as its error, which does not implement std::error::Error")
    ck.sample(f"errors: {', '.join(x.split('::')[-1] for x in sorted(seen))}")
    ck.floor("exported types", 250); ck.floor("fields of exported types", 600); ck.floor("error types", 10)
    return ck.finish("a type is shareable if the trait solver proves Send and Sync for each of its fields, taking the type's own parameters and their associated types to be")
