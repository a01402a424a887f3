"""P13 memory safety: the crate contains no construct that could break Rust's guarantees."""
import re
from mir import callee
from report import Check


def run(db):
    ck = Check("P13", "HIR/MIR audit: no user-written unsafe block, unsafe function, unsafe trait implementation, raw-pointer dereference or call of an unsafe function")
    for u in db.unsafes:
        ck.violation(f"unsafe:{u['span'][0]}:{u['what']}", f"{u['span'][0]}:{u['span'][1]} {u['what']}")
    for s in db.sigs.values():
        ck.ob(); ck.count("functions")
        if s["unsafe"]: ck.violation(f"unsafefn:{s['path']}", f"{s['span'][0]}:{s['span'][1]} unsafe fn {s['path']}")
    for im in db.impls:
        ck.ob(); ck.count("impls")
        if im.get("trait") in ("core::marker::Send", "core::marker::Sync"):
            ck.violation(f"unsafeimpl:{im['id']}", f"{im['span'][0]}:{im['span'][1]} hand-written {im['trait']} for {im['self']}")
    for b in db.local_fns():
        ck.ob(); ck.count("bodies")
        for bi, t in b.calls():
            d, r, rec = callee(t)
            n = r or d or ""
            if re.search(r"::(get_unchecked|get_unchecked_mut|unwrap_unchecked|from_utf8_unchecked|unreachable_unchecked|transmute|from_raw_parts(_mut)?|assume_init|set_len|from_u32_unchecked|slice_unchecked|unchecked_(add|sub|mul))$", n):
                ck.violation(f"unchecked:{b.path}:{n}", f"{b.where(t[5])} {b.path} calls {n}")
    ck.floor("functions", 2500); ck.floor("bodies", 3000)
    return ck.finish("Every function signature, implementation and body of the crate was inspected for unsafe code.")
