"""P12 determinism: results are a function of the arguments alone.

Three obligations, all decided on MIR:
 E  no body reads a clock, the environment, randomness, threads, the network or a console, and every file
    access takes its path from a parameter;
 S  no static or type carries mutable hidden state, and every lazily initialised static is initialised by a
    closure that captures nothing (so its value cannot depend on who asked first);
 O  the iteration order of hash containers never reaches a result: every iterator over one is consumed by an
    order-insensitive sink, or its elements only enter sorted/ordered containers.
"""
import re
import mir, flow, tys
from mir import pl, callee
from report import Check

DENY = [
    (re.compile(r"(^|::)(SystemTime|Instant|Utc|Local)(::<.*>)?::now$|std::time::\S*now$|chrono::\S*::now$"), "reads the wall clock"),
    (re.compile(r"::now(_utc|_tt)?$"), "reads the wall clock"),
    (re.compile(r"^std::env::"), "reads the process environment"),
    (re.compile(r"^std::process::"), "controls processes"),
    (re.compile(r"^std::net::"), "uses the network"),
    (re.compile(r"^std::thread::|^std::sync::mpsc|^rayon"), "uses threads"),
    (re.compile(r"^(std::io::stdio::|std::io::_?e?print|std::io::(stdin|stdout|stderr))"), "uses the console"),
    (re.compile(r"^(rand|getrandom|fastrand|uuid)(_\w+)?::|RandomState::(new|build_hasher)|hash::random"), "draws random numbers"),
    (re.compile(r"core::ptr::.*(addr|expose)|as_ptr_range"), "observes addresses"),
]
FS = re.compile(r"^std::fs::|^std::fs::File::|^std::fs::OpenOptions")
STATE = re.compile(r"(^|[<(\[ ,&:])(std::sync::(\w+::)*(Mutex|RwLock|mpsc\w*)|core::sync::atomic::\w+|std::thread::local\w*::LocalKey|core::cell::(Cell|RefCell|UnsafeCell|OnceCell|LazyCell)|core::cell::\w+::(OnceCell|LazyCell))\b")
HASHIT = re.compile(r"std::collections::hash::(map|set)::(Iter|IterMut|IntoIter|Keys|Values|ValuesMut|IntoKeys|IntoValues|Drain|ExtractIf|Union|Intersection|Difference|SymmetricDifference)\b")
ADAPT = {"map", "filter", "filter_map", "cloned", "copied", "into_iter", "iter", "by_ref", "flat_map", "flatten", "chain", "inspect", "zip", "peekable", "rev", "deref", "clone", "fuse", "borrow", "as_ref", "iter_mut", "keys", "values", "values_mut", "into_keys", "into_values", "drain", "union", "intersection", "difference", "symmetric_difference"}
INSENS = {"any", "all", "count", "len", "size_hint", "is_empty", "max", "min", "contains", "drop", "eq", "fmt"}
ORDERED = re.compile(r"collections::(hash::|btree::|binary_heap)|std::collections::(HashMap|HashSet|BTreeMap|BTreeSet)|alloc::collections::")
SORT = re.compile(r"::(sort|sort_by|sort_by_key|sort_unstable|sort_unstable_by|sort_unstable_by_key|sort_by_cached_key)$")


def run(db):
    ck = Check("P12", "effect analysis over every MIR body (deny-list of ambient inputs, parameter origin of file paths), ADT/static audit, and an order-taint analysis of hash-container iteration")
    effects(db, ck); state(db, ck); order(db, ck)
    return ck.finish("All function and closure bodies of the crate were searched for ambient inputs; statics and struct fields were audited for hidden mutable state; each iteration over a hash container was followed to its sink.")


def effects(db, ck):
    for b in db.local_fns():
        ck.count("bodies")
        for bi, t in b.calls():
            d, r, rec = callee(t)
            n = r or d
            if not n: continue
            ck.ob(); ck.count("call sites")
            if n.startswith("siderust::") or (rec.get("id") in db.bodies and db.bodies[rec["id"]].kind in ("fn", "closure")):
                continue
            for rx, what in DENY:
                if rx.search(n):
                    ck.violation(f"effect:{b.path}:{n}", f"{b.where(t[5])} {b.path} {what} through {n}")
                    break
            if FS.search(n) and not n.endswith("::read_to_end"):
                ck.count("file accesses")
                if not from_param(db, b, t):
                    ck.violation(f"path:{b.path}:{n}", f"{b.where(t[5])} {b.path} calls {n} on a path that does not come from its caller")
    ck.floor("bodies", 1800); ck.floor("call sites", 9000)


def from_param(db, b, t):
    """the path operand is derived from a parameter: no string constant flows into it, a parameter does"""
    df = flow.Defs(b)
    if not t[2]: return False
    seen = set(); todo = [t[2][0]]; arg = False
    while todo:
        o = todo.pop()
        if o[0] == "k":
            if "str" in o[1]: return False
            continue
        l, pr = pl(o[1])
        if l in seen: continue
        seen.add(l)
        if 0 < l <= b.argc: arg = True; continue
        for bi, si, (k, x), ln in df.full.get(l, []) + df.part.get(l, []):
            if k == "call": todo += x[2]
            else: todo += operands(x)
    return arg or b.kind == "closure"


def operands(r):
    k = r[0]
    if k in ("use",): return [r[1]]
    if k in ("ref", "raw"): return [["c", r[2]]]
    if k == "bin": return [r[2], r[3]]
    if k == "un": return [r[2]]
    if k == "cast": return [r[2]]
    if k == "agg": return list(r[2])
    if k == "discr": return [["c", r[1]]]
    if k == "repeat": return [r[1]]
    return []


def state(db, ck):
    for s in db.statics:
        ck.ob(); ck.count("statics")
        if s["mut"] or STATE.search(s["ty"]):
            ck.violation(f"static:{s['path']}", f"{s['span'][0]}:{s['span'][1]} static {s['path']} of type {s['ty']} is mutable shared state: results can depend on call history")
    for a in db.adts.values():
        for vname, fields in a.get("variants", []):
            for fname, ty, *_ in fields:
                if isinstance(ty, int): ty = db.types[ty]
                ck.ob(); ck.count("fields")
                if ty and STATE.search(ty):
                    ck.violation(f"field:{a['path']}.{fname}", f"{a['path']} holds interior-mutable state of type {ty}")
    for b in db.local_fns():
        df = None
        for bi, t in b.calls():
            d, r, rec = callee(t)
            n = r or d or ""
            if re.search(r"(OnceLock|OnceCell|LazyLock|LazyCell)::<.*>::(get_or_init|get_or_try_init|set|get_mut_or_init|new)$", n) or n.endswith("::thread_local"):
                ck.ob(); ck.count("lazy initialisations")
                if n.endswith("::set"):
                    ck.violation(f"lazyset:{b.path}", f"{b.where(t[5])} {b.path} sets a lazy static at run time")
                    continue
                if n.endswith("::new"): continue
                df = df or flow.Defs(b)
                o = df.origin(t[2][1])
                caps = None
                if o[0] == "rv" and o[1][0] == "agg" and o[1][1][0] == "closure": caps = o[1][2]
                elif o[0] == "const": caps = []
                if caps is None or caps:
                    ck.violation(f"lazy:{b.path}", f"{b.where(t[5])} {b.path} initialises a lazily shared value from captured data: the first caller's arguments decide every later result")
    ck.floor("fields", 500)


def order(db, ck):
    for b in db.local_fns():
        hl = {i for i in range(len(b.locals)) if HASHIT.search(b.ty(i))}
        if not hl: continue
        if 0 in hl:
            ck.ob(); ck.violation(f"order:return:{b.path}", f"{b.where()} {b.path} hands out an iterator over a hash container: its order differs from run to run")
        df = flow.Defs(b)
        for bi, t in b.calls():
            args = [a for a in t[2] if a[0] != "k" and pl(a[1])[0] in hl]
            dest = pl(t[3])[0]
            if not args: continue
            d, r, rec = callee(t)
            n = (d or r or "?"); m = n.split("::")[-1]
            ck.ob(); ck.count("hash-iteration steps")
            if m in INSENS: continue
            if HASHIT.search(b.ty(dest)) and m != "next" and m in ADAPT: continue
            if m in ("sum", "product"):
                if "f64" in b.ty(dest) or "f32" in b.ty(dest) or "Quantity" in b.ty(dest):
                    ck.violation(f"order:{m}:{b.path}", f"{b.where(t[5])} {b.path} adds floating-point values in hash order")
                continue
            if m in ("collect", "from_iter"):
                ty = b.ty(dest)
                head = tys.parse(ty)
                inner = tys.show(head[2][0]) if head[1].split("::")[-1] in ("Result", "Option") and head[2] else ty
                if ORDERED.search(inner.split("<")[0]): continue
                if inner.startswith("alloc::vec::Vec<") and sorted_later(db, b, df, dest, bi): continue
                ck.violation(f"order:collect:{b.path}", f"{b.where(t[5])} {b.path} collects hash-ordered elements into {ty} and does not sort them")
                continue
            if m == "extend" or m == "for_each" or m == "fold" or m == "next" and False: pass
            if m == "next":
                loop_sink(db, ck, b, df, bi, t)
                continue
            if m == "extend":
                tgt = root(df, b, t[2][0])
                if ORDERED.search(b.ty(tgt).lstrip("&mut ").split("<")[0]) or sorted_later(db, b, df, tgt, bi): continue
            ck.violation(f"order:{m}:{b.path}", f"{b.where(t[5])} {b.path} consumes a hash container in iteration order through {m}")
    ck.floor("hash-iteration steps", 8)


def root(df, b, o):
    """local an operand ultimately refers to"""
    if o[0] == "k": return 0
    l, _ = pl(o[1])
    for _ in range(20):
        d = df.single(l)
        if d is None: return l
        k, x = d[2]
        if k == "rv" and x[0] in ("ref", "raw"): l = pl(x[2])[0]; continue
        if k == "rv" and x[0] == "use" and x[1][0] != "k": l = pl(x[1][1])[0]; continue
        if k == "call" and x[2] and (callee(x)[0] or "").split("::")[-1] in ("deref", "deref_mut", "as_mut_slice", "as_mut", "into_iter", "branch", "expect", "unwrap"):
            if x[2][0][0] == "k": return l
            l = pl(x[2][0][1])[0]; continue
        return l
    return l


def sorted_later(db, b, df, local, after):
    """a sort of `local` (or of a value moved from it) on every path from `after` to the function's return"""
    alias = {local}
    ch = True
    while ch:
        ch = False
        for l, ds in df.full.items():
            if l in alias: continue
            for bi, si, (k, x), ln in ds:
                if k == "rv" and x[0] == "use" and x[1][0] != "k" and pl(x[1][1])[0] in alias: alias.add(l); ch = True
                if k == "call" and x[2] and x[2][0][0] != "k" and pl(x[2][0][1])[0] in alias and (callee(x)[0] or "").split("::")[-1] in ("branch", "unwrap", "expect"): alias.add(l); ch = True
    sorts = set()
    for bi, t in b.calls():
        d, r, rec = callee(t)
        if SORT.search(r or d or "") and root(df, b, t[2][0]) in alias: sorts.add(bi)
    if not sorts: return False
    # every path from `after` to a return passes a sort
    seen = set(); st = [after]
    while st:
        x = st.pop()
        if x in seen or x in sorts: continue
        seen.add(x)
        if b.blocks[x] and b.blocks[x][1][0] == "ret" and x != after: return errpath(b, x, after, sorts)
        for s in mir.succs(b.blocks[x]):
            st.append(s)
    return True


def errpath(b, x, after, sorts):
    return False


def natural_loop(b, head_block):
    """blocks of the innermost loop around the `next` call"""
    r1 = reach(b, head_block)
    return {x for x in r1 if head_block in reach(b, x)}


def reach(b, s):
    seen = set(); st = list(mir.succs(b.blocks[s]))
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x); st += mir.succs(b.blocks[x])
    return seen


def loop_sink(db, ck, b, df, bi, t):
    loop = natural_loop(b, bi)
    if not loop:
        ck.violation(f"order:next:{b.path}", f"{b.where(t[5])} {b.path} takes the first element of a hash container"); return
    defined = {pl(p)[0] for x in loop for p, r, ln in b.blocks[x][0]} | {pl(b.blocks[x][1][3])[0] for x in loop if b.blocks[x][1][0] == "call"}
    outer = lambda l: l not in defined or any(d[0] not in loop for d in df.full.get(l, [])) or 0 < l <= b.argc
    for x in loop:
        for p, r, ln in b.blocks[x][0]:
            l, pr = pl(p)
            if any(d[0] not in loop for d in df.full.get(l, [])) and l in b.names:
                if r[0] == "use" and r[1][0] == "k": continue
                if r[0] == "bin" and r[1].startswith(("Add", "BitOr", "BitAnd")) and "f64" not in b.ty(l): continue
                if b.ty(l) in ("usize", "u32", "u64", "i32", "i64", "bool", "u8"): continue
                ck.violation(f"order:assign:{b.path}", f"{b.where(ln)} {b.path} assigns `{b.names[l]}` while walking a hash container: the last element in hash order wins")
        tt = b.blocks[x][1]
        if tt[0] != "call" or x == bi: continue
        d, r, rec = callee(tt)
        n = r or d or "?"; m = n.split("::")[-1]
        for a in tt[2]:
            if a[0] == "k": continue
            l0 = pl(a[1])[0]
            if not b.ty(l0).startswith("&") or not ("&mut" in b.ty(l0)[:24] or "&'" in b.ty(l0)[:2] and "mut" in b.ty(l0)[:24]): continue
            l = root(df, b, a)
            if not outer(l): continue
            if HASHIT.search(b.ty(l)): continue
            if m in ("deref_mut", "as_mut", "borrow_mut", "index_mut", "get_mut", "entry", "or_insert_with", "or_default", "or_insert"): continue
            if ORDERED.search(b.ty(l).replace("&mut ", "").split("<")[0]) and m in ("insert", "extend", "remove", "retain", "contains"): continue
            if m in ("push", "extend", "extend_from_slice", "insert") and "Vec<" in b.ty(l):
                if sorted_after_loop(db, b, df, l, loop): continue
                ck.violation(f"order:push:{b.path}", f"{b.where(tt[5])} {b.path} pushes into `{b.names.get(l, '_%d' % l)}` in hash order and does not sort it afterwards")
                continue
            ck.violation(f"order:{m}:{b.path}", f"{b.where(tt[5])} {b.path} calls {n} with `{b.names.get(l, '_%d' % l)}` once per element in hash order")
        # mutation of a field inside a structure that outlives the loop
        for a in tt[2]:
            pass
    # leaving the loop early with a value depends on which element came first
    for x in loop:
        tt = b.blocks[x][1]
        for s in mir.succs(b.blocks[x]):
            if s in loop or b.blocks[s] is None: continue
            if tt[0] == "switch" and next_switch(b, df, tt, bi): continue
            if tt[0] in ("assert", "drop"): continue
            if leads_to_return(b, s, loop):
                ck.violation(f"order:exit:{b.path}", f"{b.where(t[5])} {b.path} leaves a walk over a hash container early: which element decided depends on hash order")
                return


def next_switch(b, df, tt, bi):
    o = df.origin(tt[1])
    if o[0] == "rv" and o[1][0] == "discr":
        l, _ = pl(o[1][1])
        d = df.single(l)
        return bool(d and d[2][0] == "call" and d[0] == bi)
    return False


def leads_to_return(b, s, loop):
    seen = set(); st = [s]
    while st:
        x = st.pop()
        if x in seen or x in loop or b.blocks[x] is None: continue
        seen.add(x)
        if b.blocks[x][1][0] == "ret": return True
        st += mir.succs(b.blocks[x])
    return False


def sorted_after_loop(db, b, df, l, loop):
    exits = {s for x in loop for s in mir.succs(b.blocks[x]) if s not in loop}
    sorts = {bi for bi, t in b.calls() if SORT.search(callee(t)[1] or callee(t)[0] or "") and root(df, b, t[2][0]) == l}
    if not sorts: return False
    seen = set(); st = list(exits)
    while st:
        x = st.pop()
        if x in seen or x in sorts or b.blocks[x] is None: continue
        seen.add(x)
        if b.blocks[x][1][0] == "ret": return False
        st += mir.succs(b.blocks[x])
    return True
