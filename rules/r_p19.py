"""P19: what is serialised reads back as it was."""
import re
from fieldflow import Fields
from mir import callee, pl, succs
from report import Check


def last(t): return re.sub(r"<'[^>]*>$", "", t).split("::")[-1].split("<")[0]


def text(o):
    return o[1].get("str") if o[0] == "k" and isinstance(o[1], dict) else None


def impls(db, trait):
    """type -> bodies of its implementation"""
    out = {}
    for b in db.bodies.values():
        p = b.path
        m = re.search(rf"impl serde(?:_core)?::{trait}(?:<[^>]*>)? for ([^>]*?(?:<[^<>]*>)?)>::(?:de)?serialize", p) or re.match(rf"<([^>]*?(?:<[^<>]*>)?) as serde(?:_core)?::{trait}(?:<[^>]*>)?>::(?:de)?serialize", p)
        if m and not m.group(1).split("::")[-1].startswith("__") and "::_::<impl" not in m.group(1): out.setdefault(m.group(1).split("<")[0], []).append(b)
    return out


def dominated(b, arm):
    """blocks that run only after the arm's first block"""
    live = b.reachable(); seen = {0}; st = [0]
    if arm == 0: return live
    while st:
        for y in succs(b.blocks[st.pop()]):
            if y != arm and y in live and y not in seen: seen.add(y); st.append(y)
    return live - seen


def arms(b, ty):
    """(block of the switch, value, blocks of the arm) of every switch on a variant of a type named ty"""
    d = {}
    for bb in b.blocks:
        for p, r, ln in bb[0] if bb else ():
            if r[0] == "discr":
                l, pr = pl(r[1]); x = b.ty(l)
                for e in pr:
                    if isinstance(e, (list, tuple)) and e[0] == "." and len(e) > 4: x = b.db.types[e[4]]
                x = x.lstrip("&").replace("mut ", "")
                if re.search(r"::__Field(<'\w+>)?$", x): x = "__Field"
                x = x.split("<'")[0]
                x = re.sub(r"<[^<>]*(<[^<>]*>)*[^<>]*>$", "", x) if not x.endswith("__Field") else "__Field"
                if x in (ty, "siderust::" + ty): d[pl(p)[0]] = x
    for bi in b.reachable():
        t = b.blocks[bi][1]
        if t[0] == "switch" and t[1][0] != "k" and pl(t[1][1])[0] in d:
            vals = [(v, s) for v, s in ((z[0], z[1]) for z in t[2])]
            for v, s in vals: yield bi, v, dominated(b, s)
            if b.blocks[t[3]] is not None and b.blocks[t[3]][1][0] != "unreachable": yield bi, None, dominated(b, t[3])


def names_read(bodies):
    """name -> number of the field or variant it selects, from visit_str"""
    out = {}
    for b in bodies:
        if b.kind != "fn" or not b.path.endswith("::visit_str"): continue
        for bi in b.reachable():
            t = b.blocks[bi][1]
            if t[0] != "call" or not (callee(t)[0] or "").endswith("::eq"): continue
            s = next((text(o) for o in t[2] if text(o) is not None), None)
            nxt = b.blocks[t[4]][1] if t[4] is not None else None
            if s is None or nxt is None or nxt[0] != "switch": continue
            yes = nxt[3] if [z[0] for z in nxt[2]] == [0] else next((z[1] for z in nxt[2] if z[0] == 1), None)
            for p, r, ln in b.blocks[yes][0] if yes is not None else ():
                if r[0] == "agg" and r[1][0] == "adt" and r[1][1].endswith("__Field"): out[s] = r[1][2]
    return out


def sources(b, o, stop, seen=None):
    """blocks of the stop calls a value comes from"""
    seen = set() if seen is None else seen
    if o[0] == "k": return set()
    l = pl(o[1])[0]
    if l in seen: return set()
    seen.add(l); out = set()
    for bi, bb in enumerate(b.blocks):
        if bb is None: continue
        for p, r, ln in bb[0]:
            if pl(p)[0] == l:
                for q in F.operands(r): out |= sources(b, q, stop, seen)
        t = bb[1]
        if t[0] == "call" and pl(t[3])[0] == l:
            if stop(callee(t)[0] or ""): out.add(bi)
            elif not (callee(t)[0] or "").endswith(("missing_field", "default")):
                for q in t[2]: out |= sources(b, q, stop, seen)
    return out


def inexact(b):
    """a predicate that orders floating-point values"""
    return any(r[0] == "bin" and r[1] in ("Lt", "Le", "Gt", "Ge") and any(o[0] != "k" and b.ty(pl(o[1])[0]) in ("f64", "f32") for o in r[2:4]) for bi in b.reachable() for p, r, ln in b.blocks[bi][0])


def fields_read(vm, t):
    """field -> (numbers of the names it is read from, types it is read as)"""
    nv = lambda c: c.endswith("::next_value"); by, got = {}, {}
    for bi, v, blocks in arms(vm, "__Field"):
        for x in blocks:
            c = vm.blocks[x][1]
            if v is not None and c[0] == "call" and nv(callee(c)[0] or ""): by.setdefault(x, v)
    for bi in vm.reachable():
        for p, r, ln in vm.blocks[bi][0]:
            if r[0] == "agg" and r[1][0] == "adt" and len(r[1]) > 5 and last(r[1][1]) == last(t):
                for f, o in zip(r[1][5], r[2]):
                    src = sources(vm, o, nv)
                    got[f] = {by.get(x) for x in src}, {(callee(vm.blocks[x][1])[2].get("a") or ["", ""])[1] for x in src}
    return got


def run(db):
    global F
    ck = Check("P19", "structural comparison on MIR of every pair of Serialize and Deserialize implementations: names, fields and variants written against names, fields and variants read")
    F = Fields(db); S, D = impls(db, "ser::Serialize"), impls(db, "de::Deserialize")
    for t in sorted(S):
        a = db.adts.get("siderust::" + t) or db.adts.get(t)
        if a is None: continue
        short, key = t, t.split("::")[-1]; w = next((b for b in S[t] if b.path.endswith("::serialize")), None); rd = D.get(t, [])
        where = w.where() if w else ""; ck.count("types")
        def bad(k, msg): ck.violation(f"{t}|{k}", f"{where} {short}: {msg}")
        out = names_read(rd)
        vis = [b for b in rd if b.kind == "fn" and b.path.endswith(("::visit_map", "::visit_enum"))]
        if a["kind"] == "Struct":
            fields = {f[0]: f[1] for f in a["variants"][0][1]}; wrote = {}
            C = F.control(w)
            for bi in w.reachable():
                c = w.blocks[bi][1]
                if c[0] != "call" or (callee(c)[0] or "").split("::")[-1] not in ("serialize_field", "serialize_entry"): continue
                n = text(c[2][1]); rec = callee(c)[2]; cells = set()
                tr = repr(F.tree(w, c[2][2])).replace("\\", "")
                cells = {f for f in fields if f"'{f}'" in tr}
                if n is None: continue
                own = [s for s in C.get(bi, ()) if not F.presence(w, s)]
                for f in cells: wrote.setdefault(f, []).append((n, (rec.get("a") or ["", ""])[1], own))
            if not wrote:
                # delegated to another type's implementation
                ws = {x for bi in w.reachable() for c in [w.blocks[bi][1]] if c[0] == "call" and (callee(c)[0] or "").endswith("::serialize") for x in (callee(c)[2].get("a") or [])[:1]}
                rs = {x for b in rd for bi in b.reachable() for c in [b.blocks[bi][1]] if c[0] == "call" and (callee(c)[0] or "").endswith("::deserialize") for x in (callee(c)[2].get("a") or [])[:1]}
                ck.ob(); ck.count("delegated")
                if rd and ws and not ws & rs and not any("newtype" in (callee(w.blocks[bi][1])[0] or "") for bi in w.reachable() if w.blocks[bi][1][0] == "call"): bad("delegated", f"is written as {', '.join(sorted(ws))} and read as {', '.join(sorted(rs)) or 'something else'}")
                continue
            vm = next((b for b in vis if b.path.endswith("::visit_map")), None)
            got = {}
            if vm is not None: got = fields_read(vm, t)
            else:
                # read as another record, whose fields are then put in place
                for x in {x for b in rd for bi in b.reachable() for c in [b.blocks[bi][1]] if c[0] == "call" and (callee(c)[0] or "").endswith("::deserialize") for x in (callee(c)[2].get("a") or [])[:1]}:
                    xs = [b for b in db.bodies.values() if b.kind == "fn" and re.search(rf"::Deserialize<'de> for (\S*::)?{last(x)}(<'\w+>)?>::deserialize::|::{last(x)}>::deserialize::", b.path)]
                    xm = next((b for b in xs if b.path.endswith("::visit_map")), None)
                    if xm is None: continue
                    inner = fields_read(xm, x)
                    for b in rd + [b for b in db.bodies.values() if re.search(r"::(try_)?from$", b.path) and t in b.path]:
                        for bi in b.reachable():
                            for p, r, ln in b.blocks[bi][0]:
                                if r[0] == "agg" and r[1][0] == "adt" and len(r[1]) > 5 and r[1][1].split("<")[0] in (t, "siderust::" + t):
                                    for f, o in zip(r[1][5], r[2]):
                                        tr = repr(F.tree(b, o)).replace("\\", ""); g = [q for q in inner if f"'{q}'" in tr]
                                        if len(g) == 1: got[f] = inner[g[0]]
                    if got: vm, out = xm, names_read(xs)
            for f, ft in fields.items():
                ck.ob(); ck.count("fields")
                if f not in wrote: bad(f"{f}|not written", f"field {f} is not serialised"); continue
                n, ty, own = wrote[f][0]
                if len(wrote[f]) > 1: bad(f"{f}|twice", f"field {f} is serialised more than once"); continue
                if vm is None or not got: ck.count("readers not decided"); continue
                need = any(c[0] == "call" and (callee(c)[0] or "").endswith("::missing_field") and any(text(o) == n for o in c[2]) for bi in vm.reachable() for c in [vm.blocks[bi][1]])
                if own and need and not ft.startswith("core::option::Option"): bad(f"{f}|sometimes", f"field {f} is serialised only under a decision, and reading requires it"); continue
                for q in own:
                    o = w.blocks[q][1][1]
                    for bi in w.reachable():
                        c = w.blocks[bi][1]
                        if o[0] != "k" and c[0] == "call" and pl(c[3])[0] == pl(o[1])[0]:
                            g = db.bodies.get((callee(c)[2] or {}).get("id"))
                            if g is not None and inexact(g): bad(f"{f}|nearly", f"field {f} is left out for a range of values, which do not read back"); own = None
                    if own is None: break
                if own is None: continue
                if n not in out: bad(f"{f}|name", f"field {f} is written as \"{n}\", a name that is not read"); continue
                if f not in got and vm.path.find(key) < 0: ck.count("readers not decided"); continue
                if not got.get(f, (set(),))[0]: bad(f"{f}|not read", f"field {f} is not read back"); continue
                if got[f][0] != {out[n]}: bad(f"{f}|crossed", f"field {f} is written as \"{n}\" but read from another name"); continue
                same = lambda x: x == "&" + ft or x.replace("siderust::", "") == ft.replace("siderust::", "")
                plain_w, plain_r = same(ty), all(same(x) for x in got[f][1])
                if plain_w != plain_r: bad(f"{f}|form", f"field {f} is {'written' if plain_r else 'read'} in another form than it is {'read' if plain_r else 'written'}")
            ck.sample(f"{short}: {len(fields)} fields written and read back under the same names")
        else:
            wrote, inside, all_names, refused = {}, {}, {}, set()
            for b in rd: all_names.update(names_read([b]))
            for bi, v, blocks in arms(w, t):
                for x in blocks:
                    c = w.blocks[x][1]
                    if c[0] == "call" and v is not None and (callee(c)[0] or "").endswith("SerializeStructVariant::serialize_field"):
                        n = next((text(o) for o in c[2] if text(o)), None)
                        inside.setdefault(v, []).append((n, repr(F.tree(w, c[2][2])).replace("\\", "")))
                    if c[0] == "call" and "_variant" in (callee(c)[0] or "").split("::")[-1] and v is not None:
                        n = [text(o) for o in c[2] if text(o)]
                        if len(n) > 1: wrote[v] = n[1]
                        if (callee(c)[0] or "").endswith("_struct_variant"): inside.setdefault(v, [])
                    if c[0] == "call" and v is not None and (callee(c)[0] or "").endswith("Error::custom"): refused.add(v)
            if not wrote:
                ck.count("enums written by hand"); continue
            read = {}
            ve = next((b for b in vis if b.path.endswith("::visit_enum")), None)
            if ve is not None:
                for bi, v, blocks in arms(ve, "__Field"):
                    for x in blocks:
                        for p, r, ln in ve.blocks[x][0]:
                            if v is not None and r[0] == "agg" and r[1][0] == "adt" and r[1][1].split("<")[0] in (t, "siderust::" + t): read.setdefault(v, set()).add(r[1][2])
            for i, v in enumerate(a["variants"]):
                ck.ob(); ck.count("variants"); vn = v[0]
                if i in refused: bad(f"{vn}|refused", f"variant {vn} cannot be serialised"); continue
                if i not in wrote: ck.count("variants not decided"); continue
                if i in inside:
                    for f in v[1]:
                        ck.ob(); ck.count("fields"); here = [n for n, tr in inside[i] if f"'{f[0]}'" in tr]
                        if not here: bad(f"{vn}.{f[0]}|not written", f"field {f[0]} of variant {vn} is not serialised")
                        elif rd and all_names and here[0] not in all_names: bad(f"{vn}.{f[0]}|name", f"field {f[0]} of variant {vn} is written as \"{here[0]}\", a name that is not read")
                if list(wrote.values()).count(wrote[i]) > 1: bad(f"{vn}|shared", f"variant {vn} shares the name \"{wrote[i]}\" with another one"); continue
                if ve is None: continue
                if wrote[i] not in out: bad(f"{vn}|name", f"variant {vn} is written as \"{wrote[i]}\", a name that is not read"); continue
                r = read.get(out[wrote[i]])
                if r is not None and r != {i}: bad(f"{vn}|crossed", f"variant {vn} is written as \"{wrote[i]}\", which reads as another variant")
            ck.sample(f"{short}: {len(a['variants'])} variants written and read back under the same names")
    ck.floor("types", 10); ck.floor("fields", 40); ck.floor("variants", 10)
    return ck.finish("a field reads back if the value stored in it comes from the name it is written under; a variant if its name selects it")
