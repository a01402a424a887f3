// MIR fact extractor. Injected as RUSTC_WORKSPACE_WRAPPER; for the crate named in
// VFACTS_CRATE it writes one JSON object per line to $VFACTS_OUT and otherwise
// behaves exactly like rustc.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_hir::def::DefKind;
use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use rustc_middle::ty::{TypeVisitableExt, Upcast};
use rustc_span::def_id::DefId;
use rustc_trait_selection::infer::InferCtxtExt;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::io::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn join(v: &[String]) -> String { format!("[{}]", v.join(",")) }

macro_rules! pp { ($e:expr) => { ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!($e)) } }

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    tylist: Vec<Ty<'tcx>>,
    krate: String,
    deps: Vec<String>,
    seen: HashSet<DefId>,
    queue: VecDeque<DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let s = pp!(self.tcx.def_path_str(d));
        if d.is_local() && !s.starts_with('<') { format!("{}::{}", self.krate, s) } else { s }
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.tys.get(&t) { return i; }
        let i = self.tylist.len();
        self.tys.insert(t, i);
        self.tylist.push(t);
        i
    }
    fn tys_str(&self, t: Ty<'tcx>) -> String { pp!(format!("{}", t)) }
    fn args(&self, a: GenericArgsRef<'tcx>) -> String {
        let v: Vec<String> = a.iter().filter(|g| g.as_region().is_none())
            .map(|g| esc(&pp!(format!("{}", g)))).collect();
        join(&v)
    }
    fn span(&self, sp: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp2 = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp2.lo());
        let f = lo.file.name.prefer_remapped_unconditionally().to_string();
        format!("[{},{}]", esc(&f), lo.line)
    }
    fn line(&self, sp: rustc_span::Span) -> usize {
        self.tcx.sess.source_map().lookup_char_pos(sp.source_callsite().lo()).line
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut pr = vec![];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => pr.push("\"*\"".to_string()),
                ProjectionElem::Field(f, fty) => {
                    // field name
                    let mut name = format!("{}", f.as_usize());
                    let mut owner = String::new();
                    if let ty::Adt(ad, _) = pt.ty.kind() {
                        owner = self.path(ad.did());
                        let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                        if vi.as_usize() < ad.variants().len() {
                            let v = ad.variant(vi);
                            if f.as_usize() < v.fields.len() { name = v.fields[f].name.to_string(); }
                        }
                    }
                    let fi = self.ty(fty);
                    pr.push(format!("[\".\",{},{},{},{}]", f.as_usize(), esc(&name), esc(&owner), fi))
                }
                ProjectionElem::Index(l) => pr.push(format!("[\"[]\",{}]", l.as_usize())),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } =>
                    pr.push(format!("[\"[c]\",{},{},{}]", offset, min_length, from_end)),
                ProjectionElem::Subslice { from, to, from_end } =>
                    pr.push(format!("[\"[s]\",{},{},{}]", from, to, from_end)),
                ProjectionElem::Downcast(n, v) =>
                    pr.push(format!("[\"as\",{},{}]", v.as_usize(), esc(&n.map(|x| x.to_string()).unwrap_or_default()))),
                _ => pr.push("\"?\"".to_string()),
            }
            pt = pt.projection_ty(self.tcx, e);
        }
        if pr.is_empty() { format!("{}", p.local.as_usize()) } else { format!("[{},{}]", p.local.as_usize(), pr.join(",")) }
    }
    fn enqueue(&mut self, d: DefId) {
        if self.seen.contains(&d) { return; }
        if d.is_local() { return; }
        let cn = self.tcx.crate_name(d.krate).to_string();
        if self.deps.iter().any(|x| *x == cn) {
            self.seen.insert(d);
            self.queue.push_back(d);
        }
    }
    fn fnref(&mut self, env: TypingEnv<'tcx>, d: DefId, a: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut s = format!("{{\"p\":{},\"a\":{}", esc(&self.path(d)), self.args(a));
        let a2 = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new(a)).unwrap_or(a);
        let a3 = tcx.erase_and_anonymize_regions(a2);
        if let Some(tr) = tcx.trait_of_assoc(d) { let _ = write!(s, ",\"t\":{}", esc(&self.path(tr))); }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, a3) {
                let rd = inst.def_id();
                self.enqueue(rd);
                match inst.def {
                    ty::InstanceKind::Item(_) => {
                        let _ = write!(s, ",\"r\":{}", esc(&self.path(rd)));
                        let ra = self.args(inst.args);
                        let _ = write!(s, ",\"ra\":{}", ra);
                        let _ = write!(s, ",\"id\":{}", esc(&tcx.def_path_debug_str(rd)));
                    }
                    ty::InstanceKind::Virtual(..) => s.push_str(",\"virt\":true"),
                    ref k => { let _ = write!(s, ",\"shim\":{}", esc(&format!("{:?}", k).chars().take(60).collect::<String>())); }
                }
            }
        } else {
            self.enqueue(d);
            let _ = write!(s, ",\"id\":{}", esc(&tcx.def_path_debug_str(d)));
        }
        s.push('}');
        s
    }
    fn konst(&mut self, env: TypingEnv<'tcx>, c: &Const<'tcx>, sp: rustc_span::Span) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        let ti = self.ty(t);
        let mut s = format!("{{\"ty\":{}", ti);
        match t.kind() {
            ty::FnDef(d, a) => {
                let f = self.fnref(env, *d, a.no_bound_vars().unwrap());
                let _ = write!(s, ",\"fn\":{}", f);
                s.push('}');
                return s;
            }
            ty::Closure(d, _) => {
                let _ = write!(s, ",\"closure\":{}", esc(&tcx.def_path_debug_str(*d)));
            }
            _ => {}
        }
        let mut unev = false;
        if let Const::Unevaluated(u, _) = c {
            unev = true;
            if let Some(p) = u.promoted {
                let _ = write!(s, ",\"promoted\":{},\"def\":{}", p.as_usize(), esc(&tcx.def_path_debug_str(u.def)));
            } else {
                let _ = write!(s, ",\"def\":{},\"a\":{}", esc(&self.path(u.def)), self.args(u.args));
                self.enqueue(u.def);
            }
        }
        if let Const::Ty(_, ct) = c {
            let _ = write!(s, ",\"ct\":{}", esc(&pp!(format!("{}", ct))));
        }
        // skip evaluation of generic constants
        let mut ok = true;
        if unev {
            if let Const::Unevaluated(u, _) = c {
                use rustc_middle::ty::TypeVisitableExt;
                if u.args.has_param() || u.args.has_non_region_param() { ok = false; }
                if u.promoted.is_some() { ok = false; }
            }
        }
        if ok {
            if let Ok(v) = c.eval(tcx, env, sp) {
                match v {
                    ConstValue::Scalar(interpret::Scalar::Int(i)) => { let _ = write!(s, ",{}", self.scalar(t, i)); }
                    ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) => {
                        let (prov, off) = p.into_raw_parts();
                        match tcx.global_alloc(prov.alloc_id()) {
                            interpret::GlobalAlloc::Static(d) => { let _ = write!(s, ",\"st\":{}", esc(&self.path(d))); }
                            _ => { let mut n = 0; let h = self.hash_alloc(prov.alloc_id(), &mut n); let _ = write!(s, ",\"mem\":\"{:016x}+{}\"", h, off.bytes()); }
                        }
                    }
                    ConstValue::ZeroSized => s.push_str(",\"zst\":1"),
                    ConstValue::Slice { .. } => {
                        let bytes = v.try_get_slice_bytes_for_diagnostics(tcx);
                        if let Some(b) = bytes {
                            if b.len() <= 4096 {
                                match std::str::from_utf8(b) {
                                    Ok(x) => { let _ = write!(s, ",\"str\":{}", esc(x)); }
                                    Err(_) => { let _ = write!(s, ",\"bytes\":{:?}", b); }
                                }
                            }
                            let _ = write!(s, ",\"len\":{}", b.len());
                        }
                    }
                    ConstValue::Indirect { alloc_id, offset } => {
                        let mut n = 0; let h = self.hash_alloc(alloc_id, &mut n);
                        let _ = write!(s, ",\"mem\":\"{:016x}+{}\"", h, offset.bytes());
                        // small aggregates: dump raw bytes; newtype floats decode
                        if let Ok(l) = tcx.layout_of(env.as_query_input(t)) {
                            let sz = l.size.bytes() as usize;
                            if sz <= 1024 {
                                if let interpret::GlobalAlloc::Memory(al) = tcx.global_alloc(alloc_id) {
                                    let o = offset.bytes() as usize;
                                    let al = al.inner();
                                    if al.provenance().ptrs().is_empty() && o + sz <= al.len() {
                                        let b = al.inspect_with_uninit_and_ptr_outside_interpreter(o..o + sz);
                                        let h: String = b.iter().map(|x| format!("{:02x}", x)).collect();
                                        let _ = write!(s, ",\"hex\":\"{}\"", h);
                                    }
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        s.push('}');
        s
    }
    /// content hash of a constant allocation, following pointers to other constants
    fn hash_alloc(&self, id: interpret::AllocId, n: &mut usize) -> u64 {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        *n += 1;
        if *n > 200_000 { return 0; }
        match self.tcx.global_alloc(id) {
            interpret::GlobalAlloc::Memory(al) => {
                let al = al.inner();
                al.inspect_with_uninit_and_ptr_outside_interpreter(0..al.len()).hash(&mut h);
                for (o, p) in al.provenance().ptrs().iter() {
                    o.bytes().hash(&mut h);
                    self.hash_alloc(p.alloc_id(), n).hash(&mut h);
                }
            }
            interpret::GlobalAlloc::Static(d) => self.path(d).hash(&mut h),
            _ => {}
        }
        h.finish()
    }
    fn scalar(&self, t: Ty<'tcx>, i: ty::ScalarInt) -> String {
        let sz = i.size();
        let bits = i.to_bits(sz);
        match t.kind() {
            ty::Float(ty::FloatTy::F64) => format!("\"f\":{}", esc(&format!("{:?}", f64::from_bits(bits as u64)))),
            ty::Float(ty::FloatTy::F32) => format!("\"f\":{}", esc(&format!("{:?}", f32::from_bits(bits as u32)))),
            ty::Int(_) => format!("\"i\":{}", i.to_int(sz)),
            ty::Uint(_) => format!("\"i\":{}", bits),
            ty::Bool => format!("\"b\":{}", bits != 0),
            ty::Char => format!("\"ch\":{}", bits),
            ty::Adt(..) if sz.bytes() == 8 => format!("\"f\":{},\"bits\":{}", esc(&format!("{:?}", f64::from_bits(bits as u64))), bits),
            _ => format!("\"bits\":{}", bits),
        }
    }
    fn operand(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(body, p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(body, p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(env, &c.const_, c.span)),
            _ => "[\"k\",{\"rt\":1}]".to_string(),
        }
    }
    fn rvalue(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(body, env, o)),
            Rvalue::Repeat(o, c) => format!("[\"repeat\",{},{}]", self.operand(body, env, o), esc(&pp!(format!("{}", c)))),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", esc(match k { BorrowKind::Mut{..} => "mut", BorrowKind::Fake(_) => "fake", _ => "shared" }), self.place(body, p)),
            Rvalue::RawPtr(_, p) => format!("[\"raw\",\"\",{}]", self.place(body, p)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", esc(if m.is_mut() {"mut"} else {"shared"}), self.place(body, p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.path(*d))),
            Rvalue::Cast(k, o, t) => {
                let ks = match k { CastKind::PointerCoercion(pc, _) => format!("coerce:{:?}", pc), k => format!("{:?}", k) };
                let ti = self.ty(*t);
                format!("[\"cast\",{},{},{}]", esc(&ks), self.operand(body, env, o), ti)
            }
            Rvalue::BinaryOp(op, b) => format!("[\"bin\",\"{:?}\",{},{}]", op, self.operand(body, env, &b.0), self.operand(body, env, &b.1)),
            Rvalue::UnaryOp(op, o) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(body, env, o)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(body, p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(body, p)),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(body, env, o)),
            Rvalue::Aggregate(k, ops) => {
                let ks = match &**k {
                    AggregateKind::Array(t) => { let ti = self.ty(*t); format!("[\"array\",{}]", ti) }
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let ad = self.tcx.adt_def(*d);
                        let vd = ad.variant(*v);
                        let names: Vec<String> = match f {
                            Some(fi) => vec![esc(vd.fields[*fi].name.as_str())],
                            None => vd.fields.iter().map(|x| esc(x.name.as_str())).collect() };
                        format!("[\"adt\",{},{},{},{},{}]", esc(&self.path(*d)), v.as_usize(), esc(vd.name.as_str()), self.args(a), join(&names))
                    }
                    AggregateKind::Closure(d, _) => format!("[\"closure\",{}]", esc(&self.tcx.def_path_debug_str(*d))),
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".into(),
                    _ => "[\"other\"]".into(),
                };
                let v: Vec<String> = ops.iter().map(|o| self.operand(body, env, o)).collect();
                format!("[\"agg\",{},{}]", ks, join(&v))
            }
        }
    }
    fn body(&mut self, d: DefId, body: &Body<'tcx>, kind: &str, promoted: Option<usize>, out: &mut dyn std::io::Write) {
        let tcx = self.tcx;
        let env = match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Const{..} | DefKind::AssocConst{..} | DefKind::Static{..} | DefKind::AnonConst | DefKind::Ctor(..) => TypingEnv::post_analysis(tcx, d),
            _ => TypingEnv::fully_monomorphized(),
        };
        let mut locals = vec![];
        for l in body.local_decls.iter() { locals.push(self.ty(l.ty).to_string()); }
        let mut names = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let ps = self.place(body, p);
                names.push(format!("[{},{}]", esc(v.name.as_str()), ps));
            }
        }
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            if bb.is_cleanup { blocks.push("null".to_string()); continue; }
            let mut st = vec![];
            for s in bb.statements.iter() {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let ps = self.place(body, p);
                        let rs = self.rvalue(body, env, r);
                        let ln = self.line(s.source_info.span);
                        st.push(format!("[{},{},{}]", ps, rs, ln));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let ps = self.place(body, place);
                        st.push(format!("[{},[\"setdiscr\",{}],0]", ps, variant_index.as_usize()));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let ln = self.line(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.operand(body, env, discr);
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_usize())).collect();
                    let ti = { let t = discr.ty(&body.local_decls, tcx); self.ty(t) };
                    format!("[\"switch\",{},{},{},{},{}]", o, join(&v), targets.otherwise().as_usize(), ln, ti)
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let ps = self.place(body, place);
                    format!("[\"drop\",{},{}]", ps, target.as_usize())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(body, env, func);
                    let v: Vec<String> = args.iter().map(|a| self.operand(body, env, &a.node)).collect();
                    let dp = self.place(body, destination);
                    format!("[\"call\",{},{},{},{},{}]", f, join(&v), dp, target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()), ln)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(body, env, cond);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => format!("[\"bounds\",{},{}]", self.operand(body, env, len), self.operand(body, env, index)),
                        AssertKind::Overflow(op, a, b) => format!("[\"overflow\",\"{:?}\",{},{}]", op, self.operand(body, env, a), self.operand(body, env, b)),
                        AssertKind::OverflowNeg(a) => format!("[\"overflowneg\",{}]", self.operand(body, env, a)),
                        AssertKind::DivisionByZero(a) => format!("[\"div0\",{}]", self.operand(body, env, a)),
                        AssertKind::RemainderByZero(a) => format!("[\"rem0\",{}]", self.operand(body, env, a)),
                        _ => "[\"other\"]".into(),
                    };
                    format!("[\"assert\",{},{},{},{},{}]", c, expected, m, target.as_usize(), ln)
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                _ => "[\"unreach\"]".into(),
            };
            blocks.push(format!("[{},{}]", join(&st), ts));
        }
        let mut extra = String::new();
        if promoted.is_none() {
            if let Some(ai) = tcx.opt_associated_item(d) {
                let cont = ai.container_id(tcx);
                if matches!(tcx.def_kind(cont), DefKind::Impl { .. }) {
                    let _ = write!(extra, ",\"impl\":{}", esc(&tcx.def_path_debug_str(cont)));
                    let st = tcx.type_of(cont).instantiate_identity().skip_norm_wip();
                    let _ = write!(extra, ",\"self\":{}", esc(&self.tys_str(st)));
                    if let Some(tr) = tcx.impl_opt_trait_ref(cont) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        let _ = write!(extra, ",\"trait\":{},\"targs\":{}", esc(&self.path(tr.def_id)), self.args(tr.args));
                    }
                } else {
                    let _ = write!(extra, ",\"in_trait\":{}", esc(&self.path(cont)));
                }
            }
            if let Some(l) = d.as_local() {
                let ev = tcx.effective_visibilities(());
                let _ = write!(extra, ",\"pub\":{}", ev.is_reachable(l));
                let g = tcx.generics_of(d);
                let mut gs = vec![];
                let mut cur = Some(g);
                while let Some(g) = cur {
                    for p in g.own_params.iter().rev() { if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) { gs.push(esc(p.name.as_str())); } }
                    cur = g.parent.map(|p| tcx.generics_of(p));
                }
                gs.reverse();
                let _ = write!(extra, ",\"generics\":{}", join(&gs));
            }
            if matches!(tcx.def_kind(d), DefKind::Closure) {
                let _ = write!(extra, ",\"parent\":{}", esc(&tcx.def_path_debug_str(tcx.parent(d))));
            }
        }
        let id = tcx.def_path_debug_str(d);
        let id = match promoted { Some(p) => format!("{}::promoted[{}]", id, p), None => id };
        let _ = writeln!(out, "{{\"k\":\"body\",\"id\":{},\"path\":{},\"kind\":\"{}\",\"span\":{},\"argc\":{},\"locals\":[{}],\"names\":{},\"blocks\":{}{}}}",
            esc(&id), esc(&self.path(d)), kind, self.span(tcx.def_span(d)), body.arg_count, locals.join(","), join(&names), join(&blocks), extra);
    }
}

/// whether a type is Send and Sync ("ss" for both), given that the type parameters and the associated types it names are
fn shared<'tcx>(tcx: TyCtxt<'tcx>, owner: DefId, t: Ty<'tcx>) -> String {
    let (Some(send), Some(sync)) = (tcx.get_diagnostic_item(rustc_span::Symbol::intern("Send")), tcx.lang_items().sync_trait()) else { return "?".into() };
    let mut cl: Vec<ty::Clause<'tcx>> = tcx.param_env(owner).caller_bounds().collect();
    let mut own: Vec<Ty<'tcx>> = vec![];
    for p in &tcx.generics_of(owner).own_params {
        if let ty::GenericParamDefKind::Type { .. } = p.kind { own.push(Ty::new_param(tcx, p.index, p.name)); }
    }
    for a in t.walk() {
        if let Some(x) = a.as_type() { if matches!(x.kind(), ty::Alias(..)) && x.has_param() { own.push(x); } }
    }
    for x in own { for tr in [send, sync] { cl.push(ty::TraitRef::new(tcx, tr, [x]).upcast(tcx)); } }
    let pe = ty::ParamEnv::new(tcx, cl);
    let infcx = tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
    let t = tcx.erase_and_anonymize_regions(t);
    [(send, 's'), (sync, 'y')].iter().filter(|(tr, _)| infcx.type_implements_trait(*tr, [t], pe).must_apply_modulo_regions()).map(|(_, c)| *c).collect()
}

fn is_error(tcx: TyCtxt<'_>, d: DefId) -> bool {
    let Some(e) = tcx.get_diagnostic_item(rustc_span::Symbol::intern("Error")) else { return false };
    let infcx = tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
    infcx.type_implements_trait(e, [tcx.type_of(d).instantiate_identity().skip_norm_wip()], tcx.param_env(d)).must_apply_modulo_regions()
}

struct Cb { out: String, krate: String }
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let tmp = format!("{}.tmp", self.out);
        let f = std::fs::File::create(&tmp).unwrap();
        let mut out = std::io::BufWriter::with_capacity(1 << 20, f);
        let deps = std::env::var("VFACTS_DEPS").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
        let mut cx = Cx { tcx, tys: HashMap::new(), tylist: vec![], krate: self.krate.clone(), deps, seen: HashSet::new(), queue: VecDeque::new() };
        let ev = tcx.effective_visibilities(());
        // ADTs, traits, impls, statics
        for l in tcx.hir_crate_items(()).definitions() {
            let d = l.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let ad = tcx.adt_def(d);
                    let mut vs = vec![];
                    for v in ad.variants() {
                        let fs: Vec<String> = v.fields.iter().map(|f| {
                            let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            format!("[{},{},{},{}]", esc(f.name.as_str()), esc(&cx.tys_str(t)), f.vis.is_public(), esc(&shared(tcx, d, t)))
                        }).collect();
                        vs.push(format!("[{},{}]", esc(v.name.as_str()), join(&fs)));
                    }
                    let _ = writeln!(out, "{{\"k\":\"adt\",\"id\":{},\"path\":{},\"kind\":\"{:?}\",\"pub\":{},\"err\":{},\"span\":{},\"variants\":{}}}",
                        esc(&tcx.def_path_debug_str(d)), esc(&cx.path(d)), tcx.def_kind(d), ev.is_reachable(l), is_error(tcx, d), cx.span(tcx.def_span(d)), join(&vs));
                }
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let mut ex = String::new();
                    if let Some(tr) = tcx.impl_opt_trait_ref(d) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        let _ = write!(ex, ",\"trait\":{},\"targs\":{}", esc(&cx.path(tr.def_id)), cx.args(tr.args));
                    }
                    let mut items = vec![];
                    let mut assoc = vec![];
                    for it in tcx.associated_items(d).in_definition_order() {
                        items.push(format!("[{},{}]", esc(it.name().as_str()), esc(&tcx.def_path_debug_str(it.def_id))));
                        if matches!(it.kind, ty::AssocKind::Type { .. }) {
                            let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                            assoc.push(format!("[{},{}]", esc(it.name().as_str()), esc(&cx.tys_str(t))));
                        }
                    }
                    let preds: Vec<String> = tcx.clauses_of(d).clauses.iter().map(|(p, _)| esc(&pp!(format!("{}", p)))).collect();
                    let derived = tcx.is_automatically_derived(d);
                    let _ = writeln!(out, "{{\"k\":\"impl\",\"id\":{},\"self\":{},\"span\":{},\"derived\":{},\"items\":{},\"assoc\":{},\"preds\":{}{}}}",
                        esc(&tcx.def_path_debug_str(d)), esc(&cx.tys_str(st)), cx.span(tcx.def_span(d)), derived, join(&items), join(&assoc), join(&preds), ex);
                }
                DefKind::Trait => {
                    let mut items = vec![];
                    for it in tcx.associated_items(d).in_definition_order() {
                        items.push(format!("[{},{},{}]", esc(&it.opt_name().map(|n| n.to_string()).unwrap_or_default()), esc(&tcx.def_path_debug_str(it.def_id)), it.defaultness(tcx).has_value()));
                    }
                    let _ = writeln!(out, "{{\"k\":\"trait\",\"id\":{},\"path\":{},\"pub\":{},\"items\":{}}}", esc(&tcx.def_path_debug_str(d)), esc(&cx.path(d)), ev.is_reachable(l), join(&items));
                }
                DefKind::Static { mutability, .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let _ = writeln!(out, "{{\"k\":\"static\",\"id\":{},\"path\":{},\"ty\":{},\"mut\":{},\"span\":{}}}", esc(&tcx.def_path_debug_str(d)), esc(&cx.path(d)), esc(&cx.tys_str(t)), mutability.is_mut(), cx.span(tcx.def_span(d)));
                }
                DefKind::Fn | DefKind::AssocFn => {
                    let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
                    let sig = tcx.liberate_late_bound_regions(d, sig);
                    let ins: Vec<String> = sig.inputs().iter().map(|t| esc(&cx.tys_str(*t))).collect();
                    let preds: Vec<String> = tcx.clauses_of(d).clauses.iter().map(|(p, _)| esc(&pp!(format!("{}", p)))).collect();
                    let vis = format!("{:?}", tcx.visibility(d));
                    let _ = writeln!(out, "{{\"k\":\"sig\",\"id\":{},\"path\":{},\"pub\":{},\"vis\":{},\"in\":{},\"out\":{},\"unsafe\":{},\"preds\":{},\"span\":{}}}",
                        esc(&tcx.def_path_debug_str(d)), esc(&cx.path(d)), ev.is_reachable(l), esc(&vis), join(&ins), esc(&cx.tys_str(sig.output())), sig.safety().is_unsafe(), join(&preds), cx.span(tcx.def_span(d)));
                }
                _ => {}
            }
        }
        for l in tcx.mir_keys(()).iter() {
            let d = l.to_def_id();
            cx.seen.insert(d);
            let k = tcx.def_kind(d);
            match k {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    let b = tcx.optimized_mir(d);
                    cx.body(d, b, match k { DefKind::Closure => "closure", _ => "fn" }, None, &mut out);
                    for (i, pb) in tcx.promoted_mir(d).iter_enumerated() {
                        if pb.local_decls.len() < 400 { cx.body(d, pb, "promoted", Some(i.as_usize()), &mut out); }
                    }
                }
                DefKind::Const{..} | DefKind::AssocConst{..} | DefKind::Static { .. } => {
                    let b = tcx.mir_for_ctfe(d);
                    if b.local_decls.len() < 3000 {
                        cx.body(d, b, "const", None, &mut out);
                        for (i, pb) in tcx.promoted_mir(d).iter_enumerated() {
                            if pb.local_decls.len() < 400 { cx.body(d, pb, "promoted", Some(i.as_usize()), &mut out); }
                        }
                    }
                }
                _ => {}
            }
        }
        let mut uv = UnsafeFinder { tcx, v: vec![] };
        tcx.hir_walk_toplevel_module(&mut uv);
        for (sp, what) in uv.v {
            let _ = writeln!(out, "{{\"k\":\"unsafe\",\"what\":{},\"span\":{}}}", esc(what), cx.span(sp));
        }
        while let Some(d) = cx.queue.pop_front() {
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    if tcx.is_mir_available(d) {
                        let b = tcx.optimized_mir(d);
                        cx.body(d, b, "depfn", None, &mut out);
                        for (i, pb) in tcx.promoted_mir(d).iter_enumerated() {
                            if pb.local_decls.len() < 400 { cx.body(d, pb, "promoted", Some(i.as_usize()), &mut out); }
                        }
                    }
                }
                DefKind::Const{..} | DefKind::AssocConst{..} => {
                    if tcx.is_mir_available(d) {
                        let b = tcx.mir_for_ctfe(d);
                        if b.local_decls.len() < 3000 { cx.body(d, b, "depconst", None, &mut out); }
                    }
                }
                _ => {}
            }
        }
        let v: Vec<String> = cx.tylist.iter().map(|t| esc(&cx.tys_str(*t))).collect();
        let _ = writeln!(out, "{{\"k\":\"types\",\"l\":{}}}", join(&v));
        out.flush().unwrap();
        drop(out);
        std::fs::rename(&tmp, &self.out).unwrap();
        rustc_driver::Compilation::Continue
    }
}
struct UnsafeFinder<'tcx> { tcx: TyCtxt<'tcx>, v: Vec<(rustc_span::Span, &'static str)> }
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeFinder<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules { self.v.push((b.span, "unsafe block")); }
        rustc_hir::intravisit::walk_block(self, b);
    }
}
struct Plain;
impl rustc_driver::Callbacks for Plain {}

fn run(args: &[String], cb: &mut (dyn rustc_driver::Callbacks + Send)) -> i32 {
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(args, cb));
    if code == std::process::ExitCode::SUCCESS { 0 } else { 1 }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // wrapper protocol: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    args[0] = "rustc".into();
    let cn = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1).cloned());
    let want = std::env::var("VFACTS_CRATE").unwrap_or_default();
    let out = std::env::var("VFACTS_OUT").unwrap_or_default();
    let probe = args.iter().any(|a| a == "-vV" || a.starts_with("--print"));
    if cn.as_deref() == Some(&want) && !out.is_empty() && !probe {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zinline-mir=no".into());
        let mut cb = Cb { out, krate: want };
        std::process::exit(run(&args, &mut cb));
    } else {
        std::process::exit(run(&args, &mut Plain));
    }
}
