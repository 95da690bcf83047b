//! MIR dumper: a rustc driver (RUSTC_WORKSPACE_WRAPPER) that writes every local body of the
//! crate being checked -- CFG, statements, terminators, type-resolved callees -- as JSON lines.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use std::fmt::Write as _;
use std::io::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let krate = self.tcx.crate_name(d.krate).to_string();
        let p = ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(self.tcx.def_path_str(d)));
        if d.krate == LOCAL_CRATE {
            format!("{}::{}", krate, p)
        } else {
            p
        }
    }

    fn ty(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Ref(_, t, m) => {
                format!("&{}{}", if m.is_mut() { "mut " } else { "" }, self.ty(*t))
            }
            ty::Adt(d, args) => {
                let mut s = self.path(d.did());
                let v: Vec<String> = args.types().map(|a| self.ty(a)).collect();
                if !v.is_empty() {
                    let _ = write!(s, "<{}>", v.join(","));
                }
                s
            }
            ty::Tuple(ts) => {
                format!("({})", ts.iter().map(|a| self.ty(a)).collect::<Vec<_>>().join(","))
            }
            ty::Closure(d, _) => format!("closure:{}", self.path(*d)),
            ty::FnDef(d, _) => format!("fndef:{}", self.path(*d)),
            ty::Alias(..) => {
                let s = ty::print::with_no_trimmed_paths!(format!("{}", t));
                if s.ends_with("::Api") { "Api".to_string() } else { s }
            }
            ty::Slice(t) => format!("[{}]", self.ty(*t)),
            ty::Array(t, n) => format!("[{};{}]", self.ty(*t), n),
            _ => ty::print::with_no_trimmed_paths!(format!("{}", t)),
        }
    }

    fn adt(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(d, _) => esc(&self.path(d.did())),
            _ => "null".into(),
        }
    }

    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut out = vec![p.local.as_usize().to_string()];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(d, _) => {
                            let v = match pt.variant_index {
                                Some(v) => d.variant(v),
                                None => {
                                    if d.is_enum() {
                                        d.variant(rustc_abi::VariantIdx::from_u32(0))
                                    } else {
                                        d.non_enum_variant()
                                    }
                                }
                            };
                            v.fields[f].name.to_string()
                        }
                        _ => f.as_usize().to_string(),
                    };
                    format!("{{\"f\":{}}}", esc(&name))
                }
                ProjectionElem::Index(l) => format!("{{\"i\":{}}}", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("{{\"ci\":{},\"fe\":{}}}", offset, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("{{\"ss\":[{},{}],\"fe\":{}}}", from, to, from_end)
                }
                ProjectionElem::Downcast(_, v) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(d, _) => d.variant(v).name.to_string(),
                        _ => v.as_usize().to_string(),
                    };
                    format!("{{\"d\":{}}}", esc(&name))
                }
                _ => "\"?\"".to_string(),
            };
            out.push(s);
            pt = pt.projection_ty(self.tcx, e);
        }
        list(out)
    }

    fn fndef(&self, body_did: DefId, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut s = format!("{{\"p\":{}", esc(&self.path(d)));
        if let Some(n) = tcx.opt_item_name(d) {
            let _ = write!(s, ",\"n\":{}", esc(n.as_str()));
        }
        if let Some(ai) = tcx.opt_associated_item(d) {
            let c = ai.container_id(tcx);
            match tcx.def_kind(c) {
                DefKind::Trait => {
                    let _ = write!(s, ",\"t\":{}", esc(&self.path(c)));
                }
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(c).instantiate_identity().skip_norm_wip();
                    let _ = write!(s, ",\"s\":{}", self.adt(st));
                    if of_trait {
                        let tr = tcx.impl_trait_ref(c).instantiate_identity().skip_norm_wip();
                        let _ = write!(s, ",\"t\":{}", esc(&self.path(tr.def_id)));
                    }
                }
                _ => {}
            }
        }
        let targs: Vec<String> = args.types().map(|t| esc(&self.ty(t))).collect();
        let _ = write!(s, ",\"a\":{}", list(targs));
        // resolve trait methods on concrete types to their impl
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let env = TypingEnv::post_analysis(tcx, body_did);
            let eargs = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(i)) = ty::Instance::try_resolve(tcx, env, d, eargs) {
                let rd = i.def_id();
                if rd != d {
                    let _ = write!(s, ",\"r\":{}", esc(&self.path(rd)));
                }
            }
        }
        s.push('}');
        s
    }

    fn bytes_json(&self, b: &[u8]) -> String {
        format!("{{\"bytes\":{}}}", esc(&String::from_utf8_lossy(b)))
    }

    fn alloc_val(&self, id: rustc_middle::mir::interpret::AllocId, off: u64, t: Ty<'tcx>) -> String {
        // value of type t stored at (id, off)
        let tcx = self.tcx;
        match tcx.try_get_global_alloc(id) {
            Some(GlobalAlloc::Static(d)) => format!("{{\"static\":{}}}", esc(&self.path(d))),
            Some(GlobalAlloc::Function { instance }) => {
                format!("{{\"fnptr\":{}}}", esc(&self.path(instance.def_id())))
            }
            Some(GlobalAlloc::Memory(m)) => {
                let a = m.inner();
                let off = off as usize;
                match t.kind() {
                    ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char => {
                        let env = TypingEnv::fully_monomorphized();
                        let sz = match tcx.layout_of(env.as_query_input(t)) {
                            Ok(l) => l.size.bytes() as usize,
                            Err(_) => return "{\"unk\":1}".into(),
                        };
                        if off + sz > a.len() {
                            return "{\"unk\":1}".into();
                        }
                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off..off + sz);
                        let mut v: u128 = 0;
                        for (i, x) in b.iter().enumerate() {
                            v |= (*x as u128) << (8 * i);
                        }
                        format!("{{\"int\":\"{}\"}}", v)
                    }
                    ty::Array(e, _) if e.kind() == &ty::Uint(ty::UintTy::U8) => {
                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off..a.len());
                        self.bytes_json(b)
                    }
                    ty::Ref(_, inner, _) => {
                        // pointer stored in memory
                        if let Some((_, prov)) =
                            a.provenance().ptrs().iter().find(|(o, _)| o.bytes() as usize == off)
                        {
                            match inner.kind() {
                                ty::Str | ty::Slice(_) => {
                                    if let Some(GlobalAlloc::Memory(m2)) =
                                        tcx.try_get_global_alloc(prov.alloc_id())
                                    {
                                        let a2 = m2.inner();
                                        let b = a2.inspect_with_uninit_and_ptr_outside_interpreter(0..a2.len());
                                        return format!("{{\"ref\":{}}}", self.bytes_json(b));
                                    }
                                }
                                _ => {}
                            }
                            return format!("{{\"ref\":{}}}", self.alloc_val(prov.alloc_id(), 0, *inner));
                        }
                        "{\"unk\":1}".into()
                    }
                    _ => "{\"unk\":1}".into(),
                }
            }
            _ => "{\"unk\":1}".into(),
        }
    }

    fn constant(&self, body_did: DefId, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut s = format!("{{\"ty\":{}", esc(&self.ty(t)));
        if let ty::FnDef(d, args) = t.kind() {
            let _ = write!(s, ",\"fn\":{}}}", self.fndef(body_did, *d, args.no_bound_vars().unwrap()));
            return s;
        }
        if let ty::Closure(d, _) = t.kind() {
            let _ = write!(s, ",\"closure\":{}}}", esc(&self.path(*d)));
            return s;
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if u.promoted.is_none() {
                let _ = write!(s, ",\"const\":{}", esc(&self.path(u.def)));
            } else if let Some(p) = u.promoted {
                let _ = write!(s, ",\"promoted\":{}", p.as_usize());
            }
        }
        if let Const::Ty(_, ct) = c.const_ {
            let _ = write!(s, ",\"tyconst\":{}", esc(&format!("{}", ct)));
        }
        let env = TypingEnv::post_analysis(tcx, body_did);
        let v = match c.const_ {
            Const::Ty(..) => None,
            _ => {
                let has_params = match c.const_ {
                    Const::Unevaluated(u, _) => u.args.types().next().is_some(),
                    _ => false,
                };
                if has_params && !matches!(c.const_, Const::Unevaluated(u,_) if u.promoted.is_some()) {
                    None
                } else {
                    c.const_.eval(tcx, env, c.span).ok()
                }
            }
        };
        match v {
            Some(ConstValue::Scalar(Scalar::Int(i))) => {
                if let ty::Int(_) = t.kind() {
                    let sz = i.size();
                    let _ = write!(s, ",\"int\":\"{}\"", i.to_int(sz));
                } else {
                    let sz = i.size();
                    let _ = write!(s, ",\"int\":\"{}\"", i.to_bits(sz));
                }
            }
            Some(ConstValue::Scalar(Scalar::Ptr(p, _))) => {
                let (prov, off) = p.into_raw_parts();
                if let ty::Ref(_, inner, _) = t.kind() {
                    let _ = write!(s, ",\"refval\":{}", self.alloc_val(prov.alloc_id(), off.bytes(), *inner));
                }
            }
            Some(cv @ ConstValue::Slice { .. }) => {
                if let Some(b) = cv.try_get_slice_bytes_for_diagnostics(tcx) {
                    let _ = write!(s, ",\"refval\":{}", self.bytes_json(b));
                }
            }
            Some(ConstValue::Indirect { alloc_id, offset }) => {
                let _ = write!(s, ",\"val\":{}", self.alloc_val(alloc_id, offset.bytes(), t));
            }
            Some(ConstValue::ZeroSized) => {
                s.push_str(",\"zst\":1");
            }
            None => {}
        }
        s.push('}');
        s
    }

    fn operand(&self, did: DefId, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(body, p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(body, p)),
            Operand::Constant(c) => format!("{{\"k\":{}}}", self.constant(did, c)),
            _ => "{\"rt\":1}".into(),
        }
    }

    fn rvalue(&self, did: DefId, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(did, body, o)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.operand(did, body, o), esc(&format!("{}", n))),
            Rvalue::Ref(_, bk, p) => format!(
                "[\"ref\",{},{}]",
                esc(match bk {
                    BorrowKind::Mut { .. } => "mut",
                    _ => "shared",
                }),
                self.place(body, p)
            ),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",\"raw\",{}]", self.place(body, p)),
            Rvalue::Cast(k, o, t) => format!(
                "[\"cast\",{},{},{}]",
                esc(&format!("{:?}", k)),
                self.operand(did, body, o),
                esc(&self.ty(*t))
            ),
            Rvalue::BinaryOp(op, b) => format!(
                "[\"bin\",{},{},{}]",
                esc(&format!("{:?}", op)),
                self.operand(did, body, &b.0),
                self.operand(did, body, &b.1)
            ),
            Rvalue::UnaryOp(op, o) => format!("[\"un\",{},{}]", esc(&format!("{:?}", op)), self.operand(did, body, o)),
            Rvalue::Discriminant(p) => {
                let pt = p.ty(body, tcx).ty;
                let mut vs = vec![];
                if let ty::Adt(d, _) = pt.kind() {
                    if d.is_enum() {
                        for (i, v) in d.discriminants(tcx) {
                            vs.push(format!("[\"{}\",{}]", v.val, esc(d.variant(i).name.as_str())));
                        }
                    }
                }
                format!("[\"discr\",{},{},{}]", self.place(body, p), self.adt(pt), list(vs))
            }
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<String> = ops.iter().map(|o| self.operand(did, body, o)).collect();
                match &**k {
                    AggregateKind::Array(_) => format!("[\"array\",{}]", list(o)),
                    AggregateKind::Tuple => format!("[\"tuple\",{}]", list(o)),
                    AggregateKind::Adt(d, v, _, _, active) => {
                        let ad = tcx.adt_def(*d);
                        let vd = ad.variant(*v);
                        let names: Vec<String> = if let Some(f) = active {
                            vec![esc(vd.fields[*f].name.as_str())]
                        } else {
                            vd.fields.iter().map(|f| esc(f.name.as_str())).collect()
                        };
                        format!(
                            "[\"adt\",{},{},{},{}]",
                            esc(&self.path(*d)),
                            if ad.is_enum() { esc(vd.name.as_str()) } else { "null".into() },
                            list(names),
                            list(o)
                        )
                    }
                    AggregateKind::Closure(d, _) => format!("[\"closure\",{},{}]", esc(&self.path(*d)), list(o)),
                    _ => format!("[\"agg?\",{}]", list(o)),
                }
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"c\":{}}}]", self.place(body, p)),
            other => format!("[\"?\",{}]", esc(&format!("{:?}", other))),
        }
    }

    fn line(&self, sp: rustc_span::Span) -> usize {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        sm.lookup_char_pos(sp.lo()).line
    }

    fn file(&self, sp: rustc_span::Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        format!("{}", sm.lookup_char_pos(sp.lo()).file.name.prefer_local_unconditionally())
    }

    fn body(&self, out: &mut impl std::io::Write, did: DefId, body: &Body<'tcx>, promoted: Option<usize>) {
        let tcx = self.tcx;
        let mut s = String::new();
        let _ = write!(s, "{{\"path\":{}", esc(&self.path(did)));
        if let Some(p) = promoted {
            let _ = write!(s, ",\"promoted\":{}", p);
        }
        if let Some(n) = tcx.opt_item_name(did) {
            let _ = write!(s, ",\"name\":{}", esc(n.as_str()));
        }
        let _ = write!(s, ",\"kind\":{}", esc(&format!("{:?}", tcx.def_kind(did))));
        let root = tcx.typeck_root_def_id(did);
        if root != did {
            let _ = write!(s, ",\"root\":{}", esc(&self.path(root)));
        }
        if let Some(ai) = tcx.opt_associated_item(root) {
            let c = ai.container_id(tcx);
            match tcx.def_kind(c) {
                DefKind::Trait => {
                    let _ = write!(s, ",\"trait\":{}", esc(&self.path(c)));
                }
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(c).instantiate_identity().skip_norm_wip();
                    let _ = write!(s, ",\"self\":{},\"selfty\":{}", self.adt(st), esc(&self.ty(st)));
                    if of_trait {
                        let tr = tcx.impl_trait_ref(c).instantiate_identity().skip_norm_wip();
                        let _ = write!(s, ",\"impl_trait\":{}", esc(&self.path(tr.def_id)));
                    }
                }
                _ => {}
            }
        }
        let _ = write!(
            s,
            ",\"file\":{},\"line\":{},\"argc\":{}",
            esc(&self.file(body.span)),
            self.line(body.span),
            body.arg_count
        );
        let exp = body.span.from_expansion();
        let _ = write!(s, ",\"exp\":{}", exp);
        let locals: Vec<String> = body.local_decls.iter().map(|l| esc(&self.ty(l.ty))).collect();
        let _ = write!(s, ",\"locals\":{}", list(locals));
        let mut bounds = vec![];
        for p in tcx.param_env(did).caller_bounds() {
            if let Some(tp) = p.as_trait_clause() {
                let tr = tp.skip_binder().trait_ref;
                if self.path(tr.def_id).ends_with("ProxyArg") {
                    let a: Vec<String> = tr.args.iter().filter_map(|x| x.as_type()).map(|t| esc(&self.ty(t))).collect();
                    bounds.push(list(a));
                }
            }
        }
        if !bounds.is_empty() {
            let _ = write!(s, ",\"bounds\":{}", list(bounds));
        }
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(format!("[{},{}]", esc(v.name.as_str()), self.place(body, p)));
            }
        }
        let _ = write!(s, ",\"names\":{}", list(names));
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            if bb.is_cleanup {
                blocks.push("null".to_string());
                continue;
            }
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(b) => {
                        st.push(format!(
                            "[{},{},{}]",
                            self.place(body, &b.0),
                            self.rvalue(did, body, &b.1),
                            self.line(x.source_info.span)
                        ));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!(
                            "[{},[\"setdiscr\",{}],{}]",
                            self.place(body, place),
                            variant_index.as_usize(),
                            self.line(x.source_info.span)
                        ));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let ln = self.line(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> =
                        targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_usize())).collect();
                    let dty = discr.ty(body, tcx);
                    format!(
                        "[\"switch\",{},{},{},{}]",
                        self.operand(did, body, discr),
                        list(v),
                        targets.otherwise().as_usize(),
                        esc(&self.ty(dty))
                    )
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(body, tcx).ty;
                    format!("[\"drop\",{},{},{}]", self.place(body, place), target.as_usize(), esc(&self.ty(t)))
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|o| self.operand(did, body, &o.node)).collect();
                    let tg = match target {
                        Some(b) => b.as_usize().to_string(),
                        None => "null".into(),
                    };
                    let f = match func {
                        Operand::Constant(c) => match c.const_.ty().kind() {
                            ty::FnDef(d, ar) => self.fndef(did, *d, ar.no_bound_vars().unwrap()),
                            _ => "null".into(),
                        },
                        o => format!("{{\"op\":{}}}", self.operand(did, body, o)),
                    };
                    format!(
                        "[\"call\",{},{},{},{},{}]",
                        f,
                        list(a),
                        self.place(body, destination),
                        tg,
                        self.line(t.source_info.span)
                    )
                }
                TerminatorKind::Assert { cond, expected, target, .. } => format!(
                    "[\"assert\",{},{},{}]",
                    self.operand(did, body, cond),
                    expected,
                    target.as_usize()
                ),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                o => format!("[\"?\",{}]", esc(&format!("{:?}", o))),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"l\":{}}}", list(st), tj, ln));
        }
        let _ = write!(s, ",\"blocks\":{}}}", list(blocks));
        let _ = writeln!(out, "{}", s);
    }
}

struct Cb;

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let Ok(dir) = std::env::var("MIRDUMP_OUT") else { return rustc_driver::Compilation::Continue };
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        let tmp = format!("{}/{}.json.tmp{}", dir, name, std::process::id());
        let mut out = std::io::BufWriter::new(std::fs::File::create(&tmp).unwrap());
        let cx = Cx { tcx };
        let mut n = 0usize;
        for ld in tcx.mir_keys(()) {
            let did = ld.to_def_id();
            let kind = tcx.def_kind(did);
            match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    if tcx.is_constructor(did) {
                        continue;
                    }
                    let body = tcx.optimized_mir(did);
                    cx.body(&mut out, did, body, None);
                    for (i, b) in tcx.promoted_mir(did).iter_enumerated() {
                        cx.body(&mut out, did, b, Some(i.as_usize()));
                    }
                    n += 1;
                }
                _ => {}
            }
        }
        // constants, statics and data types
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Const { .. } => {
                    if tcx.generics_of(did).count() > 0 {
                        continue;
                    }
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let c = ConstOperand {
                        span: tcx.def_span(did),
                        user_ty: None,
                        const_: Const::from_unevaluated(tcx, did).instantiate_identity().skip_norm_wip(),
                    };
                    let _ = t;
                    let _ = writeln!(out, "{{\"const\":{},\"v\":{}}}", esc(&cx.path(did)), cx.constant(did, &c));
                }
                DefKind::Struct | DefKind::Enum => {
                    let ad = tcx.adt_def(did);
                    let mut vs = vec![];
                    for v in ad.variants() {
                        let fs: Vec<String> = v
                            .fields
                            .iter()
                            .map(|f| {
                                let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                                format!("[{},{}]", esc(f.name.as_str()), esc(&cx.ty(ft)))
                            })
                            .collect();
                        vs.push(format!("[{},{}]", esc(v.name.as_str()), list(fs)));
                    }
                    let _ = writeln!(
                        out,
                        "{{\"adt\":{},\"enum\":{},\"variants\":{}}}",
                        esc(&cx.path(did)),
                        ad.is_enum(),
                        list(vs)
                    );
                }
                DefKind::Trait => {
                    let supers: Vec<String> = tcx
                        .explicit_super_clauses_of(did)
                        .iter_identity_copied()
                        .map(|x| x.skip_norm_wip())
                        .filter_map(|(p, _)| p.as_trait_clause().map(|t| esc(&cx.path(t.def_id()))))
                        .collect();
                    let mut items = vec![];
                    for it in tcx.associated_items(did).in_definition_order() {
                        if let Some(n) = it.opt_name() {
                            items.push(format!("[{},{}]", esc(n.as_str()), it.defaultness(tcx).has_value()));
                        }
                    }
                    let _ = writeln!(
                        out,
                        "{{\"traitdef\":{},\"supers\":{},\"items\":{}}}",
                        esc(&cx.path(did)),
                        list(supers),
                        list(items)
                    );
                }
                _ => {}
            }
        }
        let _ = writeln!(out, "{{\"end\":{}}}", n);
        out.flush().unwrap();
        drop(out);
        std::fs::rename(&tmp, format!("{}/{}.json", dir, name)).unwrap();
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as the first argument
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    args.push("-Zmir-opt-level=0".into());
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
