//! rustc driver that exports the type-checked program (MIR with resolved callees, ADTs, impls,
//! signatures, visibilities) of the crate under analysis as JSON.
//! Injected with RUSTC_WORKSPACE_WRAPPER; writes to $KFACTS_OUT for the crate $KFACTS_CRATE.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::{self, *};
use rustc_hir::intravisit::Visitor;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, GenericArgKind, Ty, TyCtxt, TypingEnv};
use rustc_span::source_map::{FileLoader, RealFileLoader};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::sync::Arc;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(i: I) -> String {
    let v: Vec<String> = i.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<String>,
    adts: Vec<DefId>,
    adt_seen: HashMap<DefId, ()>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let s = with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str(d)));
        if d.is_local() && !s.starts_with('<') {
            format!("crate::{}", s)
        } else {
            s
        }
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(String::new());
        let s = self.ty_json(t);
        self.ty_out[i] = s;
        i
    }
    fn args(&mut self, args: ty::GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for a in args.iter() {
            match a.kind() {
                GenericArgKind::Type(t) => v.push(self.ty(t).to_string()),
                GenericArgKind::Const(c) => v.push(esc(&format!("const {}", c))),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        arr(v)
    }
    fn ty_json(&mut self, t: Ty<'tcx>) -> String {
        let show = esc(&with_no_visible_paths!(with_no_trimmed_paths!(t.to_string())));
        let body = match *t.kind() {
            ty::Adt(def, args) => {
                if self.adt_seen.insert(def.did(), ()).is_none() {
                    self.adts.push(def.did());
                }
                let a = self.args(args);
                format!("\"k\":\"adt\",\"def\":{},\"args\":{}", esc(&self.path(def.did())), a)
            }
            ty::Ref(_, t, m) => {
                let i = self.ty(t);
                format!("\"k\":\"ref\",\"mut\":{},\"ty\":{}", m.is_mut(), i)
            }
            ty::RawPtr(t, m) => {
                let i = self.ty(t);
                format!("\"k\":\"ptr\",\"mut\":{},\"ty\":{}", m.is_mut(), i)
            }
            ty::Slice(t) => {
                let i = self.ty(t);
                format!("\"k\":\"slice\",\"ty\":{}", i)
            }
            ty::Array(t, n) => {
                let i = self.ty(t);
                let n = n.try_to_target_usize(self.tcx);
                format!("\"k\":\"array\",\"ty\":{},\"len\":{}", i, n.map(|x| x.to_string()).unwrap_or("null".into()))
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("\"k\":\"tuple\",\"tys\":{}", arr(v))
            }
            ty::Param(p) => format!("\"k\":\"param\",\"name\":{}", esc(p.name.as_str())),
            ty::Closure(d, args) => {
                let ups: Vec<Ty<'tcx>> = args.as_closure().upvar_tys().iter().collect();
                let v: Vec<String> = ups.into_iter().map(|t| self.ty(t).to_string()).collect();
                let d: DefId = d.into();
                format!("\"k\":\"closure\",\"def\":{},\"upvars\":{}", esc(&self.path(d)), arr(v))
            }
            ty::FnDef(d, args) => {
                let d: DefId = d.into();
                let a = self.args(args.skip_binder());
                format!("\"k\":\"fndef\",\"def\":{},\"args\":{}", esc(&self.path(d)), a)
            }
            ty::Alias(_, a) => {
                let mut v = vec![];
                for x in a.args.iter() {
                    if let GenericArgKind::Type(t) = x.kind() {
                        v.push(self.ty(t).to_string());
                    }
                }
                format!("\"k\":\"alias\",\"args\":{}", arr(v))
            }
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Int(_) => "\"k\":\"int\"".to_string(),
            ty::Uint(_) => "\"k\":\"uint\"".to_string(),
            ty::Float(_) => "\"k\":\"float\"".to_string(),
            ty::Str => "\"k\":\"str\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            ty::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
            ty::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            _ => "\"k\":\"other\"".to_string(),
        };
        format!("{{{},\"s\":{}}}", body, show)
    }

    fn span(&self, sp: rustc_span::Span) -> String {
        let sp = sp.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = format!("{}", loc.file.name.prefer_local_unconditionally());
        esc(&format!("{}:{}", f, loc.line))
    }

    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> String {
        let mut proj = vec![];
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "[\"deref\"]".to_string(),
                ProjectionElem::PhantomDeref => "[\"deref\"]".to_string(),
                ProjectionElem::Field(f, t) => {
                    let i = self.ty(t);
                    format!("[\"field\",{},{}]", f.as_usize(), i)
                }
                ProjectionElem::Index(l) => format!("[\"index\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("[\"cindex\",{},{}]", offset, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"subslice\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(_, v) => format!("[\"downcast\",{}]", v.as_usize()),
                _ => "[\"other\"]".to_string(),
            };
            proj.push(s);
            pty = pty.projection_ty(self.tcx, e);
        }
        let t = self.ty(pty.ty);
        format!("{{\"l\":{},\"p\":{},\"t\":{}}}", p.local.as_usize(), arr(proj), t)
    }

    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let a = self.args(args);
        let tr = tcx.trait_of_assoc(d).map(|t| self.path(t));
        let impl_trait = match tcx.impl_of_assoc(d) {
            Some(i) => {
                if tcx.impl_opt_trait_ref(i).is_some() { Some(self.path(tcx.impl_trait_ref(i).skip_binder().def_id)) } else { None }
            }
            None => None,
        };
        let mut res = "null".to_string();
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, args) {
                let rd = inst.def_id();
                let kind = match inst.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    _ => "shim",
                };
                let ra = self.args(inst.args);
                res = format!(
                    "{{\"def\":{},\"args\":{},\"kind\":\"{}\",\"local\":{}}}",
                    esc(&self.path(rd)), ra, kind, rd.is_local()
                );
            }
        }
        format!(
            "{{\"def\":{},\"name\":{},\"args\":{},\"trait\":{},\"impltrait\":{},\"local\":{},\"res\":{}}}",
            esc(&self.path(d)),
            esc(&tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default()),
            a,
            tr.map(|t| esc(&t)).unwrap_or("null".into()),
            impl_trait.map(|t| esc(&t)).unwrap_or("null".into()),
            d.is_local(),
            res
        )
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let ti = self.ty(t);
        if let ty::FnDef(d, args) = *t.kind() {
            let d: DefId = d.into();
            let ce = self.callee(d, args.skip_binder(), env);
            return format!("{{\"c\":\"fn\",\"t\":{},\"fn\":{}}}", ti, ce);
        }
        let val = match c.const_ {
            Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    format!("\"c\":\"promoted\",\"of\":{},\"i\":{}", esc(&self.path(u.def)), p.as_usize())
                } else {
                    let ev = c.const_.try_eval_bits(tcx, env);
                    let ar = self.args(u.args);
                    format!(
                        "\"c\":\"named\",\"def\":{},\"args\":{},\"local\":{},\"bits\":{}",
                        esc(&self.path(u.def)), ar, u.def.is_local(),
                        ev.map(|x| format!("\"{}\"", x)).unwrap_or("null".into())
                    )
                }
            }
            Const::Val(v, _) => match v {
                ConstValue::ZeroSized => "\"c\":\"zst\"".to_string(),
                ConstValue::Slice { alloc_id, meta } => {
                    let alloc = tcx.global_alloc(alloc_id).unwrap_memory();
                    let n = (meta as usize).min(alloc.inner().len());
                    let b = alloc.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..n).to_vec();
                    format!("\"c\":\"str\",\"v\":{}", esc(&String::from_utf8_lossy(&b)))
                }
                ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _))
                    if matches!(tcx.global_alloc(p.provenance.alloc_id()), rustc_middle::mir::interpret::GlobalAlloc::Static(_)) =>
                {
                    let d = tcx.global_alloc(p.provenance.alloc_id());
                    match d {
                        rustc_middle::mir::interpret::GlobalAlloc::Static(d) => format!("\"c\":\"static\",\"def\":{}", esc(&self.path(d))),
                        _ => unreachable!(),
                    }
                }
                ConstValue::Scalar(_) => match c.const_.try_eval_bits(tcx, env) {
                    Some(bits) => {
                        let extra = match *t.kind() {
                            ty::Float(ty::FloatTy::F64) => format!(",\"f\":{}", esc(&format!("{:?}", f64::from_bits(bits as u64)))),
                            ty::Float(ty::FloatTy::F32) => format!(",\"f\":{}", esc(&format!("{:?}", f32::from_bits(bits as u32)))),
                            _ => String::new(),
                        };
                        format!("\"c\":\"scalar\",\"bits\":\"{}\"{}", bits, extra)
                    }
                    None => format!("\"c\":\"opaque\",\"v\":{}", esc(&format!("{}", c.const_))),
                },
                _ => format!("\"c\":\"opaque\",\"v\":{}", esc(&format!("{}", c.const_))),
            },
            Const::Ty(_, _) => match c.const_.try_eval_bits(tcx, env) {
                Some(bits) => format!("\"c\":\"scalar\",\"bits\":\"{}\"", bits),
                None => format!("\"c\":\"opaque\",\"v\":{}", esc(&format!("{}", c.const_))),
            },
        };
        format!("{{{},\"t\":{}}}", val, ti)
    }

    fn operand(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"copy\",{}]", self.place(p, body)),
            Operand::Move(p) => format!("[\"move\",{}]", self.place(p, body)),
            Operand::Constant(c) => format!("[\"const\",{}]", self.constant(c, env)),
            Operand::RuntimeChecks(_) => "[\"rtcheck\"]".to_string(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o, body, env)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx);
                format!("[\"repeat\",{},{}]", self.operand(o, body, env), n.map(|x| x.to_string()).unwrap_or("null".into()))
            }
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(p, body)),
            Rvalue::RawPtr(k, p) => format!("[\"rawptr\",{},{}]", esc(&format!("{:?}", k)), self.place(p, body)),
            Rvalue::Cast(k, o, t) => {
                let i = self.ty(*t);
                format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), self.operand(o, body, env), i)
            }
            Rvalue::BinaryOp(op, b) => format!(
                "[\"bin\",{},{},{}]",
                esc(&format!("{:?}", op)),
                self.operand(&b.0, body, env),
                self.operand(&b.1, body, env)
            ),
            Rvalue::UnaryOp(op, o) => format!("[\"un\",{},{}]", esc(&format!("{:?}", op)), self.operand(o, body, env)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p, body)),
            Rvalue::Aggregate(k, ops) => {
                let kk = match **k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, _, _, active) => {
                        if self.adt_seen.insert(d, ()).is_none() {
                            self.adts.push(d);
                        }
                        format!("[\"adt\",{},{},{}]", esc(&self.path(d)), v.as_usize(), active.map(|a| a.as_usize().to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(d, _) => { let d: DefId = d.into(); format!("[\"closure\",{}]", esc(&self.path(d))) }
                    _ => "[\"other\"]".to_string(),
                };
                let v: Vec<String> = ops.iter().map(|o| self.operand(o, body, env)).collect();
                format!("[\"agg\",{},{}]", kk, arr(v))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"copy\",{}]]", self.place(p, body)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", m.is_mut(), self.place(p, body)),
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".to_string(),
            _ => "[\"other\"]".to_string(),
        }
    }

    fn body(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        let mut locals = vec![];
        for d in body.local_decls.iter() {
            locals.push(self.ty(d.ty).to_string());
        }
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                let pl = self.place(&p, body);
                names.push(format!("[{},{}]", esc(v.name.as_str()), pl));
            }
        }
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let pl = self.place(p, body);
                        let rv = self.rvalue(r, body, env);
                        st.push(format!("[\"assign\",{},{},{}]", pl, rv, self.span(s.source_info.span)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pl = self.place(place, body);
                        st.push(format!("[\"setdiscr\",{},{}]", pl, variant_index.as_usize()));
                    }
                    StatementKind::StorageLive(l) => st.push(format!("[\"live\",{}]", l.as_usize())),
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.as_usize())),
                    _ => {}
                }
            }
            let term = bb.terminator();
            let sp = self.span(term.source_info.span);
            let uw = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => b.as_usize().to_string(),
                _ => "null".to_string(),
            };
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.operand(discr, body, env);
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_usize())).collect();
                    format!("[\"switch\",{},{},{},{}]", o, arr(v), targets.otherwise().as_usize(), sp)
                }
                TerminatorKind::Return => "[\"return\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".to_string(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".to_string(),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let pl = self.place(place, body);
                    format!("[\"drop\",{},{},{},{}]", pl, target.as_usize(), uw(unwind), sp)
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.operand(func, body, env);
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node, body, env)).collect();
                    let d = self.place(destination, body);
                    format!(
                        "[\"call\",{},{},{},{},{},{}]",
                        f, arr(a), d,
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()),
                        uw(unwind), sp
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, body, env);
                    let m = match **msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) | AssertKind::OverflowNeg(..) => "overflow",
                        AssertKind::DivisionByZero(..) | AssertKind::RemainderByZero(..) => "divzero",
                        _ => "other",
                    };
                    format!("[\"assert\",{},{},\"{}\",{},{}]", c, expected, m, target.as_usize(), sp)
                }
                _ => "[\"other\"]".to_string(),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"c\":{}}}", arr(st), t, bb.is_cleanup));
        }
        format!(
            "{{\"args\":{},\"locals\":{},\"names\":{},\"blocks\":{}}}",
            body.arg_count, arr(locals), arr(names), arr(blocks)
        )
    }

    fn adt(&mut self, d: DefId) -> String {
        let tcx = self.tcx;
        let def = tcx.adt_def(d);
        let gens: Vec<String> = {
            let g = tcx.generics_of(d);
            g.own_params.iter().filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)).map(|p| esc(p.name.as_str())).collect()
        };
        let mut vs = vec![];
        let small = def.is_enum() || def.variants().len() == 1;
        if small {
            let ds: Vec<String> = if def.is_enum() {
                def.discriminants(tcx).map(|(_, d)| d.val.to_string()).collect()
            } else {
                vec!["0".to_string()]
            };
            for (i, v) in def.variants().iter().enumerate() {
                let mut fs = vec![];
                for f in v.fields.iter() {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let ti = self.ty(t);
                    fs.push(format!("{{\"name\":{},\"ty\":{},\"pub\":{},\"vis\":{}}}", esc(f.name.as_str()), ti, f.vis.is_public(), esc(&format!("{:?}", f.vis))));
                }
                vs.push(format!("{{\"name\":{},\"discr\":\"{}\",\"fields\":{}}}", esc(v.name.as_str()), ds[i], arr(fs)));
            }
        }
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        format!(
            "{{\"def\":{},\"kind\":\"{}\",\"generics\":{},\"local\":{},\"exported\":{},\"variants\":{},\"span\":{}}}",
            esc(&self.path(d)), kind, arr(gens), d.is_local(), d.as_local().map(|l| tcx.effective_visibilities(()).is_exported(l)).unwrap_or(true), arr(vs), self.span(tcx.def_span(d))
        )
    }
}

/// Presents the crate root to the compiler with one more module: the contract file(s) named by
/// $KFACTS_EXTRA (colon separated), so that the contracts are type-checked together with the
/// unmodified sources of the crate under analysis.
struct Loader;
impl FileLoader for Loader {
    fn file_exists(&self, path: &Path) -> bool {
        RealFileLoader.file_exists(path)
    }
    fn read_file(&self, path: &Path) -> std::io::Result<String> {
        let mut s = RealFileLoader.read_file(path)?;
        if path.ends_with("src/lib.rs") {
            if let Ok(x) = std::env::var("KFACTS_EXTRA") {
                for f in x.split(':').filter(|f| !f.is_empty()) {
                    let stem = Path::new(f).file_stem().unwrap().to_string_lossy().to_string();
                    let _ = write!(s, "\n#[allow(warnings)]\n#[path = \"{}\"]\npub mod {};\n", f, stem);
                }
            }
        }
        Ok(s)
    }
    fn read_binary_file(&self, path: &Path) -> std::io::Result<Arc<[u8]>> {
        RealFileLoader.read_binary_file(path)
    }
    fn current_directory(&self) -> std::io::Result<PathBuf> {
        RealFileLoader.current_directory()
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.file_loader = Some(Box::new(Loader));
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        if let Ok(out) = std::env::var("KFACTS_OUT") {
            let s = dump(tcx);
            let tmp = format!("{}.tmp.{}", out, std::process::id());
            std::fs::write(&tmp, s).expect("write facts");
            std::fs::rename(&tmp, &out).expect("rename facts");
        }
        rustc_driver::Compilation::Continue
    }
}

/// unsafe blocks written in the crate
struct Unsafe<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: Vec<rustc_span::Span>,
}
impl<'tcx> Visitor<'tcx> for Unsafe<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            let own = match b.span.ctxt().outer_expn_data().macro_def_id {
                _ if !b.span.from_expansion() => true,
                Some(m) => m.is_local(),
                None => false,
            };
            if own {
                self.out.push(b.span);
            }
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>) -> String {
    let mut cx = Cx { tcx, tys: HashMap::new(), ty_out: vec![], adts: vec![], adt_seen: HashMap::new() };
    let mut fns = vec![];
    let ev = tcx.effective_visibilities(());
    let keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
    for ld in keys {
        let d = ld.to_def_id();
        let kind = tcx.def_kind(d);
        let is_const = matches!(kind, DefKind::Const | DefKind::AssocConst | DefKind::Static { .. } | DefKind::AnonConst);
        let isfn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
        if !is_const && !isfn {
            continue;
        }
        let env = TypingEnv::post_analysis(tcx, d);
        let body: &Body<'tcx> = if is_const { tcx.mir_for_ctfe(d) } else { tcx.optimized_mir(d) };
        let b = cx.body(body, env);
        let proms: Vec<String> = {
            let p = tcx.promoted_mir(d);
            p.iter().map(|b| cx.body(b, env)).collect()
        };
        let vis = ev.is_exported(ld);
        let parent = tcx.opt_parent(d);
        let (implself, impltrait) = match tcx.impl_of_assoc(d) {
            Some(i) => {
                let st = tcx.type_of(i).instantiate_identity().skip_norm_wip();
                let sti = cx.ty(st);
                let tr = if tcx.impl_opt_trait_ref(i).is_some() {
                    let trf = tcx.impl_trait_ref(i).instantiate_identity().skip_norm_wip();
                    let a = cx.args(trf.args);
                    format!("{{\"def\":{},\"args\":{}}}", esc(&cx.path(trf.def_id)), a)
                } else {
                    "null".to_string()
                };
                (sti.to_string(), tr)
            }
            None => ("null".to_string(), "null".to_string()),
        };
        let in_trait = tcx.trait_of_assoc(d).map(|t| esc(&cx.path(t))).unwrap_or("null".into());
        let derived = tcx.impl_of_assoc(d).map(|i| tcx.is_automatically_derived(i)).unwrap_or(false);
        let generics: Vec<String> = {
            let mut v = vec![];
            let mut g = Some(tcx.generics_of(d));
            let mut chain = vec![];
            while let Some(gg) = g {
                chain.push(gg);
                g = gg.parent.map(|p| tcx.generics_of(p));
            }
            for gg in chain.into_iter().rev() {
                for p in &gg.own_params {
                    if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                        v.push(esc(p.name.as_str()));
                    }
                }
            }
            v
        };
        let unsafety = if isfn && !matches!(kind, DefKind::Closure) { !tcx.fn_sig(d).skip_binder().safety().is_safe() } else { false };
        fns.push(format!(
            "{{\"path\":{},\"name\":{},\"kind\":{},\"parent\":{},\"exported\":{},\"implself\":{},\"impltrait\":{},\"intrait\":{},\"derived\":{},\"unsafe\":{},\"generics\":{},\"span\":{},\"body\":{},\"promoted\":{}}}",
            esc(&cx.path(d)),
            esc(&tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default()),
            esc(&format!("{:?}", kind)),
            parent.map(|p| esc(&cx.path(p))).unwrap_or("null".into()),
            vis, implself, impltrait, in_trait, derived, unsafety, arr(generics),
            cx.span(tcx.def_span(d)), b, arr(proms)
        ));
    }
    // impls
    let mut impls = vec![];
    for id in tcx.hir_free_items() {
        let d = id.owner_id.to_def_id();
        if let DefKind::Impl { .. } = tcx.def_kind(d) {
            let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let sti = cx.ty(st);
            let (tr, ta) = if tcx.impl_opt_trait_ref(d).is_some() {
                let trf = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                let a = cx.args(trf.args);
                (esc(&cx.path(trf.def_id)), a)
            } else {
                ("null".to_string(), "[]".to_string())
            };
            impls.push(format!("{{\"self\":{},\"trait\":{},\"args\":{},\"derived\":{},\"span\":{}}}", sti, tr, ta, tcx.is_automatically_derived(d), cx.span(tcx.def_span(d))));
        }
        if let DefKind::Struct | DefKind::Enum = tcx.def_kind(d) {
            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            cx.ty(t);
        }
    }
    let mut un = Unsafe { tcx, out: vec![] };
    tcx.hir_walk_toplevel_module(&mut un);
    let mut unsafes: Vec<String> = un.out.iter().map(|s| cx.span(*s)).collect();
    for id in tcx.hir_free_items() {
        let d = id.owner_id.to_def_id();
        if let DefKind::Impl { of_trait: true } = tcx.def_kind(d) {
            if tcx.impl_trait_header(d).safety.is_unsafe() {
                unsafes.push(cx.span(tcx.def_span(d)));
            }
        }
    }
    let mut adts = vec![];
    let mut i = 0;
    while i < cx.adts.len() {
        let d = cx.adts[i];
        i += 1;
        let a = cx.adt(d);
        adts.push(a);
    }
    format!(
        "{{\"types\":{},\n\"adts\":{},\n\"impls\":{},\n\"unsafes\":{},\n\"fns\":[\n{}\n]}}\n",
        arr(cx.ty_out.iter().cloned()),
        arr(adts),
        arr(impls),
        arr(unsafes),
        fns.join(",\n")
    )
}

struct Plain;
impl rustc_driver::Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("rustc")) {
        args.remove(1);
    }
    let mut name = String::new();
    let mut test = false;
    for (i, a) in args.iter().enumerate() {
        if a == "--crate-name" {
            name = args.get(i + 1).cloned().unwrap_or_default();
        }
        if a == "--test" {
            test = true;
        }
    }
    let want = std::env::var("KFACTS_CRATE").unwrap_or_default();
    if name == want && !test {
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
    }
}
#[allow(unused)]
fn _unused(_: mir::Local) {}
