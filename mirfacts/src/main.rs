//! mirfacts: a rustc driver (used as RUSTC_WORKSPACE_WRAPPER) which type-checks the crate exactly
//! as rustc does and writes, for every body owner, the borrow-check-phase MIR (before drop
//! elaboration and before the coroutine transform) as JSON facts. It never runs the program.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::sync::{Mutex, OnceLock};

type Proms = rustc_index::IndexVec<Promoted, Body<'static>>;
type Bodies = Mutex<Vec<(LocalDefId, Body<'static>, Proms)>>;
static BODIES: OnceLock<Bodies> = OnceLock::new();
fn bodies() -> &'static Bodies {
    BODIES.get_or_init(|| Mutex::new(Vec::new()))
}

type PromotedFn = for<'tcx> fn(
    TyCtxt<'tcx>,
    LocalDefId,
) -> (
    &'tcx rustc_data_structures::steal::Steal<Body<'tcx>>,
    &'tcx rustc_data_structures::steal::Steal<rustc_index::IndexVec<Promoted, Body<'tcx>>>,
);
static ORIG: OnceLock<PromotedFn> = OnceLock::new();

fn my_mir_promoted<'tcx>(
    tcx: TyCtxt<'tcx>,
    def: LocalDefId,
) -> (
    &'tcx rustc_data_structures::steal::Steal<Body<'tcx>>,
    &'tcx rustc_data_structures::steal::Steal<rustc_index::IndexVec<Promoted, Body<'tcx>>>,
) {
    let result = (ORIG.get().unwrap())(tcx, def);
    let body: Body<'tcx> = result.0.borrow().clone();
    // SAFETY: the clone is only read in after_analysis, while the same TyCtxt is alive.
    let body: Body<'static> = unsafe { std::mem::transmute(body) };
    let proms: rustc_index::IndexVec<Promoted, Body<'tcx>> = result.1.borrow().clone();
    let proms: Proms = unsafe { std::mem::transmute(proms) };
    bodies().lock().unwrap().push((def, body, proms));
    result
}

struct Cb {
    out: Option<String>,
}

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        if self.out.is_none() {
            return;
        }
        config.override_queries = Some(|_sess, providers| {
            let _ = ORIG.set(providers.queries.mir_promoted);
            providers.queries.mir_promoted = my_mir_promoted;
        });
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        if let Some(out) = &self.out {
            dump(tcx, out);
        }
        rustc_driver::Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc path.
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let mut out = None;
    if let Ok(dir) = std::env::var("MIRFACTS_OUT") {
        let mut name = None;
        let mut kind = String::from("bin");
        let mut i = 0;
        let mut is_print = false;
        while i < args.len() {
            if args[i] == "--crate-name" {
                name = args.get(i + 1).cloned();
            }
            if args[i] == "--crate-type" {
                kind = args.get(i + 1).cloned().unwrap_or_default();
            }
            if args[i].starts_with("--print") {
                is_print = true;
            }
            i += 1;
        }
        if let Some(name) = name {
            if name != "___" && name != "build_script_build" && !is_print {
                out = Some(format!("{dir}/{name}.{kind}.json"));
            }
        }
    }
    let mut cb = Cb { out };
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb))
}

// ---------------------------------------------------------------- JSON writer
fn js(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_strs: Vec<String>,
    ty_adts: Vec<String>,
    callees: HashMap<String, usize>,
    callee_strs: Vec<String>,
    files: HashMap<String, usize>,
    file_strs: Vec<String>,
    proms: Option<rustc_index::IndexVec<Promoted, Body<'tcx>>>,
}

fn path_of(tcx: TyCtxt<'_>, d: DefId) -> String {
    let s = ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(
        ty::print::with_resolve_crate_name!(tcx.def_path_str(d))
    ));
    s
}
fn key_of(tcx: TyCtxt<'_>, d: DefId) -> String {
    let h = tcx.def_path_hash(d);
    format!("{:016x}{:016x}", h.0.split().0.as_u64(), h.0.split().1.as_u64())
}

impl<'tcx> Cx<'tcx> {
    fn ty_string(&self, t: Ty<'tcx>) -> String {
        ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(
            ty::print::with_resolve_crate_name!(t.to_string())
        ))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let s = self.ty_string(t);
        // strip references to name the head ADT / closure
        let mut h = t;
        loop {
            match h.kind() {
                ty::Ref(_, i, _) => h = *i,
                ty::RawPtr(i, _) => h = *i,
                _ => break,
            }
        }
        let adt = match h.kind() {
            ty::Adt(a, _) => path_of(self.tcx, a.did()),
            ty::Closure(d, _) | ty::Coroutine(d, _) | ty::CoroutineClosure(d, _) => {
                format!("@{}", key_of(self.tcx, *d))
            }
            ty::FnDef(d, _) => format!("@{}", key_of(self.tcx, *d)),
            ty::Alias(_, a) => match a.kind {
                ty::AliasTyKind::Opaque { def_id } => format!("@opaque:{}", key_of(self.tcx, self.tcx.parent(def_id.into()))),
                _ => String::new(),
            },
            _ => String::new(),
        };
        let i = self.ty_strs.len();
        self.ty_strs.push(s);
        self.ty_adts.push(adt);
        self.tys.insert(t, i);
        i
    }
    fn line(&mut self, sp: rustc_span::Span) -> (usize, usize) {
        let sp = sp.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        let fi = if let Some(i) = self.files.get(&f) {
            *i
        } else {
            let i = self.file_strs.len();
            self.file_strs.push(f.clone());
            self.files.insert(f, i);
            i
        };
        (fi, lo.line)
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>, o: &mut String) {
        let _ = write!(o, "[{}", p.local.as_u32());
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            o.push(',');
            match e {
                ProjectionElem::Deref => o.push_str("\"*\""),
                ProjectionElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(a, _) => {
                            let v = match pt.variant_index {
                                Some(v) => Some(a.variant(v)),
                                None if !a.is_enum() => Some(a.non_enum_variant()),
                                None => None,
                            };
                            v.and_then(|v| v.fields.get(f).map(|x| x.name.to_string()))
                        }
                        ty::Closure(d, _) | ty::Coroutine(d, _) => {
                            if let Some(l) = d.as_local() {
                                self.tcx
                                    .closure_captures(l)
                                    .get(f.as_usize())
                                    .map(|c| format!("^{}", c.to_symbol()))
                            } else {
                                None
                            }
                        }
                        _ => None,
                    };
                    let owner = match pt.ty.kind() {
                        ty::Adt(a, _) => path_of(self.tcx, a.did()),
                        _ => String::new(),
                    };
                    o.push_str("[\"f\",");
                    js(&name.unwrap_or_else(|| f.as_u32().to_string()), o);
                    o.push(',');
                    js(&owner, o);
                    o.push(']');
                }
                ProjectionElem::Downcast(n, v) => {
                    let name = n.map(|n| n.to_string()).or_else(|| match pt.ty.kind() {
                        ty::Adt(a, _) => Some(a.variant(v).name.to_string()),
                        _ => None,
                    });
                    o.push_str("[\"d\",");
                    js(&name.unwrap_or_else(|| v.as_u32().to_string()), o);
                    o.push(']');
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, "[\"i\",{}]", l.as_u32());
                }
                ProjectionElem::ConstantIndex { offset, min_length: _, from_end } => {
                    let _ = write!(o, "[\"ci\",{},{}]", offset, from_end as u8);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, "[\"ss\",{},{},{}]", from, to, from_end as u8);
                }
                _ => o.push_str("[\"?\"]"),
            }
            pt = pt.projection_ty(self.tcx, e);
        }
        o.push(']');
    }
    fn callee(&mut self, owner: DefId, d: DefId, args: ty::GenericArgsRef<'tcx>) -> usize {
        let tcx = self.tcx;
        let mut s = String::from("{\"k\":");
        js(&key_of(tcx, d), &mut s);
        s.push_str(",\"n\":");
        js(&path_of(tcx, d), &mut s);
        let env = TypingEnv::non_body_analysis(tcx, owner);
        let eargs = tcx.erase_and_anonymize_regions(args);
        let mut res: Option<(DefId, String)> = None;
        if let Some(tr) = tcx.trait_of_assoc(d) {
            s.push_str(",\"tr\":");
            js(&path_of(tcx, tr), &mut s);
            if args.len() > 0 {
                if let Some(t) = args[0].as_type() {
                    s.push_str(",\"st\":");
                    let _ = write!(s, "{}", self.ty(t));
                    if !eargs.has_escaping_bound_vars() {
                        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, eargs) {
                            let tag = match inst.def {
                                ty::InstanceKind::Virtual(..) => "virtual",
                                ty::InstanceKind::Item(_) => "item",
                                _ => "other",
                            };
                            res = Some((inst.def_id(), tag.to_string()));
                        }
                    }
                }
            }
        }
        if let Some((r, tag)) = res {
            if r != d || tag == "virtual" {
                s.push_str(",\"rk\":");
                js(&key_of(tcx, r), &mut s);
                s.push_str(",\"r\":");
                js(&path_of(tcx, r), &mut s);
                s.push_str(",\"rt\":");
                js(&tag, &mut s);
            }
        }
        s.push_str(",\"g\":[");
        let mut first = true;
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                if !first {
                    s.push(',');
                }
                first = false;
                let _ = write!(s, "{}", self.ty(t));
            }
        }
        s.push_str("]}");
        if let Some(i) = self.callees.get(&s) {
            return *i;
        }
        let i = self.callee_strs.len();
        self.callee_strs.push(s.clone());
        self.callees.insert(s, i);
        i
    }
    fn konst(&mut self, owner: DefId, c: &ConstOperand<'tcx>, o: &mut String) {
        let tcx = self.tcx;
        let ty = c.const_.ty();
        match ty.kind() {
            ty::FnDef(d, args) => {
                let ca = self.callee(owner, *d, args.skip_binder());
                let _ = write!(o, "{{\"fn\":{ca}}}");
                return;
            }
            _ => {}
        }
        let _ = write!(o, "{{\"t\":{}", self.ty(ty));
        if let Const::Unevaluated(u, _) = c.const_ {
            if u.promoted.is_none() {
                o.push_str(",\"c\":");
                js(&path_of(tcx, u.def), o);
            } else {
                o.push_str(",\"prom\":1");
            }
        }
        let env = TypingEnv::non_body_analysis(tcx, owner);
        let promoted = matches!(c.const_, Const::Unevaluated(u, _) if u.promoted.is_some());
        let generic = c.const_.has_param() || c.const_.has_escaping_bound_vars();
        if !generic && !promoted && !c.const_.ty().references_error() {
            if let Ok(v) = c.const_.eval(tcx, env, c.span) {
                self.const_value(v, ty, o);
            }
        } else if promoted {
            if let Const::Unevaluated(u, _) = c.const_ {
                if !generic {
                    if let Ok(v) = c.const_.eval(tcx, env, c.span) {
                        self.const_value(v, ty, o);
                    }
                }
                let pb = self.proms.as_ref().and_then(|v| u.promoted.and_then(|i| v.get(i))).cloned();
                if let Some(pb) = pb {
                    o.push_str(",\"pb\":[");
                    let mut first = true;
                    for b in pb.basic_blocks.iter() {
                        for st in &b.statements {
                            if let StatementKind::Assign(a) = &st.kind {
                                if a.0.projection.len() != 0 {
                                    continue;
                                }
                                if !first {
                                    o.push(',');
                                }
                                first = false;
                                let _ = write!(o, "[{},", a.0.local.as_u32());
                                self.rvalue(owner, &pb, &a.1, o);
                                o.push(']');
                            }
                        }
                    }
                    o.push(']');
                }
            }
        }
        o.push('}');
    }
    fn const_value(&mut self, v: ConstValue, ty: Ty<'tcx>, o: &mut String) {
        let tcx = self.tcx;
        match v {
            ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Int(i)) => {
                let _ = match ty.kind() {
                    ty::Bool => write!(o, ",\"v\":{}", i.try_to_bool().map(|b| b.to_string()).unwrap_or("null".into())),
                    ty::Int(_) => write!(o, ",\"v\":{}", i.to_int(i.size())),
                    ty::Uint(_) | ty::Char => write!(o, ",\"v\":{}", i.to_uint(i.size())),
                    ty::Adt(..) => write!(o, ",\"raw\":{}", i.to_uint(i.size())),
                    _ => Ok(()),
                };
            }
            ConstValue::Slice { .. } => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    if let ty::Ref(_, inner, _) = ty.kind() {
                        if inner.is_str() {
                            o.push_str(",\"s\":");
                            js(&String::from_utf8_lossy(b), o);
                        } else {
                            o.push_str(",\"b\":");
                            js(&String::from_utf8_lossy(b), o);
                        }
                    }
                }
            }
            _ => {
                // Pretty constant (promoted arrays of strings and the like); bounded.
                let c = Const::Val(v, ty);
                let s = ty::print::with_no_trimmed_paths!(format!("{c}"));
                if s.len() < 4000 {
                    o.push_str(",\"pp\":");
                    js(&s, o);
                }
            }
        }
    }
    fn operand(&mut self, owner: DefId, body: &Body<'tcx>, op: &Operand<'tcx>, o: &mut String) {
        match op {
            Operand::Copy(p) => {
                o.push_str("{\"p\":");
                self.place(body, p, o);
                o.push('}');
            }
            Operand::Move(p) => {
                o.push_str("{\"m\":1,\"p\":");
                self.place(body, p, o);
                o.push('}');
            }
            Operand::Constant(c) => self.konst(owner, c, o),
            _ => o.push_str("{}"),
        }
    }
    fn rvalue(&mut self, owner: DefId, body: &Body<'tcx>, r: &Rvalue<'tcx>, o: &mut String) {
        match r {
            Rvalue::Use(op, ..) => {
                o.push_str("[\"use\",");
                self.operand(owner, body, op, o);
                o.push(']');
            }
            Rvalue::Repeat(op, _) => {
                o.push_str("[\"repeat\",");
                self.operand(owner, body, op, o);
                o.push(']');
            }
            Rvalue::Ref(_, bk, p) => {
                let m = match bk {
                    BorrowKind::Mut { .. } => 1,
                    BorrowKind::Fake(_) => 2,
                    BorrowKind::Shared => 0,
                };
                let _ = write!(o, "[\"ref\",{m},");
                self.place(body, p, o);
                o.push(']');
            }
            Rvalue::RawPtr(_, p) => {
                o.push_str("[\"ref\",3,");
                self.place(body, p, o);
                o.push(']');
            }
            Rvalue::Cast(k, op, t) => {
                o.push_str("[\"cast\",");
                let ks = format!("{k:?}");
                js(ks.split('(').next().unwrap_or(""), o);
                o.push(',');
                self.operand(owner, body, op, o);
                let _ = write!(o, ",{}]", self.ty(*t));
            }
            Rvalue::BinaryOp(b, x) => {
                let _ = write!(o, "[\"bin\",\"{b:?}\",");
                self.operand(owner, body, &x.0, o);
                o.push(',');
                self.operand(owner, body, &x.1, o);
                o.push(']');
            }
            Rvalue::UnaryOp(u, x) => {
                let _ = write!(o, "[\"un\",\"{u:?}\",");
                self.operand(owner, body, x, o);
                o.push(']');
            }
            Rvalue::Discriminant(p) => {
                o.push_str("[\"disc\",");
                self.place(body, p, o);
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let _ = write!(o, ",{}]", self.ty(t));
            }
            Rvalue::CopyForDeref(p) => {
                o.push_str("[\"use\",{\"p\":");
                self.place(body, p, o);
                o.push_str("}]");
            }
            Rvalue::Aggregate(k, ops) => {
                let tcx = self.tcx;
                o.push_str("[\"agg\",");
                let mut names: Vec<String> = Vec::new();
                match &**k {
                    AggregateKind::Array(_) => o.push_str("\"array\",\"\",\"\""),
                    AggregateKind::Tuple => o.push_str("\"tuple\",\"\",\"\""),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        let a = tcx.adt_def(*d);
                        let vd = a.variant(*v);
                        o.push_str("\"adt\",");
                        js(&path_of(tcx, *d), o);
                        o.push(',');
                        js(vd.name.as_str(), o);
                        names = vd.fields.iter().map(|f| f.name.to_string()).collect();
                    }
                    AggregateKind::Closure(d, _) => {
                        o.push_str("\"closure\",");
                        js(&key_of(tcx, *d), o);
                        o.push_str(",\"\"");
                        if let Some(l) = d.as_local() {
                            names = tcx.closure_captures(l).iter().map(|c| format!("^{}", c.to_symbol())).collect();
                        }
                    }
                    AggregateKind::Coroutine(d, _) => {
                        o.push_str("\"coroutine\",");
                        js(&key_of(tcx, *d), o);
                        o.push_str(",\"\"");
                        if let Some(l) = d.as_local() {
                            names = tcx.closure_captures(l).iter().map(|c| format!("^{}", c.to_symbol())).collect();
                        }
                    }
                    AggregateKind::CoroutineClosure(d, _) => {
                        o.push_str("\"closure\",");
                        js(&key_of(tcx, *d), o);
                        o.push_str(",\"\"");
                    }
                    AggregateKind::RawPtr(..) => o.push_str("\"ptr\",\"\",\"\""),
                }
                o.push_str(",[");
                for (i, n) in names.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    js(n, o);
                }
                o.push_str("],[");
                for (i, op) in ops.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    self.operand(owner, body, op, o);
                }
                o.push_str("]]");
            }
            _ => o.push_str("[\"other\"]"),
        }
    }
    fn unwind(&self, u: &UnwindAction, o: &mut String) {
        match u {
            UnwindAction::Cleanup(b) => {
                let _ = write!(o, "{}", b.as_u32());
            }
            _ => o.push_str("null"),
        }
    }
    fn body(&mut self, def: LocalDefId, body: &Body<'tcx>, o: &mut String) {
        let tcx = self.tcx;
        let did = def.to_def_id();
        o.push_str("{\"k\":");
        js(&key_of(tcx, did), o);
        o.push_str(",\"n\":");
        js(&path_of(tcx, did), o);
        let dk = tcx.def_kind(did);
        let kind = match dk {
            DefKind::Closure => {
                if tcx.is_coroutine(did) {
                    "coroutine"
                } else {
                    "closure"
                }
            }
            DefKind::Fn | DefKind::AssocFn => "fn",
            _ => "const",
        };
        let _ = write!(o, ",\"kind\":\"{kind}\"");
        if matches!(dk, DefKind::Closure) {
            o.push_str(",\"parent\":");
            js(&key_of(tcx, tcx.parent(did)), o);
        }
        if tcx.asyncness(did).is_async() && matches!(dk, DefKind::Fn | DefKind::AssocFn) {
            o.push_str(",\"async\":1");
        }
        if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
            let vis = tcx.visibility(did);
            let _ = write!(o, ",\"pub\":{}", if vis.is_public() { 1 } else { 0 });
        }
        if let Some(im) = tcx.trait_impl_of_assoc(did) {
            let tr = tcx.impl_trait_ref(im);
            o.push_str(",\"impl_trait\":");
            js(&path_of(tcx, tr.skip_binder().def_id), o);
            let st = tr.skip_binder().self_ty();
            let _ = write!(o, ",\"impl_self\":{}", self.ty(st));
        } else if let Some(im) = tcx.inherent_impl_of_assoc(did) {
            let st = tcx.type_of(im).skip_binder();
            let _ = write!(o, ",\"impl_self\":{}", self.ty(st));
        }
        let (f, l) = self.line(tcx.def_span(did));
        let l2 = {
            let sp = body.span.source_callsite();
            self.tcx.sess.source_map().lookup_char_pos(sp.hi()).line
        };
        let _ = write!(o, ",\"sp\":[{f},{l},{l2}],\"nargs\":{}", body.arg_count);
        // names
        o.push_str(",\"names\":{");
        let mut first = true;
        for vi in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = vi.value {
                if p.projection.is_empty() {
                    if !first {
                        o.push(',');
                    }
                    first = false;
                    let _ = write!(o, "\"{}\":", p.local.as_u32());
                    js(vi.name.as_str(), o);
                }
            }
        }
        o.push_str("},\"locals\":[");
        for (i, ld) in body.local_decls.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let t = self.ty(ld.ty);
            let _ = write!(o, "{t}");
        }
        o.push_str("],\"bb\":[");
        for (bi, bb) in body.basic_blocks.iter().enumerate() {
            if bi > 0 {
                o.push(',');
            }
            let _ = write!(o, "{{{}\"s\":[", if bb.is_cleanup { "\"c\":1," } else { "" });
            let mut first = true;
            for st in &bb.statements {
                let mut e = String::new();
                match &st.kind {
                    StatementKind::Assign(b) => {
                        if let Rvalue::Ref(_, BorrowKind::Fake(_), _) = &b.1 {
                            continue;
                        }
                        let (_, l) = self.line(st.source_info.span);
                        e.push_str("[\"=\",");
                        self.place(body, &b.0, &mut e);
                        e.push(',');
                        self.rvalue(did, body, &b.1, &mut e);
                        let _ = write!(e, ",{l}]");
                    }
                    StatementKind::StorageDead(l) => {
                        let _ = write!(e, "[\"sd\",{}]", l.as_u32());
                    }
                    StatementKind::SetDiscriminant { place, .. } => {
                        e.push_str("[\"setd\",");
                        self.place(body, place, &mut e);
                        e.push(']');
                    }
                    _ => continue,
                }
                if !first {
                    o.push(',');
                }
                first = false;
                o.push_str(&e);
            }
            o.push_str("],\"t\":");
            let term = bb.terminator();
            let (_, tl) = self.line(term.source_info.span);
            match &term.kind {
                TerminatorKind::Goto { target, .. } => {
                    let _ = write!(o, "[\"goto\",{}]", target.as_u32());
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    let _ = write!(o, "[\"goto\",{}]", real_target.as_u32());
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    let _ = write!(o, "[\"goto\",{}]", real_target.as_u32());
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    o.push_str("[\"switch\",");
                    self.operand(did, body, discr, o);
                    o.push_str(",[");
                    let mut first = true;
                    for (v, t) in targets.iter() {
                        if !first {
                            o.push(',');
                        }
                        first = false;
                        let _ = write!(o, "[{},{}]", v, t.as_u32());
                    }
                    let _ = write!(o, "],{},{tl}]", targets.otherwise().as_u32());
                }
                TerminatorKind::Return => o.push_str("[\"ret\"]"),
                TerminatorKind::UnwindResume => o.push_str("[\"resume\"]"),
                TerminatorKind::Unreachable => o.push_str("[\"unr\"]"),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    o.push_str("[\"drop\",");
                    self.place(body, place, o);
                    let _ = write!(o, ",{},", target.as_u32());
                    self.unwind(unwind, o);
                    let _ = write!(o, ",{tl}]");
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    o.push_str("[\"call\",");
                    self.operand(did, body, func, o);
                    o.push_str(",[");
                    for (i, a) in args.iter().enumerate() {
                        if i > 0 {
                            o.push(',');
                        }
                        self.operand(did, body, &a.node, o);
                    }
                    o.push_str("],");
                    self.place(body, destination, o);
                    match target {
                        Some(t) => {
                            let _ = write!(o, ",{},", t.as_u32());
                        }
                        None => o.push_str(",null,"),
                    }
                    self.unwind(unwind, o);
                    let exp = if term.source_info.span.from_expansion() { 1 } else { 0 };
                    let _ = write!(o, ",{tl},{exp}]");
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    o.push_str("[\"assert\",");
                    self.operand(did, body, cond, o);
                    let m = format!("{msg:?}");
                    let mk = m.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string();
                    let mk = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(b, ..) => format!("overflow:{b:?}"),
                        AssertKind::OverflowNeg(_) => "overflow:Neg".to_string(),
                        AssertKind::DivisionByZero(_) => "div0".to_string(),
                        AssertKind::RemainderByZero(_) => "rem0".to_string(),
                        _ => mk,
                    };
                    let _ = write!(o, ",{},\"{}\",[", *expected as u8, mk);
                    match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            self.operand(did, body, len, o);
                            o.push(',');
                            self.operand(did, body, index, o);
                        }
                        AssertKind::Overflow(_, a, b) => {
                            self.operand(did, body, a, o);
                            o.push(',');
                            self.operand(did, body, b, o);
                        }
                        _ => {}
                    }
                    let _ = write!(o, "],{},", target.as_u32());
                    self.unwind(unwind, o);
                    let _ = write!(o, ",{tl}]");
                }
                TerminatorKind::Yield { value: _, resume, drop, .. } => {
                    let _ = write!(o, "[\"yield\",{},{},{tl}]", resume.as_u32(), drop.map(|d| d.as_u32().to_string()).unwrap_or("null".into()));
                }
                TerminatorKind::CoroutineDrop => o.push_str("[\"cdrop\"]"),
                _ => o.push_str("[\"other\"]"),
            }
            o.push('}');
        }
        o.push_str("]}");
    }
}

fn dump(tcx: TyCtxt<'_>, out: &str) {
    // Force MIR for everything with a body, also functions check would skip.
    for def in tcx.hir_body_owners() {
        let dk = tcx.def_kind(def);
        if matches!(dk, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            let _ = tcx.mir_promoted(def);
        }
    }
    let bs: Vec<(LocalDefId, Body<'_>, rustc_index::IndexVec<Promoted, Body<'_>>)> = {
        let mut g = bodies().lock().unwrap();
        let v = std::mem::take(&mut *g);
        unsafe { std::mem::transmute(v) }
    };
    let mut cx = Cx {
        tcx,
        tys: HashMap::new(),
        ty_strs: vec![],
        ty_adts: vec![],
        callees: HashMap::new(),
        callee_strs: vec![],
        files: HashMap::new(),
        file_strs: vec![],
        proms: None,
    };
    let mut o = String::with_capacity(1 << 26);
    o.push_str("{\"crate\":");
    js(tcx.crate_name(LOCAL_CRATE).as_str(), &mut o);
    o.push_str(",\"fns\":[\n");
    let mut first = true;
    let mut seen = std::collections::HashSet::new();
    for (d, b, pr) in &bs {
        if !seen.insert(*d) {
            continue;
        }
        let dk = tcx.def_kind(*d);
        if !matches!(dk, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            continue;
        }
        if !first {
            o.push_str(",\n");
        }
        first = false;
        cx.proms = Some(pr.clone());
        cx.body(*d, b, &mut o);
    }
    o.push_str("],\n\"adts\":[");
    let mut first = true;
    let mut consts = String::new();
    let mut cfirst = true;
    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let a = tcx.adt_def(did);
                if !first {
                    o.push_str(",\n");
                }
                first = false;
                o.push_str("{\"n\":");
                js(&path_of(tcx, did), &mut o);
                let (f, l) = cx.line(tcx.def_span(did));
                let _ = write!(o, ",\"sp\":[{f},{l}],\"enum\":{},\"v\":[", a.is_enum());
                for (i, v) in a.variants().iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    o.push_str("[");
                    js(v.name.as_str(), &mut o);
                    let dv = if a.is_enum() {
                        a.discriminant_for_variant(tcx, rustc_abi::VariantIdx::from_usize(i)).val
                    } else {
                        0
                    };
                    let _ = write!(o, ",{dv},[");
                    for (j, fd) in v.fields.iter().enumerate() {
                        if j > 0 {
                            o.push(',');
                        }
                        o.push('[');
                        js(fd.name.as_str(), &mut o);
                        let t = tcx.type_of(fd.did).instantiate_identity().skip_norm_wip();
                        let ti = cx.ty(t);
                        let _ = write!(o, ",{ti},{}]", fd.vis.is_public() as u8);
                    }
                    o.push_str("]]");
                }
                o.push_str("]}");
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                let gen = tcx.generics_of(did);
                if gen.requires_monomorphization(tcx) {
                    continue;
                }
                if tcx.trait_of_assoc(did).is_some() {
                    continue;
                }
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                if let Ok(v) = tcx.const_eval_poly(did) {
                    if !cfirst {
                        consts.push_str(",\n");
                    }
                    cfirst = false;
                    consts.push_str("{\"n\":");
                    js(&path_of(tcx, did), &mut consts);
                    let ti = cx.ty(t);
                    let _ = write!(consts, ",\"t\":{ti}");
                    cx.const_value(v, t, &mut consts);
                    consts.push('}');
                }
            }
            _ => {}
        }
    }
    o.push_str("],\n\"consts\":[");
    o.push_str(&consts);
    o.push_str("],\n\"impls\":[");
    let mut first = true;
    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        if !matches!(tcx.def_kind(did), DefKind::Impl { of_trait: true }) {
            continue;
        }
        let tr = tcx.impl_trait_ref(did);
        if !first {
            o.push_str(",\n");
        }
        first = false;
        o.push_str("{\"tr\":");
        js(&path_of(tcx, tr.skip_binder().def_id), &mut o);
        let st = cx.ty(tr.skip_binder().self_ty());
        let _ = write!(o, ",\"st\":{st},\"m\":[");
        let mut f2 = true;
        for it in tcx.associated_items(did).in_definition_order() {
            if !it.is_fn() {
                continue;
            }
            if !f2 {
                o.push(',');
            }
            f2 = false;
            let td = it.trait_item_def_id().map(|d| key_of(tcx, d)).unwrap_or_default();
            let _ = write!(o, "[\"{}\",\"{}\"]", td, key_of(tcx, it.def_id));
        }
        o.push_str("]}");
    }
    o.push_str("],\n\"tys\":[");
    for i in 0..cx.ty_strs.len() {
        if i > 0 {
            o.push(',');
        }
        o.push('[');
        js(&cx.ty_strs[i], &mut o);
        o.push(',');
        js(&cx.ty_adts[i], &mut o);
        o.push(']');
    }
    o.push_str("],\n\"callees\":[");
    o.push_str(&cx.callee_strs.join(","));
    o.push_str("],\n\"files\":[");
    for (i, f) in cx.file_strs.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        js(f, &mut o);
    }
    o.push_str("]}\n");
    let tmp = format!("{out}.tmp.{}", std::process::id());
    std::fs::write(&tmp, &o).expect("write facts");
    std::fs::rename(&tmp, out).expect("rename facts");
}
