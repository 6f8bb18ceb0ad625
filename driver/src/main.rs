//! mirx: a rustc driver that type-checks a crate exactly as cargo asked for and
//! writes what later analysis needs: MIR bodies (optimised at level 0), types,
//! ADT layouts, impl tables and visibility, as JSON.  It decides nothing.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::{CtorKind, DefKind};
use rustc_hir::def_id::DefId;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

const INLINE_CRATES: &[&str] = &["core", "alloc", "std", "futures_util", "futures_core", "sync_wrapper"];

fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct X<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<String>,
    tymap: HashMap<Ty<'tcx>, usize>,
    adts: HashMap<String, String>,
    adtq: Vec<DefId>,
    queue: VecDeque<DefId>,
    seen: HashSet<DefId>,
    fns: Vec<(String, String)>,
}

impl<'tcx> X<'tcx> {
    fn key(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn pretty(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn want(&mut self, d: DefId) {
        if self.seen.contains(&d) {
            return;
        }
        if !d.is_local() {
            let c = self.tcx.crate_name(d.krate);
            if !INLINE_CRATES.contains(&c.as_str()) {
                return;
            }
            let p = self.key(d);
            for bad in ["::fmt::", "panicking", "::backtrace", "::sys::", "::io::", "::thread::", "core::num::", "::str::", "::string::", "alloc::raw_vec", "core::slice::", "alloc::vec::", "alloc::collections", "core::hash", "alloc::sync", "alloc::alloc", "core::ptr::", "core::fmt", "core::iter", "core::array", "core::sync", "core::time", "core::alloc", "core::any", "core::char", "core::f64", "core::unicode"] {
                if p.contains(bad) {
                    return;
                }
            }
            if !self.tcx.is_mir_available(d) {
                return;
            }
        }
        self.seen.insert(d);
        self.queue.push_back(d);
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> String {
        let v: Vec<String> = a
            .iter()
            .filter_map(|g| match g.kind() {
                ty::GenericArgKind::Type(t) => Some(self.ty(t).to_string()),
                ty::GenericArgKind::Const(c) => Some(format!("{{\"const\":{}}}", q(&format!("{c:?}")))),
                _ => None,
            })
            .collect();
        format!("[{}]", v.join(","))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.tymap.get(&t) {
            return i;
        }
        let i = self.tys.len();
        self.tys.push(String::new());
        self.tymap.insert(t, i);
        let s = match *t.kind() {
            ty::Bool => "[\"bool\"]".into(),
            ty::Char => "[\"char\"]".into(),
            ty::Int(x) => format!("[\"int\",{},true]", q(x.name_str())),
            ty::Uint(x) => format!("[\"int\",{},false]", q(x.name_str())),
            ty::Float(x) => format!("[\"float\",{}]", q(x.name_str())),
            ty::Adt(d, a) => {
                self.adtq.push(d.did());
                let k = self.key(d.did());
                let a = self.args(a);
                format!("[\"adt\",{},{}]", q(&k), a)
            }
            ty::Str => "[\"str\"]".into(),
            ty::Array(e, n) => {
                let e = self.ty(e);
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"array\",{},{}]", e, n)
            }
            ty::Slice(e) => format!("[\"slice\",{}]", self.ty(e)),
            ty::RawPtr(e, _) => format!("[\"ptr\",{}]", self.ty(e)),
            ty::Ref(_, e, m) => format!("[\"ref\",{},{}]", self.ty(e), m.is_mut()),
            ty::FnDef(d, a) => {
                let k = self.key(d);
                let a = self.args(a.skip_binder());
                format!("[\"fndef\",{},{}]", q(&k), a)
            }
            ty::FnPtr(..) => "[\"fnptr\"]".into(),
            ty::Dynamic(..) => format!("[\"dyn\",{}]", q(&ty::print::with_no_trimmed_paths!(format!("{t}")))),
            ty::Closure(d, _) => {
                self.want(d);
                format!("[\"closure\",{}]", q(&self.key(d)))
            }
            ty::Coroutine(d, _) => {
                self.want(d);
                format!("[\"coroutine\",{}]", q(&self.key(d)))
            }
            ty::Never => "[\"never\"]".into(),
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("[\"tuple\",[{}]]", v.join(","))
            }
            ty::Alias(_, al) => {
                let k = match al.kind {
                    ty::AliasTyKind::Projection { def_id } => self.key(def_id.into()),
                    ty::AliasTyKind::Opaque { def_id } => self.key(def_id.into()),
                    _ => "other".into(),
                };
                let a = self.args(al.args);
                format!("[\"alias\",{},{}]", q(&k), a)
            }
            ty::Param(p) => format!("[\"param\",{},{}]", p.index, q(p.name.as_str())),
            _ => format!("[\"other\",{}]", q(&format!("{t:?}"))),
        };
        self.tys[i] = s;
        i
    }
    fn adt(&mut self, d: DefId) {
        let k = self.key(d);
        if self.adts.contains_key(&k) {
            return;
        }
        self.adts.insert(k.clone(), String::new());
        let def = self.tcx.adt_def(d);
        let mut vs = vec![];
        let discrs: Vec<u128> = if def.is_enum() { def.discriminants(self.tcx).map(|(_, x)| x.val).collect() } else { vec![0] };
        for (i, v) in def.variants().iter().enumerate() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let t = self.ty(t);
                let vis = f.vis.is_public();
                fs.push(format!("[{},{},{}]", q(f.name.as_str()), t, vis));
            }
            vs.push(format!("[{},\"{}\",[{}]]", q(v.name.as_str()), discrs.get(i).copied().unwrap_or(0), fs.join(",")));
        }
        let drop = self.tcx.adt_destructor(d).map(|x| x.did);
        let dk = match drop {
            Some(x) => {
                self.want(x);
                q(&self.key(x))
            }
            None => "null".into(),
        };
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let vis = d.as_local().map(|l| self.tcx.effective_visibilities(()).is_reachable(l)).unwrap_or(true);
        let ng = self.generics(d);
        let s = format!(
            "{{\"kind\":\"{}\",\"crate\":{},\"path\":{},\"vis\":{},\"drop\":{},\"generics\":{},\"variants\":[{}],\"at\":{}}}",
            kind,
            q(self.tcx.crate_name(d.krate).as_str()),
            q(&self.pretty(d)),
            vis,
            dk,
            ng,
            vs.join(","),
            self.span(self.tcx.def_span(d))
        );
        self.adts.insert(k, s);
    }
    fn generics(&self, d: DefId) -> String {
        let g = self.tcx.generics_of(d);
        let mut v = vec![];
        for i in 0..g.count() {
            let p = g.param_at(i, self.tcx);
            if let ty::GenericParamDefKind::Lifetime = p.kind {
                continue;
            }
            v.push(format!("[{},{}]", p.index, q(p.name.as_str())));
        }
        format!("[{}]", v.join(","))
    }
    fn span(&self, s: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let l = sm.lookup_char_pos(s.lo());
        let f = match &l.file.name {
            rustc_span::FileName::Real(r) => r.local_path().map(|p| p.display().to_string()).unwrap_or_else(|| "?".into()),
            _ => "?".into(),
        };
        q(&format!("{}:{}", f, l.line))
    }
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut o = format!("[{}", p.local.as_usize());
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => o.push_str(",\"*\""),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    let _ = write!(o, ",[\"f\",{},{}]", f.as_usize(), t);
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, ",[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(o, ",[\"ci\",{},{}]", offset, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, ",[\"sub\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(_, v) => {
                    let _ = write!(o, ",[\"v\",{}]", v.as_usize());
                }
                _ => o.push_str(",[\"n\"]"),
            }
        }
        o.push(']');
        o
    }
    fn fnref(&mut self, env: TypingEnv<'tcx>, d: DefId, a: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut res = "null".to_string();
        let mut kind = "none";
        let dk = tcx.def_kind(d);
        if let DefKind::Ctor(_, CtorKind::Fn) = dk {
            let adt = tcx.type_of(d).instantiate_identity().skip_norm_wip().fn_sig(tcx).output().skip_binder();
            if let ty::Adt(ad, _) = adt.kind() {
                self.adtq.push(ad.did());
                let vi = ad.variant_index_with_ctor_id(d);
                return format!("{{\"k\":{},\"kind\":\"ctor\",\"adt\":{},\"var\":{}}}", q(&self.key(d)), q(&self.key(ad.did())), vi.as_usize());
            }
        }
        let mut rargs = "[]".to_string();
        let mut rp = "null".to_string();
        if let Ok(Some(i)) = Instance::try_resolve(tcx, env, d, a) {
            rargs = self.args(i.args);
            match i.def {
                InstanceKind::Item(x) => {
                    kind = "item";
                    res = q(&self.key(x));
                    rp = q(&self.pretty(x));
                    self.want(x);
                }
                InstanceKind::Intrinsic(x) => {
                    kind = "intrinsic";
                    rp = q(&self.pretty(x));
                    res = q(&self.key(x));
                }
                InstanceKind::Virtual(..) => kind = "virtual",
                InstanceKind::Shim(s) => {
                    kind = match s {
                        ShimKind::ClosureOnce { .. } => "closure",
                        ShimKind::FnPtr(..) => "fnptr",
                        ShimKind::Clone(..) => "cloneshim",
                        ShimKind::DropGlue(..) => "dropglue",
                        _ => "shim",
                    }
                }
                _ => kind = "otherinst",
            }
        }
        let (tr, im) = match tcx.opt_associated_item(d) {
            Some(ai) => match ai.trait_container(tcx) {
                Some(t) => {
                    if tcx.is_mir_available(d) && kind == "none" {
                        // default body may be needed for dynamic dispatch
                        self.want(d);
                    }
                    (q(&self.key(t)), "null".to_string())
                }
                None => ("null".to_string(), ai.impl_container(tcx).map(|i| q(&self.key(i))).unwrap_or("null".into())),
            },
            None => ("null".into(), "null".into()),
        };
        let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
        let pretty = self.pretty(d);
        let ar = self.args(a);
        format!(
            "{{\"k\":{},\"p\":{},\"n\":{},\"kind\":\"{}\",\"res\":{},\"trait\":{},\"impl\":{},\"args\":{},\"rargs\":{},\"rp\":{}}}",
            q(&self.key(d)),
            q(&pretty),
            q(&name),
            kind,
            res,
            tr,
            im,
            ar,
            rargs,
            rp
        )
    }
    fn constval(&mut self, env: TypingEnv<'tcx>, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        match t.kind() {
            ty::FnDef(d, a) => return format!("[\"fn\",{}]", self.fnref(env, *d, a.skip_binder())),
            ty::Closure(d, _) => {
                let i = self.ty(t);
                return format!("[\"closure\",{},{}]", q(&self.key(*d)), i);
            }
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                if let Some(s) = v.try_to_scalar_int() {
                    let i = self.ty(t);
                    let n = match t.kind() {
                        ty::Int(_) => s.to_int(s.size()).to_string(),
                        _ => s.to_bits(s.size()).to_string(),
                    };
                    return format!("[\"int\",\"{}\",{}]", n, i);
                }
            }
            ty::Float(_) => {
                if let Some(s) = v.try_to_scalar_int() {
                    let f = if s.size().bytes() == 8 { f64::from_bits(s.to_u64()) } else { f32::from_bits(s.to_u32()) as f64 };
                    let i = self.ty(t);
                    return format!("[\"float\",\"{:?}\",{}]", f, i);
                }
            }
            ty::Ref(_, inner, _) if inner.is_str() => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    return format!("[\"str\",{}]", q(&String::from_utf8_lossy(b)));
                }
            }
            ty::Tuple(ts) if ts.is_empty() => return "[\"unit\"]".into(),
            ty::Adt(..) | ty::Tuple(..) if depth < 4 => {
                let has_params = rustc_middle::ty::TypeVisitableExt::has_param(&t);
                if !has_params {
                    if let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                        let vi = dc.variant.map(|v| v.as_usize()).unwrap_or(0);
                        let fs: Vec<String> = dc.fields.iter().map(|(fv, ft)| self.constval(env, *fv, *ft, depth + 1)).collect();
                        let i = self.ty(t);
                        return format!("[\"adt\",{},{},[{}]]", i, vi, fs.join(","));
                    }
                }
            }
            _ => {}
        }
        if let ConstValue::ZeroSized = v {
            return format!("[\"zst\",{}]", self.ty(t));
        }
        let s = ty::print::with_no_trimmed_paths!(format!("{:?}", v));
        format!("[\"opaque\",{},{}]", q(&s), self.ty(t))
    }
    fn operand(&mut self, env: TypingEnv<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::RuntimeChecks(_) => "[\"k\",[\"rtcheck\"]]".into(),
            Operand::Constant(c) => {
                let s = self.cst(env, c.const_, c.span);
                format!("[\"k\",{}]", s)
            }
        }
    }
    fn cst(&mut self, env: TypingEnv<'tcx>, c: Const<'tcx>, span: Span) -> String {
        let t = c.ty();
        if let ty::FnDef(d, a) = t.kind() {
            return format!("[\"fn\",{}]", self.fnref(env, *d, a.skip_binder()));
        }
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                let k = self.key(u.def);
                self.want(u.def);
                return format!("[\"promoted\",{},{}]", q(&k), p.as_usize());
            }
            let i = self.ty(t);
            let name = self.pretty(u.def);
            if let Ok(v) = c.eval(self.tcx, env, span) {
                let s = self.constval(env, v, t, 0);
                if !s.starts_with("[\"opaque\"") && !s.starts_with("[\"zst\"") {
                    return s;
                }
            }
            let args = self.args(u.args);
            return format!("[\"named\",{},{},{}]", q(&name), i, args);
        }
        match c.eval(self.tcx, env, span) {
            Ok(v) => self.constval(env, v, t, 0),
            Err(_) => {
                let i = self.ty(t);
                format!("[\"opaque\",{},{}]", q(&format!("{c:?}")), i)
            }
        }
    }
    fn rvalue(&mut self, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(env, o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.operand(env, o), n)
            }
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", self.place(p), m)
            }
            Rvalue::RawPtr(k, p) => {
                let m = matches!(k, RawPtrKind::Mut);
                format!("[\"ref\",{},{}]", self.place(p), m)
            }
            Rvalue::Cast(k, o, t) => {
                let k = format!("{k:?}");
                let o = self.operand(env, o);
                let t = self.ty(*t);
                format!("[\"cast\",{},{},{}]", q(&k), o, t)
            }
            Rvalue::BinaryOp(b, bx) => {
                let a = self.operand(env, &bx.0);
                let c = self.operand(env, &bx.1);
                format!("[\"bin\",\"{:?}\",{},{}]", b, a, c)
            }
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.operand(env, o)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(env, o)).collect();
                let ks = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        self.adtq.push(*d);
                        format!("[\"adt\",{},{}]", q(&self.key(*d)), v.as_usize())
                    }
                    AggregateKind::Closure(d, _) => {
                        self.want(*d);
                        format!("[\"closure\",{}]", q(&self.key(*d)))
                    }
                    AggregateKind::Coroutine(d, _) => {
                        self.want(*d);
                        format!("[\"coroutine\",{}]", q(&self.key(*d)))
                    }
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},[{}]]", ks, os.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            _ => format!("[\"unk\",{}]", q(&format!("{r:?}"))),
        }
    }
    fn body(&mut self, env: TypingEnv<'tcx>, b: &Body<'tcx>) -> String {
        let locals: Vec<String> = b.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut bbs = vec![];
        for bb in b.basic_blocks.iter() {
            if bb.is_cleanup {
                bbs.push("null".to_string());
                continue;
            }
            let mut ss = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(x) => {
                        let p = self.place(&x.0);
                        let r = self.rvalue(env, &x.1);
                        ss.push(format!("[\"=\",{},{}]", p, r));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        ss.push(format!("[\"sd\",{},{}]", p, variant_index.as_usize()));
                    }
                    StatementKind::StorageDead(l) => ss.push(format!("[\"x\",{}]", l.as_usize())),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.operand(env, discr);
                    let tv: Vec<String> = targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_usize())).collect();
                    format!("[\"switch\",{},[{}],{},{}]", o, tv.join(","), targets.otherwise().as_usize(), sp)
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(place);
                    format!("[\"drop\",{},{},{}]", p, target.as_usize(), sp)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(env, func);
                    let a: Vec<String> = args.iter().map(|a| self.operand(env, &a.node)).collect();
                    let d = self.place(destination);
                    let tg = target.map(|t| t.as_usize().to_string()).unwrap_or("null".into());
                    format!("[\"call\",{},[{}],{},{},{}]", f, a.join(","), d, tg, sp)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(env, cond);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) | AssertKind::OverflowNeg(..) => "overflow",
                        AssertKind::DivisionByZero(..) | AssertKind::RemainderByZero(..) => "divzero",
                        AssertKind::ResumedAfterReturn(..) | AssertKind::ResumedAfterPanic(..) => "resumed",
                        _ => "other",
                    };
                    format!("[\"assert\",{},{},\"{}\",{},{}]", c, expected, m, target.as_usize(), sp)
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                k => format!("[\"other\",{}]", q(&format!("{k:?}"))),
            };
            bbs.push(format!("[[{}],{}]", ss.join(","), ts));
        }
        let sa = b.spread_arg.map(|l| l.as_usize().to_string()).unwrap_or("null".into());
        format!("\"argc\":{},\"spread\":{},\"locals\":[{}],\"blocks\":[{}]", b.arg_count, sa, locals.join(","), bbs.join(","))
    }
    fn dump(&mut self, d: DefId) {
        let tcx = self.tcx;
        let dk = tcx.def_kind(d);
        let key = self.key(d);
        if !matches!(dk, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            return;
        }
        if tcx.is_constructor(d) {
            return;
        }
        let env = TypingEnv::post_analysis(tcx, tcx.typeck_root_def_id(d));
        let b = tcx.optimized_mir(d);
        let body = self.body(env, b);
        let proms: Vec<String> = tcx.promoted_mir(d).iter().map(|p| format!("{{{}}}", self.body(env, p))).collect();
        let vis = d.as_local().map(|l| tcx.effective_visibilities(()).is_reachable(l)).unwrap_or(true);
        let (im, tr, name) = match tcx.opt_associated_item(d) {
            Some(ai) => (
                ai.impl_container(tcx).or(ai.trait_container(tcx)).map(|i| q(&self.key(i))).unwrap_or("null".into()),
                ai.trait_container(tcx)
                    .or_else(|| ai.impl_container(tcx).and_then(|i| tcx.impl_opt_trait_ref(i)).map(|t| t.skip_binder().def_id))
                    .map(|i| q(&self.key(i)))
                    .unwrap_or("null".into()),
                ai.name().to_string(),
            ),
            None => ("null".into(), "null".into(), tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default()),
        };
        let ck = if let DefKind::Closure = dk {
            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            match t.kind() {
                ty::Closure(_, a) => q(&format!("{:?}", a.as_closure().kind())),
                ty::Coroutine(..) => q("coroutine"),
                _ => q("other"),
            }
        } else {
            "null".into()
        };
        let sp = self.span(tcx.def_span(d));
        let g = self.generics(d);
        let is_unsafe = if matches!(dk, DefKind::Fn | DefKind::AssocFn) { !tcx.fn_sig(d).skip_binder().safety().is_safe() } else { false };
        let s = format!(
            "{{\"crate\":{},\"path\":{},\"name\":{},\"vis\":{},\"unsafe\":{},\"impl\":{},\"trait\":{},\"closure\":{},\"generics\":{},\"at\":{},\"promoted\":[{}],{}}}",
            q(tcx.crate_name(d.krate).as_str()),
            q(&self.pretty(d)),
            q(&name),
            vis,
            is_unsafe,
            im,
            tr,
            ck,
            g,
            sp,
            proms.join(","),
            body
        );
        self.fns.push((key, s));
    }
    fn impls(&mut self) -> String {
        let tcx = self.tcx;
        let mut out = vec![];
        let mut local: Vec<DefId> = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            if let DefKind::Impl { .. } = tcx.def_kind(id) {
                local.push(id.to_def_id());
            }
        }
        for i in local {
            let st = tcx.type_of(i).instantiate_identity().skip_norm_wip();
            let sty = self.ty(st);
            let (tr, targs, neg) = match tcx.impl_opt_trait_ref(i) {
                Some(t) => {
                    let t = t.instantiate_identity().skip_norm_wip();
                    (q(&self.key(t.def_id)), self.args(t.args), tcx.impl_polarity(i) == ty::ImplPolarity::Negative)
                }
                None => ("null".into(), "[]".into(), false),
            };
            let mut ms = vec![];
            let mut tys = vec![];
            for ai in tcx.associated_items(i).in_definition_order() {
                match ai.kind {
                    ty::AssocKind::Fn { .. } => ms.push(format!("{}:{}", q(ai.name().as_str()), q(&self.key(ai.def_id)))),
                    ty::AssocKind::Type { .. } => {
                        let t = tcx.type_of(ai.def_id).instantiate_identity().skip_norm_wip();
                        let t = self.ty(t);
                        tys.push(format!("{}:{}", q(ai.name().as_str()), t));
                    }
                    _ => {}
                }
            }
            let preds: Vec<String> = tcx
                .clauses_of(i)
                .instantiate_identity(tcx)
                .clauses
                .into_iter()
                .map(|p| q(&ty::print::with_no_trimmed_paths!(format!("{:?}", p.skip_norm_wip()))))
                .collect();
            let derived = tcx.is_automatically_derived(i);
            let un = match tcx.def_kind(i) {
                DefKind::Impl { of_trait: true } => !tcx.impl_trait_header(i).safety.is_safe(),
                _ => false,
            };
            out.push(format!(
                "{{\"k\":{},\"trait\":{},\"targs\":{},\"self\":{},\"neg\":{},\"unsafe\":{},\"derived\":{},\"preds\":[{}],\"generics\":{},\"methods\":{{{}}},\"types\":{{{}}},\"at\":{}}}",
                q(&self.key(i)),
                tr,
                targs,
                sty,
                neg,
                un,
                derived,
                preds.join(","),
                self.generics(i),
                ms.join(","),
                tys.join(","),
                self.span(tcx.def_span(i))
            ));
        }
        out.join(",\n")
    }
    fn traits(&mut self) -> String {
        let tcx = self.tcx;
        let mut out = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            if let DefKind::Trait = tcx.def_kind(id) {
                let mut ms = vec![];
                for ai in tcx.associated_items(id.to_def_id()).in_definition_order() {
                    if let ty::AssocKind::Fn { .. } = ai.kind {
                        let hb = tcx.is_mir_available(ai.def_id);
                        ms.push(format!("{}:[{},{}]", q(ai.name().as_str()), q(&self.key(ai.def_id)), hb));
                    }
                }
                out.push(format!("{}:{{{}}}", q(&self.key(id.to_def_id())), ms.join(",")));
            }
        }
        out.join(",\n")
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let out = match std::env::var("MIRX_OUT") {
            Ok(o) => o,
            Err(_) => return Compilation::Continue,
        };
        let want = std::env::var("MIRX_CRATES").unwrap_or_default();
        if !want.split(',').any(|c| c == name) {
            return Compilation::Continue;
        }
        let mut x = X {
            tcx,
            tys: vec![],
            tymap: HashMap::new(),
            adts: HashMap::new(),
            adtq: vec![],
            queue: VecDeque::new(),
            seen: HashSet::new(),
            fns: vec![],
        };
        for l in tcx.mir_keys(()) {
            let d = l.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) && tcx.is_mir_available(d) {
                x.want(d);
            }
        }
        while let Some(d) = x.queue.pop_front() {
            x.dump(d);
        }
        let impls = x.impls();
        let traits = x.traits();
        // all local ADTs
        for id in tcx.hir_crate_items(()).definitions() {
            if let DefKind::Struct | DefKind::Enum = tcx.def_kind(id) {
                x.adtq.push(id.to_def_id());
            }
        }
        loop {
            while let Some(d) = x.adtq.pop() {
                x.adt(d);
            }
            while let Some(d) = x.queue.pop_front() {
                x.dump(d);
            }
            if x.adtq.is_empty() && x.queue.is_empty() {
                break;
            }
        }
        let fns: Vec<String> = x.fns.iter().map(|(k, v)| format!("{}:{}", q(k), v)).collect();
        let adts: Vec<String> = x.adts.iter().map(|(k, v)| format!("{}:{}", q(k), v)).collect();
        let s = format!(
            "{{\"crate\":{},\n\"types\":[{}],\n\"adts\":{{{}}},\n\"impls\":[{}],\n\"traits\":{{{}}},\n\"fns\":{{{}}}}}\n",
            q(&name),
            x.tys.join(",\n"),
            adts.join(",\n"),
            impls,
            traits,
            fns.join(",\n")
        );
        let tmp = format!("{out}/{name}.json.tmp{}", std::process::id());
        std::fs::write(&tmp, s).expect("write");
        std::fs::rename(&tmp, format!("{out}/{name}.json")).expect("rename");
        Compilation::Continue
    }
}

fn main() {
    // Invoked by cargo as `mirx <rustc> args...` (RUSTC_WORKSPACE_WRAPPER).
    let args: Vec<String> = std::env::args().skip(1).collect();
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
