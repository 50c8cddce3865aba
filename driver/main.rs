// rustc driver: dumps, as JSON, the MIR reachable from a set of root functions,
// resolved in each root's own (generic) parameter environment, plus an item
// inventory of the crate.  See /verif/DESIGN.md.
//
//   VX_OUT=<file>     where to write the JSON
//   VX_ALLOW=<file>   prefixes of non-local functions whose bodies are dumped too
//   VX_MODE=roots     roots are the local functions named w_* (witness crate)
//   VX_MODE=items     roots are all local functions; adds the item inventory
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, EarlyBinder, GenericArgs, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use rustc_trait_selection::infer::InferCtxtExt;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}
macro_rules! names {
    ($e:expr) => {
        with_no_visible_paths!(with_resolve_crate_name!(with_no_trimmed_paths!($e)))
    };
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    types: Vec<String>,
    tymap: HashMap<Ty<'tcx>, usize>,
    queue: VecDeque<(String, Instance<'tcx>, Option<Promoted>)>,
    seen: HashSet<String>,
    fns: Vec<(String, String)>,
    allow: Vec<String>,
    root: String,
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        names!(self.tcx.def_path_str(d))
    }
    fn span(&self, s: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        esc(&format!("{}:{}", f, lo.line))
    }
    fn norm<T: ty::TypeFoldable<TyCtxt<'tcx>> + Clone>(&self, args: GenericArgsRef<'tcx>, v: T) -> T {
        self.tcx
            .try_instantiate_and_normalize_erasing_regions(args, self.env, EarlyBinder::bind(self.tcx, v.clone()))
            .unwrap_or_else(|_| EarlyBinder::bind(self.tcx, v).instantiate(self.tcx, args).skip_norm_wip())
    }
    fn konst(&mut self, c: ty::Const<'tcx>) -> String {
        match c.kind() {
            ty::ConstKind::Param(p) => format!("{{\"param\":{}}}", esc(p.name.as_str())),
            ty::ConstKind::Value(v) => {
                if let Some(l) = v.try_to_leaf() {
                    format!("{{\"int\":{}}}", esc(&format!("{}", l.to_bits_unchecked())))
                } else {
                    format!("{{\"unk\":{}}}", esc(&format!("{:?}", c)))
                }
            }
            _ => format!("{{\"unk\":{}}}", esc(&format!("{:?}", c))),
        }
    }
    fn gargs(&mut self, args: GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for a in args.iter() {
            match a.kind() {
                ty::GenericArgKind::Type(t) => v.push(format!("{{\"t\":{}}}", self.ty(t))),
                ty::GenericArgKind::Const(c) => {
                    let s = self.konst(c);
                    v.push(format!("{{\"c\":{}}}", s))
                }
                ty::GenericArgKind::Lifetime(_) => {}
                #[allow(unreachable_patterns)]
                _ => {}
            }
        }
        arr(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let id = self.types.len();
        self.types.push(String::new());
        self.tymap.insert(t, id);
        let name = names!(format!("{}", t));
        let body = match t.kind() {
            ty::Bool => "\"k\":\"bool\"".into(),
            ty::Char => "\"k\":\"char\"".into(),
            ty::Int(_) => "\"k\":\"int\"".into(),
            ty::Uint(_) => "\"k\":\"uint\"".into(),
            ty::Float(_) => "\"k\":\"float\"".into(),
            ty::Str => "\"k\":\"str\"".into(),
            ty::Never => "\"k\":\"never\"".into(),
            ty::Param(p) => format!("\"k\":\"param\",\"p\":{}", esc(p.name.as_str())),
            ty::Array(e, n) => {
                let e = self.ty(*e);
                let n = self.konst(*n);
                format!("\"k\":\"array\",\"e\":{},\"n\":{}", e, n)
            }
            ty::Slice(e) => format!("\"k\":\"slice\",\"e\":{}", self.ty(*e)),
            ty::RawPtr(e, m) => format!("\"k\":\"ptr\",\"e\":{},\"m\":{}", self.ty(*e), m.is_mut() as u8),
            ty::Ref(_, e, m) => format!("\"k\":\"ref\",\"e\":{},\"m\":{}", self.ty(*e), m.is_mut() as u8),
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"tuple\",\"f\":{}", arr(v))
            }
            ty::Adt(def, args) => {
                let p = self.path(def.did());
                let ga = self.gargs(args);
                let mut vs = vec![];
                let show = def.did().is_local()
                    || self.tcx.crate_name(def.did().krate).as_str() == "magnesia"
                    || p.starts_with("core::option")
                    || p.starts_with("core::result")
                    || p.starts_with("core::cmp")
                    || p.starts_with("core::ops::range")
                    || p.starts_with("core::range")
                    || p.starts_with("core::ops::control_flow");
                if show {
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(self.tcx, args).skip_norm_wip();
                            let ft = self
                                .tcx
                                .try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(ft))
                                .unwrap_or(ft);
                            fs.push(format!("[{},{}]", esc(f.name.as_str()), self.ty(ft)));
                        }
                        let d = if def.is_enum() {
                            format!("{}", def.discriminant_for_variant(self.tcx, vi).val)
                        } else {
                            "0".into()
                        };
                        vs.push(format!("[{},{},{}]", esc(v.name.as_str()), esc(&d), arr(fs)));
                    }
                }
                format!(
                    "\"k\":\"adt\",\"p\":{},\"a\":{},\"enum\":{},\"local\":{},\"v\":{}",
                    esc(&p),
                    ga,
                    def.is_enum() as u8,
                    (self.tcx.crate_name(def.did().krate).as_str() == "magnesia" || def.did().is_local()) as u8,
                    arr(vs)
                )
            }
            ty::Closure(did, args) => {
                let inst = Instance::new_raw(*did, args);
                let key = self.enqueue(inst);
                let ups: Vec<String> =
                    args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                let kind = format!("{:?}", args.as_closure().kind());
                format!("\"k\":\"closure\",\"key\":{},\"f\":{},\"ck\":{}", esc(&key), arr(ups), esc(&kind))
            }
            ty::FnDef(did, args) => {
                let args = args.skip_binder();
                let c = self.callee(*did, args);
                format!("\"k\":\"fndef\",\"c\":{}", c)
            }
            ty::FnPtr(..) => "\"k\":\"fnptr\"".into(),
            ty::Dynamic(..) => "\"k\":\"dyn\"".into(),
            ty::Alias(_, al) => {
                let ga = self.gargs(al.args);
                format!("\"k\":\"alias\",\"a\":{}", ga)
            }
            _ => "\"k\":\"other\"".into(),
        };
        self.types[id] = format!("{{{},\"s\":{}}}", body, esc(&name));
        id
    }
    fn key(&self, i: &Instance<'tcx>, p: Option<Promoted>) -> String {
        let base = names!(format!("{}", self.tcx.def_path_str_with_args(i.def_id(), i.args)));
        // closures of different instances print alike: add the closure's own number
        let base = format!("{}|{:?}|{}", base, i.def_id(), names!(format!("{:?}", i.args)));
        let base = format!("{}#{}", self.root, base);
        match p {
            Some(p) => format!("{}|promoted{}", base, p.as_usize()),
            None => base,
        }
    }
    fn enqueue(&mut self, i: Instance<'tcx>) -> String {
        let k = self.key(&i, None);
        if self.seen.insert(k.clone()) {
            self.queue.push_back((k.clone(), i, None));
        }
        k
    }
    fn allowed(&self, p: &str) -> bool {
        self.allow.iter().any(|a| p.starts_with(a.as_str()))
    }
    /// methods of crate types that an external function may call through its bounds
    fn imps(&mut self, did: DefId, args: GenericArgsRef<'tcx>) -> Vec<String> {
        let mut out = vec![];
        let preds = self.tcx.clauses_of(did).instantiate(self.tcx, args);
        for c in preds.clauses {
            let Ok(c) = self.tcx.try_normalize_erasing_regions(self.env, c) else { continue };
            let Some(tp) = c.as_trait_clause() else { continue };
            let Some(tp) = tp.no_bound_vars() else { continue };
            let tr = tp.trait_ref;
            let mut t = tr.self_ty();
            while let ty::Ref(_, u, _) = t.kind() {
                t = *u;
            }
            if self.path(tr.def_id) == "core::cmp::PartialEq" {
                self.nested_eq(tr.self_ty(), tr.def_id, &mut out);
            }
            let ty::Adt(ad, _) = t.kind() else { continue };
            let d = ad.did();
            if !(d.is_local() || self.tcx.crate_name(d.krate).as_str() == "magnesia") {
                continue;
            }
            let ms: Vec<DefId> = self.tcx.associated_items(tr.def_id).in_definition_order().filter(|i| i.is_fn()).map(|i| i.def_id).collect();
            for m in ms {
                if self.tcx.generics_of(m).own_counts().types > 0 {
                    continue;
                }
                let margs = ty::GenericArgs::for_item(self.tcx, m, |p, _| {
                    if (p.index as usize) < tr.args.len() {
                        tr.args[p.index as usize]
                    } else {
                        self.tcx.lifetimes.re_erased.into()
                    }
                });
                if let Ok(Some(inst)) = Instance::try_resolve(self.tcx, self.env, m, margs) {
                    if let InstanceKind::Item(d) = inst.def {
                        let local = d.is_local() || self.tcx.crate_name(d.krate).as_str() == "magnesia";
                        if local && self.tcx.is_mir_available(d) {
                            let k = self.enqueue(inst);
                            let st = self.ty(tr.self_ty());
                            let p = self.path(m);
                            out.push(format!("{{\"m\":{},\"key\":{},\"st\":{}}}", esc(&p), esc(&k), st));
                        }
                    }
                }
            }
        }
        out
    }
    /// the crate's own equality of types inside references and containers
    fn nested_eq(&mut self, t: Ty<'tcx>, trait_: DefId, out: &mut Vec<String>) {
        for g in t.walk() {
            let Some(u) = g.as_type() else { continue };
            let ty::Adt(ad, _) = u.kind() else { continue };
            let d = ad.did();
            if !(d.is_local() || self.tcx.crate_name(d.krate).as_str() == "magnesia") {
                continue;
            }
            let ms: Vec<DefId> = self.tcx.associated_items(trait_).in_definition_order().filter(|i| i.is_fn()).map(|i| i.def_id).collect();
            for m in ms {
                if self.tcx.item_name(m).as_str() != "eq" {
                    continue;
                }
                let margs = ty::GenericArgs::for_item(self.tcx, m, |p, _| match p.kind {
                    ty::GenericParamDefKind::Lifetime => self.tcx.lifetimes.re_erased.into(),
                    _ => u.into(),
                });
                if let Ok(Some(inst)) = Instance::try_resolve(self.tcx, self.env, m, margs) {
                    if let InstanceKind::Item(d) = inst.def {
                        let local = d.is_local() || self.tcx.crate_name(d.krate).as_str() == "magnesia";
                        if local && self.tcx.is_mir_available(d) {
                            let k = self.enqueue(inst);
                            let st = self.ty(u);
                            let p = self.path(m);
                            out.push(format!("{{\"m\":{},\"key\":{},\"st\":{},\"eq\":1}}", esc(&p), esc(&k), st));
                        }
                    }
                }
            }
        }
    }
    fn callee(&mut self, did: DefId, args: GenericArgsRef<'tcx>) -> String {
        let p = self.path(did);
        let ga = self.gargs(args);
        let tr = self.tcx.trait_of_assoc(did);
        let mut s = format!("{{\"p\":{},\"a\":{}", esc(&p), ga);
        if let Some(t) = tr {
            let _ = write!(s, ",\"tr\":{}", esc(&self.path(t)));
        }
        let name = self.tcx.opt_item_name(did).map(|x| x.to_string()).unwrap_or_default();
        let _ = write!(s, ",\"n\":{}", esc(&name));
        let fnfam = match tr {
            Some(t) => {
                let t = self.path(t);
                (t.starts_with("core::ops::function::") || t.starts_with("core::ops::async_function"))
                    && !matches!(args.type_at(0).kind(), ty::Param(_))
            }
            None => false,
        };
        if self.tcx.is_intrinsic(did, rustc_span::Symbol::intern("x")) {
            s.push_str(",\"intr\":1");
        }
        if let Some(imp) = self.tcx.impl_of_assoc(did) {
            let st = self.norm(args, self.tcx.type_of(imp).instantiate_identity().skip_norm_wip());
            let _ = write!(s, ",\"st\":{}", self.ty(st));
        }
        if fnfam {
            s.push_str(",\"k\":\"fncall\"}");
            return s;
        }
        if matches!(self.tcx.def_kind(did), DefKind::Ctor(..)) {
            let par = self.tcx.parent(did);
            let adt = if self.tcx.def_kind(par) == DefKind::Variant { self.tcx.parent(par) } else { par };
            let out = self.tcx.type_of(adt).instantiate(self.tcx, args).skip_norm_wip();
            let vi = match self.tcx.type_of(adt).instantiate_identity().skip_norm_wip().kind() {
                ty::Adt(d, _) => {
                    d.variants().iter_enumerated().find(|(_, v)| v.ctor_def_id() == Some(did)).map(|(i, _)| i.as_usize()).unwrap_or(0)
                }
                _ => 0,
            };
            let t = self.ty(out);
            let _ = write!(s, ",\"k\":\"ctor\",\"ty\":{},\"vi\":{}}}", t, vi);
            return s;
        }
        let r = Instance::try_resolve(self.tcx, self.env, did, args);
        match r {
            Ok(Some(inst)) => {
                let rp = self.path(inst.def_id());
                let _ = write!(s, ",\"rp\":{}", esc(&rp));
                match inst.def {
                    InstanceKind::Item(d) => {
                        let local = d.is_local() || self.tcx.crate_name(d.krate).as_str() == "magnesia";
                        if (local || self.allowed(&rp)) && self.tcx.is_mir_available(d) {
                            let k = self.enqueue(inst);
                            let _ = write!(s, ",\"k\":\"inst\",\"key\":{}", esc(&k));
                            let _ = write!(s, ",\"ra\":{}", self.gargs(inst.args));
                            if let Some(imp) = self.tcx.impl_of_assoc(d) {
                                let st = self.norm(inst.args, self.tcx.type_of(imp).instantiate_identity().skip_norm_wip());
                                let _ = write!(s, ",\"rst\":{}", self.ty(st));
                            }
                        } else {
                            let imps = self.imps(did, args);
                            if !imps.is_empty() {
                                let _ = write!(s, ",\"imp\":{}", arr(imps));
                            }
                            let _ = write!(s, ",\"k\":\"ext\",\"local\":{}", local as u8);
                            if tr.is_some() {
                                let _ = write!(s, ",\"ra\":{}", self.gargs(inst.args));
                            }
                        }
                    }
                    InstanceKind::Intrinsic(_) => s.push_str(",\"k\":\"intrinsic\""),
                    InstanceKind::Virtual(..) => s.push_str(",\"k\":\"virtual\""),
                    other => {
                        let _ = write!(s, ",\"k\":\"shim\",\"shim\":{}", esc(&format!("{:?}", other).chars().take(60).collect::<String>()));
                    }
                }
            }
            _ => s.push_str(",\"k\":\"trait\""),
        }
        s.push('}');
        s
    }
    fn place(&mut self, p: &Place<'tcx>, args: GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"D\"]".to_string(),
                ProjectionElem::Field(f, t) => {
                    let t = self.norm(args, t);
                    format!("[\"F\",{},{}]", f.as_usize(), self.ty(t))
                }
                ProjectionElem::Index(l) => format!("[\"I\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"C\",{},{},{}]", offset, min_length, from_end as u8)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"S\",{},{},{}]", from, to, from_end as u8)
                }
                ProjectionElem::Downcast(_, v) => format!("[\"V\",{}]", v.as_usize()),
                _ => "[\"X\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local.as_usize(), arr(v))
    }
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tid = self.ty(t);
        match v {
            ConstValue::ZeroSized => format!("{{\"ty\":{},\"zst\":1}}", tid),
            ConstValue::Scalar(mir::interpret::Scalar::Int(i)) => {
                if t.is_adt() || matches!(t.kind(), ty::Tuple(_) | ty::Array(..)) {
                    return self.cdestr(v, t, depth);
                }
                format!("{{\"ty\":{},\"bits\":{},\"size\":{}}}", tid, esc(&format!("{}", i.to_bits_unchecked())), i.size().bytes())
            }
            ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => {
                let (prov, _off) = p.prov_and_relative_offset();
                match self.tcx.try_get_global_alloc(prov.alloc_id()) {
                    Some(mir::interpret::GlobalAlloc::Static(d)) => {
                        format!("{{\"ty\":{},\"static\":{}}}", tid, esc(&self.path(d)))
                    }
                    Some(mir::interpret::GlobalAlloc::Memory(_)) => {
                        if let ty::Ref(_, inner, _) = t.kind() {
                            if depth < 4 && !matches!(inner.kind(), ty::Slice(_) | ty::Str | ty::Dynamic(..)) {
                                let (prov, off) = p.prov_and_relative_offset();
                                let cv = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off };
                                let s = self.cdestr(cv, *inner, depth + 1);
                                return format!("{{\"ty\":{},\"ref\":{}}}", tid, s);
                            }
                        }
                        format!("{{\"ty\":{},\"unk\":\"ptr\"}}", tid)
                    }
                    _ => format!("{{\"ty\":{},\"unk\":\"ptr\"}}", tid),
                }
            }
            ConstValue::Slice { .. } => {
                let s = v.try_get_slice_bytes_for_diagnostics(self.tcx).map(|b| String::from_utf8_lossy(b).to_string());
                format!("{{\"ty\":{},\"str\":{}}}", tid, esc(&s.unwrap_or_default()))
            }
            ConstValue::Indirect { .. } => self.cdestr(v, t, depth),
        }
    }
    fn cdestr(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tid = self.ty(t);
        if depth > 6 {
            return format!("{{\"ty\":{},\"unk\":\"deep\"}}", tid);
        }
        // scalars behind a reference
        if matches!(t.kind(), ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Bool | ty::Char | ty::Ref(..)) {
            if let ConstValue::Indirect { alloc_id, offset } = v {
                if let Some(mir::interpret::GlobalAlloc::Memory(a)) = self.tcx.try_get_global_alloc(alloc_id) {
                    let sz = self.tcx.layout_of(self.env.as_query_input(t)).map(|l| l.size);
                    if let Ok(sz) = sz {
                        if !matches!(t.kind(), ty::Ref(..)) {
                            let r = a.inner().read_scalar(&self.tcx, mir::interpret::alloc_range(offset, sz), false);
                            if let Ok(mir::interpret::Scalar::Int(i)) = r {
                                return format!("{{\"ty\":{},\"bits\":{},\"size\":{}}}", tid, esc(&format!("{}", i.to_bits_unchecked())), i.size().bytes());
                            }
                        }
                    }
                }
            }
            return format!("{{\"ty\":{},\"unk\":\"indirect\"}}", tid);
        }
        let ok = match t.kind() {
            ty::Tuple(_) | ty::Array(..) => true,
            ty::Adt(d, _) => d.is_struct() || d.is_enum(),
            _ => false,
        };
        if ok {
            if let Some(d) = self.tcx.try_destructure_mir_constant_for_user_output(v, t) {
                let mut fs = vec![];
                for (fv, ft) in d.fields.iter() {
                    fs.push(self.cval(*fv, *ft, depth + 1));
                }
                return format!(
                    "{{\"ty\":{},\"agg\":{},\"vi\":{}}}",
                    tid,
                    arr(fs),
                    d.variant.map(|v| v.as_usize()).unwrap_or(0)
                );
            }
        }
        format!("{{\"ty\":{},\"unk\":\"const\"}}", tid)
    }
    fn const_op(&mut self, c: &ConstOperand<'tcx>, inst: &Instance<'tcx>, args: GenericArgsRef<'tcx>) -> String {
        let k = self.norm(args, c.const_);
        let t = k.ty();
        let tid = self.ty(t);
        if let ty::FnDef(..) = t.kind() {
            return format!("{{\"ty\":{},\"zst\":1}}", tid);
        }
        if let mir::Const::Unevaluated(u, _) = k {
            if let Some(p) = u.promoted {
                let i2 = Instance { def: inst.def, args: inst.args };
                // promoteds of an inlined std body belong to another item
                let i2 = if u.def == inst.def_id() { i2 } else { Instance::new_raw(u.def, u.args) };
                let key = self.key(&i2, Some(p));
                if self.seen.insert(key.clone()) {
                    self.queue.push_back((key.clone(), i2, Some(p)));
                }
                return format!("{{\"ty\":{},\"promoted\":{}}}", tid, esc(&key));
            }
        }
        if let mir::Const::Ty(_, ct) = k {
            if let ty::ConstKind::Param(p) = ct.kind() {
                return format!("{{\"ty\":{},\"param\":{}}}", tid, esc(p.name.as_str()));
            }
        }
        // do not evaluate generic constants
        let generic = {
            use rustc_middle::ty::TypeVisitableExt;
            k.has_param()
        };
        if !generic {
            if let Ok(v) = k.eval(self.tcx, self.env, c.span) {
                return self.cval(v, t, 0);
            }
        }
        if let mir::Const::Unevaluated(u, _) = k {
            if let Ok(Some(i2)) = Instance::try_resolve(self.tcx, self.env, u.def, u.args) {
                let d = i2.def_id();
                let local = d.is_local() || self.tcx.crate_name(d.krate).as_str() == "magnesia";
                if local && matches!(i2.def, InstanceKind::Item(_)) && self.tcx.is_mir_available(d) {
                    let key = self.enqueue(i2);
                    return format!("{{\"ty\":{},\"body\":{}}}", tid, esc(&key));
                }
            }
            let ga = self.gargs(u.args);
            return format!("{{\"ty\":{},\"uneval\":{},\"a\":{}}}", tid, esc(&self.path(u.def)), ga);
        }
        format!("{{\"ty\":{},\"unk\":{}}}", tid, esc(&format!("{:?}", k)))
    }
    fn op(&mut self, o: &Operand<'tcx>, inst: &Instance<'tcx>, args: GenericArgsRef<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p, args)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p, args)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.const_op(c, inst, args)),
            Operand::RuntimeChecks(_) => "[\"rc\"]".into(),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, inst: &Instance<'tcx>, args: GenericArgsRef<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.op(o, inst, args)),
            Rvalue::Repeat(o, n) => {
                let n = self.norm(args, *n);
                let n = self.konst(n);
                format!("[\"rep\",{},{}]", self.op(o, inst, args), n)
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. }) as u8;
                format!("[\"ref\",{},{}]", m, self.place(p, args))
            }
            Rvalue::RawPtr(_, p) => format!("[\"raw\",{}]", self.place(p, args)),
            Rvalue::Cast(k, o, t) => {
                let t = self.norm(args, *t);
                let ks = format!("{:?}", k);
                format!("[\"cast\",{},{},{}]", esc(&ks), self.op(o, inst, args), self.ty(t))
            }
            Rvalue::BinaryOp(b, ab) => {
                format!("[\"bin\",{},{},{}]", esc(&format!("{:?}", b)), self.op(&ab.0, inst, args), self.op(&ab.1, inst, args))
            }
            Rvalue::UnaryOp(u, o) => format!("[\"un\",{},{}]", esc(&format!("{:?}", u)), self.op(o, inst, args)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p, args)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p, args)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", m.is_mut() as u8, self.place(p, args)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.op(o, inst, args)).collect();
                let os = arr(os);
                match &**k {
                    AggregateKind::Array(_) => format!("[\"agg\",\"array\",{}]", os),
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",{}]", os),
                    AggregateKind::Adt(d, v, a, _, _) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, a).skip_norm_wip();
                        let t = self.norm(args, t);
                        format!("[\"agg\",\"adt\",{},{},{}]", os, self.ty(t), v.as_usize())
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(self.tcx, *d, a);
                        let t = self.norm(args, t);
                        format!("[\"agg\",\"closure\",{},{}]", os, self.ty(t))
                    }
                    AggregateKind::RawPtr(..) => format!("[\"agg\",\"rawptr\",{}]", os),
                    _ => "[\"unk\",\"agg\"]".into(),
                }
            }
            other => format!("[\"unk\",{}]", esc(&format!("{:?}", other))),
        }
    }
    fn body(&mut self, key: &str, inst: &Instance<'tcx>, prom: Option<Promoted>) -> Option<String> {
        let tcx = self.tcx;
        let did = inst.def_id();
        let args = inst.args;
        let body: &Body<'tcx> = match prom {
            Some(p) => &tcx.promoted_mir(did)[p],
            None => match tcx.def_kind(did) {
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::AnonConst => tcx.mir_for_ctfe(did),
                _ => tcx.optimized_mir(did),
            },
        };
        let mut locals = vec![];
        for l in body.local_decls.iter() {
            let t = self.norm(args, l.ty);
            locals.push(self.ty(t).to_string());
        }
        let mut names = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(format!("[{},{}]", p.local.as_usize(), esc(v.name.as_str())));
                }
            }
        }
        let mut blocks = vec![];
        for (_bb, d) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in d.statements.iter() {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let pl = self.place(&b.0, args);
                        let rv = self.rvalue(&b.1, inst, args);
                        st.push(format!("[\"=\",{},{},{}]", pl, rv, self.span(s.source_info.span)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pl = self.place(place, args);
                        st.push(format!("[\"setd\",{},{}]", pl, variant_index.as_usize()));
                    }
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(_) => {}
                        _ => st.push("[\"unk\"]".into()),
                    },
                    _ => {}
                }
            }
            let t = d.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.op(discr, inst, args);
                    let dt = discr.ty(&body.local_decls, tcx);
                    let dt = self.norm(args, dt);
                    let tv: Vec<String> =
                        targets.iter().map(|(v, b)| format!("[{},{}]", esc(&v.to_string()), b.as_usize())).collect();
                    format!("[\"switch\",{},{},{},{}]", o, arr(tv), targets.otherwise().as_usize(), self.ty(dt))
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pl = self.place(place, args);
                    let t = self.norm(args, place.ty(&body.local_decls, tcx).ty);
                    format!("[\"drop\",{},{},{}]", pl, target.as_usize(), self.ty(t))
                }
                TerminatorKind::Call { func, args: cargs, destination, target, .. } => {
                    let fo = self.op(func, inst, args);
                    let av: Vec<String> = cargs.iter().map(|a| self.op(&a.node, inst, args)).collect();
                    let dst = self.place(destination, args);
                    let tg = target.map(|t| t.as_usize().to_string()).unwrap_or("null".into());
                    format!("[\"call\",{},{},{},{},{}]", fo, arr(av), dst, tg, sp)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.op(cond, inst, args);
                    let (m, ops): (String, Vec<&Operand<'tcx>>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![len, index]),
                        AssertKind::Overflow(b, x, y) => (format!("overflow{:?}", b), vec![x, y]),
                        AssertKind::OverflowNeg(x) => ("overflowNeg".into(), vec![x]),
                        AssertKind::DivisionByZero(x) => ("divzero".into(), vec![x]),
                        AssertKind::RemainderByZero(x) => ("remzero".into(), vec![x]),
                        _ => ("other".into(), vec![]),
                    };
                    let os: Vec<String> = ops.iter().map(|o| self.op(o, inst, args)).collect();
                    format!("[\"assert\",{},{},{},{},{},{}]", c, *expected as u8, esc(&m), arr(os), target.as_usize(), sp)
                }
                other => format!("[\"unk\",{}]", esc(&format!("{:?}", other))),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"c\":{}}}", arr(st), tj, d.is_cleanup as u8));
        }
        let local = did.is_local() || tcx.crate_name(did.krate).as_str() == "magnesia";
        let ga = self.gargs(args);
        Some(format!(
            "{{\"path\":{},\"crate\":{},\"local\":{},\"span\":{},\"argc\":{},\"a\":{},\"locals\":{},\"names\":{},\"spread\":{},\"blocks\":{}}}",
            esc(&self.path(did)),
            esc(tcx.crate_name(did.krate).as_str()),
            local as u8,
            self.span(tcx.def_span(did)),
            body.arg_count,
            ga,
            arr(locals),
            arr(names),
            body.spread_arg.map(|l| l.as_usize() as i64).unwrap_or(-1),
            arr(blocks)
        ))
        .map(|s| {
            let _ = key;
            s
        })
    }
    fn drain(&mut self) {
        while let Some((k, i, p)) = self.queue.pop_front() {
            if let Some(b) = self.body(&k, &i, p) {
                self.fns.push((k, b));
            }
            if self.fns.len() > 20000 {
                panic!("too many instances");
            }
        }
    }
}

// ---------------------------------------------------------------- items
fn foreign_macro(s: Span) -> bool {
    s.from_expansion() && s.ctxt().outer_expn_data().macro_def_id.map_or(false, |m| !m.is_local())
}
struct UnsafeFinder<'tcx> {
    tcx: TyCtxt<'tcx>,
    found: Vec<(String, Span)>,
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeFinder<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> Self::MaybeTyCtxt {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            // blocks written by the macros of other crates (std) are the compiler's business, not the library's
            if !foreign_macro(b.span) {
                self.found.push(("unsafe block".into(), b.span));
            }
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
    fn visit_expr(&mut self, e: &'tcx rustc_hir::Expr<'tcx>) {
        if let rustc_hir::ExprKind::InlineAsm(_) = e.kind {
            self.found.push(("inline asm".into(), e.span));
        }
        rustc_hir::intravisit::walk_expr(self, e);
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::interface::Config) {
        c.opts.unstable_opts.always_encode_mir = true;
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        if let Ok(out) = std::env::var("VX_OUT") {
            dump(tcx, &out);
        }
        rustc_driver::Compilation::Continue
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let mode = std::env::var("VX_MODE").unwrap_or("roots".into());
    let only: Option<Vec<String>> = std::env::var("VX_ROOTS").ok().map(|s| s.split(',').map(|x| x.to_string()).collect());
    let allow: Vec<String> = std::env::var("VX_ALLOW")
        .ok()
        .and_then(|f| std::fs::read_to_string(f).ok())
        .map(|s| s.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty() && !l.starts_with('#')).collect())
        .unwrap_or_default();
    let mut d = Dump {
        tcx,
        env: TypingEnv::fully_monomorphized(),
        types: vec![],
        tymap: HashMap::new(),
        queue: VecDeque::new(),
        seen: HashSet::new(),
        fns: vec![],
        allow,
        root: String::new(),
    };
    let mut roots = vec![];
    let mut queries = vec![];
    for ld in tcx.mir_keys(()).iter() {
        let did = ld.to_def_id();
        let kind = tcx.def_kind(did);
        if !matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            continue;
        }
        let name = tcx.item_name(did).to_string();
        if mode == "roots" {
            if !(name.starts_with("w_") || name.starts_with("q_")) {
                continue;
            }
            if let Some(o) = &only {
                if !o.iter().any(|p| name.starts_with(p.as_str())) {
                    continue;
                }
            }
        }
        d.env = TypingEnv::codegen(tcx, did);
        // types are interned per environment: aliases may normalise differently
        d.tymap.clear();
        d.root = if mode == "roots" { name.clone() } else { d.path(did) };
        let args = tcx.erase_and_anonymize_regions(GenericArgs::identity_for_item(tcx, did));
        if name.starts_with("q_") && mode == "roots" {
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
            let sig = tcx.instantiate_bound_regions_with_erased(sig);
            let t = d.norm(args, sig.output());
            let mut res = vec![];
            for tr in tcx.all_traits_including_private() {
                let p = d.path(tr);
                if p.starts_with("magnesia::algebra::") {
                    let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(d.env);
                    if tcx.generics_of(tr).own_params.len() <= 1 {
                        let r = infcx.type_implements_trait(tr, [t], penv);
                        res.push(format!("{}:{}", esc(&p), r.must_apply_considering_regions() as u8));
                    }
                }
            }
            queries.push(format!("{}:{{\"ty\":{},\"impls\":{{{}}}}}", esc(&name), esc(&names!(format!("{}", t))), res.join(",")));
            continue;
        }
        let inst = Instance::new_raw(did, args);
        let k = d.enqueue(inst);
        let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
        let sig = tcx.instantiate_bound_regions_with_erased(sig);
        let mut ins = vec![];
        for t in sig.inputs() {
            let t = d.norm(args, *t);
            ins.push(d.ty(t).to_string());
        }
        let o = d.norm(args, sig.output());
        let o = d.ty(o);
        let vis = if tcx.visibility(did).is_public() { 1 } else { 0 };
        let ev = tcx.effective_visibilities(()).is_reachable(*ld) as u8;
        let imp = tcx.impl_of_assoc(did);
        let (tr, st) = match imp {
            Some(i) => {
                let tr = tcx.impl_opt_trait_ref(i).map(|t| names!(format!("{}", t.instantiate_identity().skip_norm_wip()))).unwrap_or_default();
                let st = tcx.type_of(i).instantiate_identity().skip_norm_wip();
                (tr, names!(format!("{}", st)))
            }
            None => (String::new(), String::new()),
        };
        roots.push(format!(
            "{}:{{\"key\":{},\"path\":{},\"ins\":{},\"out\":{},\"pub\":{},\"reach\":{},\"trait\":{},\"self\":{},\"span\":{}}}",
            esc(&if mode == "roots" { name.clone() } else { d.path(did) + "@" + &format!("{:?}", did) }),
            esc(&k),
            esc(&d.path(did)),
            arr(ins),
            o,
            vis,
            ev,
            esc(&tr),
            esc(&st),
            d.span(tcx.def_span(did))
        ));
        d.drain();
    }
    let mut items = vec![];
    let mut unsafes = vec![];
    if mode == "items" {
        let mut uf = UnsafeFinder { tcx, found: vec![] };
        tcx.hir_walk_toplevel_module(&mut uf);
        for (k, s) in uf.found.iter() {
            unsafes.push(format!("[{},{}]", esc(k), d.span(*s)));
        }
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            let k = tcx.def_kind(did);
            let sp = d.span(tcx.def_span(did));
            match k {
                DefKind::Static { mutability, .. } => {
                    let te = TypingEnv::fully_monomorphized();
                    let ty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let tl = tcx.codegen_fn_attrs(did).flags.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::THREAD_LOCAL);
                    items.push(format!(
                        "{{\"k\":\"static\",\"p\":{},\"mut\":{},\"cell\":{},\"tls\":{},\"span\":{}}}",
                        esc(&d.path(did)),
                        mutability.is_mut() as u8,
                        !ty.is_freeze(tcx, te) as u8,
                        tl as u8,
                        sp
                    ));
                }
                DefKind::ForeignMod => items.push(format!("{{\"k\":\"foreign\",\"p\":\"extern\",\"span\":{}}}", sp)),
                DefKind::Fn | DefKind::AssocFn => {
                    let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
                    if sig.safety().is_unsafe() {
                        unsafes.push(format!("[\"unsafe fn\",{}]", sp));
                    }
                }
                DefKind::Impl { of_trait } => {
                    let st = names!(format!("{}", tcx.type_of(did).instantiate_identity().skip_norm_wip()));
                    let (tr, safe) = if of_trait {
                        let h = tcx.impl_trait_header(did);
                        (names!(format!("{}", h.trait_ref.instantiate_identity().skip_norm_wip())), h.safety.is_safe())
                    } else {
                        (String::new(), true)
                    };
                    if !safe && !foreign_macro(tcx.def_span(did)) {
                        unsafes.push(format!("[\"unsafe impl\",{}]", sp));
                    }
                    let preds: Vec<String> = tcx
                        .explicit_clauses_of(did)
                        .clauses
                        .iter()
                        .map(|(p, _)| esc(&names!(format!("{}", p))))
                        .collect();
                    items.push(format!(
                        "{{\"k\":\"impl\",\"trait\":{},\"self\":{},\"preds\":{},\"span\":{}}}",
                        esc(&tr),
                        esc(&st),
                        arr(preds),
                        sp
                    ));
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let adt = tcx.adt_def(did);
                    let mut fs = vec![];
                    for f in adt.all_fields() {
                        fs.push(format!(
                            "[{},{},{}]",
                            esc(f.name.as_str()),
                            f.vis.is_public() as u8,
                            esc(&names!(format!("{}", tcx.type_of(f.did).instantiate_identity().skip_norm_wip())))
                        ));
                    }
                    items.push(format!(
                        "{{\"k\":\"adt\",\"p\":{},\"pub\":{},\"reach\":{},\"fields\":{},\"span\":{}}}",
                        esc(&d.path(did)),
                        tcx.visibility(did).is_public() as u8,
                        tcx.effective_visibilities(()).is_reachable(id) as u8,
                        arr(fs),
                        sp
                    ));
                }
                _ => {}
            }
        }
    }
    let mut o = String::new();
    let _ = write!(o, "{{\"crate\":{},\"types\":[", esc(tcx.crate_name(LOCAL_CRATE).as_str()));
    o.push_str(&d.types.join(",\n"));
    o.push_str("],\"fns\":{");
    let fv: Vec<String> = d.fns.iter().map(|(k, b)| format!("{}:{}", esc(k), b)).collect();
    o.push_str(&fv.join(",\n"));
    let _ = write!(
        o,
        "}},\"roots\":{{{}}},\"queries\":{{{}}},\"items\":{},\"unsafe\":{}}}",
        roots.join(",\n"),
        queries.join(",\n"),
        arr(items),
        arr(unsafes)
    );
    std::fs::write(out, o).expect("write VX_OUT");
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let r = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb));
    std::process::exit(if r == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
