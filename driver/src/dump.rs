//! Facts dumper.
use crate::json::{s, u, J};
use rustc_abi::{FieldIdx, VariantIdx};
use rustc_data_structures::fx::{FxHashMap, FxHashSet};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;

/// Module prefixes of library functions whose bodies are interpreted; every
/// other library function is known to the analyses by its name only.
const INLINE: &[&str] = &[
    "core::option::", "core::result::", "core::ops::", "core::convert::", "core::cmp::", "core::clone::", "core::iter::",
    "core::bool::", "core::array::", "core::borrow::", "core::default::", "core::tuple::", "core::slice::", "core::mem::",
    "alloc::borrow::", "core::num::", "core::str::", "core::char::", "alloc::vec::", "alloc::string::", "alloc::slice::", "alloc::str::",
    "core::hint::", "core::any::", "core::marker::", "core::ptr::",
];
const STOP: &[&str] = &["core::slice::memchr", "core::slice::sort", "core::num::flt2dec", "core::num::dec2flt", "core::str::pattern", "core::num::fmt", "core::num::bignum", "core::num::diy_float"];

pub struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    type_ids: FxHashMap<Ty<'tcx>, usize>,
    fns: Vec<(String, J)>,
    keys: FxHashMap<String, Vec<Instance<'tcx>>>,
    work: Vec<(String, Instance<'tcx>, TypingEnv<'tcx>, String)>,
    statics: Vec<(String, J)>,
    static_seen: FxHashSet<DefId>,
}

pub fn dump(tcx: TyCtxt<'_>) -> String {
    with_no_trimmed_paths!(with_no_visible_paths!(with_resolve_crate_name!({
        let mut d = D {
            tcx,
            types: vec![],
            type_ids: Default::default(),
            fns: vec![],
            keys: Default::default(),
            work: vec![],
            statics: vec![],
            static_seen: Default::default(),
        };
        d.run()
    })))
}

impl<'tcx> D<'tcx> {
    fn path(&self, def: DefId) -> String {
        self.tcx.def_path_str(def)
    }

    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let name = format!("{}", loc.file.name.prefer_local_unconditionally());
        s(format!("{}:{}", name, loc.line))
    }

    fn run(&mut self) -> String {
        let tcx = self.tcx;
        let ev = tcx.effective_visibilities(());
        let mut roots = vec![];
        let mut adts = vec![];
        let mut assocs = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let def = id.to_def_id();
            let kind = tcx.def_kind(def);
            match kind {
                DefKind::Fn | DefKind::AssocFn => {
                    let parent = tcx.parent(def);
                    if kind == DefKind::AssocFn && matches!(tcx.def_kind(parent), DefKind::Trait) && !tcx.defaultness(def).has_value() {
                        continue;
                    }
                    if !tcx.is_mir_available(def) {
                        continue;
                    }
                    let env = TypingEnv::post_analysis(tcx, def);
                    let args = ty::GenericArgs::identity_for_item(tcx, def);
                    let args = tcx.erase_and_anonymize_regions(args);
                    let inst = Instance::new_raw(def, args);
                    let rootname = self.path(def);
                    let key = self.enqueue(inst, env, &rootname);
                    let sig = tcx.fn_sig(def).instantiate_identity().skip_norm_wip();
                    let sig = tcx.liberate_late_bound_regions(def, sig);
                    let sig = tcx.normalize_erasing_regions(env, ty::Unnormalized::new_wip(sig));
                    let rsig = tcx.liberate_late_bound_regions(def, tcx.fn_sig(def).instantiate_identity().skip_norm_wip());
                    let rin: Vec<J> = rsig.inputs().iter().map(|t| self.rty(*t, 0)).collect();
                    let rout = self.rty(rsig.output(), 0);
                    let inputs: Vec<J> = sig.inputs().iter().map(|t| u(self.ty(*t, env))).collect();
                    let output = u(self.ty(sig.output(), env));
                    let mut o = vec![
                        ("path", s(self.path(def))),
                        ("name", s(tcx.item_name(def).to_string())),
                        ("key", s(key)),
                        ("exported", J::B(ev.is_exported(id))),
                        ("reachable", J::B(ev.is_reachable(id))),
                        ("unsafe", J::B(!sig.safety().is_safe())),
                        ("inputs", J::A(inputs)),
                        ("output", output),
                        ("rin", J::A(rin)),
                        ("rout", rout),
                        ("span", self.span(tcx.def_span(def))),
                        ("vis_public", J::B(tcx.visibility(def).is_public())),
                    ];
                    match tcx.def_kind(parent) {
                        DefKind::Impl { of_trait } => {
                            let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                            let st = tcx.erase_and_anonymize_regions(st);
                            o.push(("self_ty", u(self.ty(st, env))));
                            let rs = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                            o.push(("rself", self.rty(rs, 0)));
                            if of_trait {
                                let tr = tcx.impl_trait_ref(parent).skip_binder();
                                o.push(("trait", s(self.path(tr.def_id))));
                                let targs: Vec<J> = tr.args.types().map(|t| { let t = tcx.erase_and_anonymize_regions(t); u(self.ty(t, env)) }).collect();
                                o.push(("trait_args", J::A(targs)));
                            }
                        }
                        DefKind::Trait => o.push(("in_trait", s(self.path(parent)))),
                        _ => {}
                    }
                    roots.push(J::O(o));
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let env = TypingEnv::post_analysis(tcx, def);
                    let t = tcx.type_of(def).instantiate_identity().skip_norm_wip();
                    let t = tcx.erase_and_anonymize_regions(t);
                    let adt = tcx.adt_def(def);
                    let mut pubfields = vec![];
                    for v in adt.variants() {
                        for f in &v.fields {
                            let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            pubfields.push(J::O(vec![("name", s(f.name.to_string())), ("public", J::B(f.vis.is_public())), ("rty", self.rty(ft, 0))]));
                        }
                    }
                    adts.push(J::O(vec![
                        ("path", s(self.path(def))),
                        ("ty", u(self.ty(t, env))),
                        ("exported", J::B(ev.is_exported(id))),
                        ("is_enum", J::B(adt.is_enum())),
                        ("params", J::A(tcx.generics_of(def).own_params.iter().map(|p| s(p.name.to_string())).collect())),
                        ("variances", J::A(tcx.variances_of(def).iter().map(|v| s(format!("{:?}", v))).collect())),
                        ("fields", J::A(pubfields)),
                    ]));
                }
                DefKind::AssocTy if matches!(tcx.def_kind(tcx.parent(def)), DefKind::Impl { of_trait: true }) => {
                    let st = tcx.type_of(tcx.parent(def)).instantiate_identity().skip_norm_wip();
                    let t = tcx.type_of(def).instantiate_identity().skip_norm_wip();
                    assocs.push(J::O(vec![("path", s(self.path(def))), ("rself", self.rty(st, 0)), ("rty", self.rty(t, 0))]));
                }
                DefKind::Static { .. } => {
                    self.static_(def, TypingEnv::fully_monomorphized());
                }
                _ => {}
            }
        }
        while let Some((key, inst, env, root)) = self.work.pop() {
            let f = self.body(&key, inst, env, &root);
            self.fns.push((key, f));
        }
        let top = J::O(vec![
            ("crate", s(tcx.crate_name(LOCAL_CRATE).to_string())),
            ("roots", J::A(roots)),
            ("adts", J::A(adts)),
            ("assocs", J::A(assocs)),
            ("types", J::A(std::mem::take(&mut self.types))),
            ("statics", J::M(std::mem::take(&mut self.statics))),
            ("fns", J::M(std::mem::take(&mut self.fns))),
        ]);
        let mut out = String::new();
        top.write(&mut out);
        out
    }

    fn inst_name(&self, inst: Instance<'tcx>) -> String {
        let base = self.tcx.def_path_str_with_args(inst.def_id(), inst.args);
        match inst.def {
            InstanceKind::Item(_) => base,
            InstanceKind::Shim(k) => {
                let tag = match k {
                    ShimKind::FnPtr(_, t) => format!("fnptr<{}>", t),
                    ShimKind::ClosureOnce { closure, .. } => format!("once<{:?}>", closure),
                    ShimKind::DropGlue(_, t) => format!("drop<{:?}>", t),
                    ShimKind::Clone(_, t) => format!("clone<{}>", t),
                    k => format!("{:?}", k),
                };
                format!("{}~{}", base, tag)
            }
            k => format!("{}~{:?}", base, k),
        }
    }

    fn enqueue(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>, root: &str) -> String {
        let mut key = self.inst_name(inst);
        let param = inst.args.has_param() || inst.has_param();
        if param {
            key = format!("{}#{}", key, root);
        }
        // closures of the same function print alike
        if self.tcx.is_closure_like(inst.def_id()) {
            key = format!("{}@{:?}", key, inst.def_id());
        }
        // so do the instances of a closure of a generic function
        let same = self.keys.entry(key.clone()).or_default();
        match same.iter().position(|x| *x == inst) {
            Some(0) => return key,
            Some(n) => return format!("{}#~{}", key, n),
            None => same.push(inst),
        }
        if same.len() > 1 {
            key = format!("{}#~{}", key, same.len() - 1);
        }
        self.work.push((key.clone(), inst, env, root.to_string()));
        key
    }

    fn inlinable(&self, inst: Instance<'tcx>) -> bool {
        let def = inst.def_id();
        match inst.def {
            InstanceKind::Item(_) => {
                if matches!(self.tcx.def_kind(def), DefKind::Ctor(..)) {
                    return true;
                }
                if !self.tcx.is_mir_available(def) {
                    return false;
                }
                if def.is_local() {
                    return true;
                }
                if self.tcx.is_closure_like(def) {
                    return true;
                }
                let p = self.tcx.crate_name(def.krate).to_string() + &self.tcx.def_path(def).to_string_no_crate_verbose();
                let ok = |l: &[&str]| l.iter().any(|x| p.starts_with(x));
                ok(INLINE) && !ok(STOP)
            }
            InstanceKind::Shim(ShimKind::FnPtr(..) | ShimKind::ClosureOnce { .. } | ShimKind::Clone(..)) => true,
            _ => false,
        }
    }

    // ---------------------------------------------------------------- types
    fn norm(&self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> Ty<'tcx> {
        let t = self.tcx.erase_and_anonymize_regions(t);
        self.tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(t)).unwrap_or(t)
    }

    fn ty(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> usize {
        let t = self.norm(t, env);
        if let Some(i) = self.type_ids.get(&t) {
            return *i;
        }
        let id = self.types.len();
        self.types.push(J::Null);
        self.type_ids.insert(t, id);
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("s", s(t.to_string()))];
        let k = match t.kind() {
            ty::Bool => "bool",
            ty::Char => "char",
            ty::Str => "str",
            ty::Never => "never",
            ty::Int(i) => {
                o.push(("w", u(i.bit_width().unwrap_or(64) as usize)));
                "int"
            }
            ty::Uint(i) => {
                o.push(("w", u(i.bit_width().unwrap_or(64) as usize)));
                "uint"
            }
            ty::Float(_) => "float",
            ty::Slice(e) => {
                let e = self.ty(*e, env);
                o.push(("e", u(e)));
                "slice"
            }
            ty::Array(e, n) => {
                let e = self.ty(*e, env);
                o.push(("e", u(e)));
                if let Some(n) = n.try_to_target_usize(tcx) {
                    o.push(("n", J::U(n as u128)));
                }
                "array"
            }
            ty::Ref(_, e, m) => {
                let e = self.ty(*e, env);
                o.push(("e", u(e)));
                o.push(("mut", J::B(m.is_mut())));
                "ref"
            }
            ty::RawPtr(e, m) => {
                let e = self.ty(*e, env);
                o.push(("e", u(e)));
                o.push(("mut", J::B(m.is_mut())));
                "ptr"
            }
            ty::Tuple(ts) => {
                let v: Vec<J> = ts.iter().map(|x| u(self.ty(x, env))).collect();
                o.push(("fields", J::A(v)));
                "tuple"
            }
            ty::Adt(adt, args) => {
                o.push(("path", s(self.path(adt.did()))));
                o.push(("local", J::B(adt.did().is_local())));
                let targs: Vec<J> = args.types().map(|x| u(self.ty(x, env))).collect();
                o.push(("args", J::A(targs)));
                let cargs: Vec<J> = args.consts().map(|c| s(c.to_string())).collect();
                o.push(("cargs", J::A(cargs)));
                o.push(("adt", s(if adt.is_enum() { "enum" } else if adt.is_union() { "union" } else { "struct" })));
                o.push(("transparent", J::B(adt.repr().transparent())));
                let mut vs = vec![];
                if !adt.is_union() {
                    for (vi, v) in adt.variants().iter_enumerated() {
                        let disc = if adt.is_enum() { adt.discriminant_for_variant(tcx, vi).val } else { 0 };
                        let fs: Vec<J> = v
                            .fields
                            .iter()
                            .map(|f| {
                                let ft = f.ty(tcx, args).skip_norm_wip();
                                let fid = self.ty(ft, env);
                                J::O(vec![("n", s(f.name.to_string())), ("t", u(fid))])
                            })
                            .collect();
                        vs.push(J::O(vec![("n", s(v.name.to_string())), ("d", J::U(disc)), ("f", J::A(fs))]));
                    }
                }
                o.push(("variants", J::A(vs)));
                "adt"
            }
            ty::FnDef(def, args) => {
                let args = args.skip_binder();
                o.push(("path", s(self.path(*def))));
                let targs: Vec<J> = args.types().map(|x| u(self.ty(x, env))).collect();
                o.push(("args", J::A(targs)));
                "fndef"
            }
            ty::Closure(def, args) => {
                o.push(("path", s(format!("{:?}", def))));
                let v: Vec<J> = args.as_closure().upvar_tys().iter().map(|x| u(self.ty(x, env))).collect();
                o.push(("fields", J::A(v)));
                "closure"
            }
            ty::Param(p) => {
                o.push(("name", s(p.name.to_string())));
                "param"
            }
            ty::Alias(..) => "alias",
            ty::Dynamic(..) => "dyn",
            ty::FnPtr(..) => "fnptr",
            _ => "other",
        };
        o.push(("k", s(k)));
        if let Ok(l) = tcx.layout_of(env.as_query_input(t)) {
            if l.is_sized() {
                o.push(("size", J::U(l.size.bytes() as u128)));
            }
        }
        self.types[id] = J::O(o);
        id
    }

    // ------------------------------------------------------------ constants
    fn region(&self, r: ty::Region<'tcx>) -> J {
        s(match r.kind() {
            ty::ReStatic => "'static".to_string(),
            ty::ReEarlyParam(p) => format!("E:{}/{}", p.name, p.index),
            k => format!("L:{:?}", k),
        })
    }

    /// A type with its regions.
    fn rty(&self, t: Ty<'tcx>, d: usize) -> J {
        let mut o = vec![];
        if d > 12 {
            return J::O(vec![("k", s("deep"))]);
        }
        let gargs = |a: GenericArgsRef<'tcx>| {
            J::A(a.iter().map(|x| match x.kind() {
                ty::GenericArgKind::Lifetime(r) => J::O(vec![("k", s("region")), ("r", self.region(r))]),
                ty::GenericArgKind::Type(t) => self.rty(t, d + 1),
                ty::GenericArgKind::Const(_) => J::O(vec![("k", s("const"))]),
            }).collect())
        };
        match *t.kind() {
            ty::Ref(r, e, m) => o.extend([("k", s("ref")), ("r", self.region(r)), ("m", J::B(m.is_mut())), ("args", J::A(vec![self.rty(e, d + 1)]))]),
            ty::RawPtr(e, m) => o.extend([("k", s("ptr")), ("m", J::B(m.is_mut())), ("args", J::A(vec![self.rty(e, d + 1)]))]),
            ty::Adt(a, args) => o.extend([("k", s("adt")), ("path", s(self.path(a.did()))), ("local", J::B(a.did().is_local())), ("args", gargs(args))]),
            ty::Slice(e) => o.extend([("k", s("slice")), ("args", J::A(vec![self.rty(e, d + 1)]))]),
            ty::Array(e, _) => o.extend([("k", s("array")), ("args", J::A(vec![self.rty(e, d + 1)]))]),
            ty::Tuple(ts) => o.extend([("k", s("tuple")), ("args", J::A(ts.iter().map(|x| self.rty(x, d + 1)).collect()))]),
            ty::Param(p) => o.extend([("k", s("param")), ("name", s(p.name.to_string()))]),
            ty::Alias(_, a) => o.extend([("k", s("alias")), ("opaque", J::B(format!("{:?}", a.kind).starts_with("Opaque"))), ("args", gargs(a.args))]),
            ty::FnPtr(..) | ty::FnDef(..) | ty::Closure(..) => o.extend([("k", s("fn"))]),
            ty::Dynamic(_, r) => o.extend([("k", s("dyn")), ("r", self.region(r))]),
            _ => o.extend([("k", s("prim")), ("name", s(t.to_string()))]),
        }
        J::O(o)
    }

    fn scalar_int(&self, i: ty::ScalarInt, t: Ty<'tcx>) -> J {
        match t.kind() {
            ty::Int(_) => J::I(i.to_int(i.size())),
            ty::Bool => J::B(i.to_uint(i.size()) != 0),
            _ => J::U(i.to_uint(i.size())),
        }
    }

    fn mem_const(&mut self, alloc_id: rustc_middle::mir::interpret::AllocId, offset: rustc_abi::Size, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        let ga = tcx.global_alloc(alloc_id);
        let (alloc_id, alloc) = match ga {
            GlobalAlloc::Memory(m) => (alloc_id, m),
            GlobalAlloc::Static(def) => {
                self.static_(def, env);
                return J::O(vec![("static", s(self.path(def)))]);
            }
            _ => return J::O(vec![("opaque", s(format!("{:?}", ga)))]),
        };
        if matches!(t.kind(), ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char | ty::Ref(..) | ty::RawPtr(..)) {
            let Ok(layout) = tcx.layout_of(env.as_query_input(t)) else { return J::O(vec![("opaque", s("layout"))]) };
            if let ty::Ref(_, inner, _) | ty::RawPtr(inner, _) = t.kind() {
                if matches!(inner.kind(), ty::Str | ty::Slice(_)) {
                    let psz = tcx.data_layout.pointer_size();
                    let p = alloc.inner().read_scalar(&tcx, AllocRange { start: offset, size: psz }, true);
                    let l = alloc.inner().read_scalar(&tcx, AllocRange { start: offset + psz, size: psz }, false);
                    if let (Ok(Scalar::Ptr(p, _)), Ok(Scalar::Int(l))) = (&p, &l) {
                        let (prov, off) = p.clone().into_raw_parts();
                        return self.slice_const(prov.alloc_id(), off, l.to_target_usize(tcx), *inner, env, depth);
                    }
                    if let Ok(Scalar::Int(l)) = l {
                        if l.to_target_usize(tcx) == 0 {
                            return self.empty_slice(*inner);
                        }
                    }
                    return J::O(vec![("opaque", s("fat"))]);
                }
            }
            let prov = matches!(t.kind(), ty::Ref(..) | ty::RawPtr(..));
            let v = alloc.inner().read_scalar(&tcx, AllocRange { start: offset, size: layout.size }, prov);
            return match v {
                Ok(v) => self.const_val(ConstValue::Scalar(v), t, env, depth),
                Err(_) => J::O(vec![("opaque", s("uninit"))]),
            };
        }
        self.const_val(ConstValue::Indirect { alloc_id, offset }, t, env, depth)
    }

    fn empty_slice(&mut self, t: Ty<'tcx>) -> J {
        match t.kind() {
            ty::Str => J::O(vec![("str", J::A(vec![]))]),
            _ => J::O(vec![("slice", J::A(vec![]))]),
        }
    }

    fn slice_const(&mut self, alloc_id: rustc_middle::mir::interpret::AllocId, off: rustc_abi::Size, len: u64, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        match t.kind() {
            ty::Str => {
                if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                    let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(off.bytes_usize()..off.bytes_usize() + len as usize);
                    return J::O(vec![("str", J::A(b.iter().map(|x| u(*x as usize)).collect()))]);
                }
                J::O(vec![("opaque", s("str"))])
            }
            ty::Slice(e) => {
                let Ok(l) = tcx.layout_of(env.as_query_input(*e)) else { return J::O(vec![("opaque", s("layout"))]) };
                if len > 4096 {
                    return J::O(vec![("opaque", s("long slice"))]);
                }
                let v: Vec<J> = (0..len).map(|i| self.mem_const(alloc_id, off + l.size * i, *e, env, depth + 1)).collect();
                let e = self.ty(*e, env);
                J::O(vec![("slice", J::A(v)), ("e", u(e))])
            }
            _ => J::O(vec![("opaque", s("unsized"))]),
        }
    }

    fn const_val(&mut self, v: ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 12 {
            return J::O(vec![("opaque", s("deep"))]);
        }
        match (v, t.kind()) {
            (ConstValue::ZeroSized, ty::FnDef(..)) => return J::O(vec![("fn", J::B(true))]),
            (ConstValue::Scalar(Scalar::Int(i)), ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char | ty::Float(_)) => {
                return J::O(vec![("int", self.scalar_int(i, t))])
            }
            (ConstValue::Scalar(Scalar::Int(i)), ty::RawPtr(..) | ty::Ref(..) | ty::FnPtr(..)) => {
                return J::O(vec![("addr", J::U(i.to_uint(i.size())))])
            }
            (ConstValue::Scalar(Scalar::Ptr(p, _)), ty::Ref(_, inner, _) | ty::RawPtr(inner, _)) => {
                let (prov, off) = p.into_raw_parts();
                let inner = *inner;
                let v = self.mem_const(prov.alloc_id(), off, inner, env, depth + 1);
                let e = self.ty(inner, env);
                return J::O(vec![("ref", v), ("e", u(e))]);
            }
            (ConstValue::Slice { alloc_id, meta }, ty::Ref(_, inner, _) | ty::RawPtr(inner, _)) => {
                return self.slice_const(alloc_id, rustc_abi::Size::ZERO, meta, *inner, env, depth);
            }
            (ConstValue::Indirect { alloc_id, offset }, ty::Ref(..) | ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char) => {
                return self.mem_const(alloc_id, offset, t, env, depth);
            }
            (ConstValue::Indirect { alloc_id, offset }, ty::Array(e, n)) => {
                if let (Some(n), Ok(l)) = (n.try_to_target_usize(tcx), tcx.layout_of(env.as_query_input(*e))) {
                    if n <= 4096 {
                        let v: Vec<J> = (0..n).map(|i| self.mem_const(alloc_id, offset + l.size * i, *e, env, depth + 1)).collect();
                        let e = self.ty(*e, env);
                        return J::O(vec![("array", J::A(v)), ("e", u(e))]);
                    }
                }
            }
            _ => {}
        }
        if matches!(t.kind(), ty::Adt(..) | ty::Tuple(..) | ty::Array(..)) && !t.has_param() {
            if let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                let fs: Vec<J> = dc.fields.iter().map(|(cv, ct)| {
                    let c = self.const_val(*cv, *ct, env, depth + 1);
                    let ti = self.ty(*ct, env);
                    J::O(vec![("v", c), ("t", u(ti))])
                }).collect();
                return J::O(vec![("agg", J::A(fs)), ("variant", u(dc.variant.unwrap_or(VariantIdx::from_u32(0)).as_usize()))]);
            }
        }
        if let ConstValue::ZeroSized = v {
            return J::O(vec![("zst", J::B(true))]);
        }
        J::O(vec![("opaque", s(format!("{:?}", v)))])
    }

    fn static_(&mut self, def: DefId, env: TypingEnv<'tcx>) {
        if !self.static_seen.insert(def) {
            return;
        }
        let tcx = self.tcx;
        let t = tcx.type_of(def).instantiate_identity().skip_norm_wip();
        let t = self.norm(t, env);
        let p = self.path(def);
        let v = if def.is_local() {
            match tcx.eval_static_initializer(def) {
                Ok(alloc) => {
                    let id = tcx.reserve_and_set_memory_alloc(alloc);
                    self.mem_const(id, rustc_abi::Size::ZERO, t, TypingEnv::fully_monomorphized(), 0)
                }
                Err(_) => J::O(vec![("opaque", s("static"))]),
            }
        } else {
            J::O(vec![("opaque", s("extern static"))])
        };
        let ti = self.ty(t, env);
        self.statics.push((p, J::O(vec![("v", v), ("t", u(ti))])));
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>, root: &str) -> J {
        let tcx = self.tcx;
        let t = self.norm(c.const_.ty(), env);
        let ti = self.ty(t, env);
        if let ty::FnDef(def, args) = t.kind() {
            let args = args.skip_binder();
            let callee = self.callee(*def, args, env, root);
            return J::O(vec![("t", u(ti)), ("v", J::O(vec![("fndef", callee)]))]);
        }
        if let Const::Ty(_, ct) = c.const_ {
            if let ty::ConstKind::Param(p) = ct.kind() {
                return J::O(vec![("t", u(ti)), ("v", J::O(vec![("cparam", s(p.name.to_string()))]))]);
            }
        }
        let v = match c.const_.eval(tcx, env, c.span) {
            Ok(v) => self.const_val(v, t, env, 0),
            Err(_) => J::O(vec![("opaque", s(format!("{:?}", c.const_)))]),
        };
        J::O(vec![("t", u(ti)), ("v", v)])
    }

    // -------------------------------------------------------------- callees
    fn callee(&mut self, def: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>, root: &str) -> J {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let args = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(args)).unwrap_or(args);
        let mut o: Vec<(&'static str, J)> = vec![
            ("decl", s(self.path(def))),
            ("name", s(tcx.opt_item_name(def).map(|x| x.to_string()).unwrap_or_default())),
        ];
        let targs: Vec<J> = args.types().map(|x| u(self.ty(x, env))).collect();
        o.push(("args", J::A(targs)));
        let mut kind = "unresolved";
        match tcx.def_kind(def) {
            DefKind::Ctor(..) => {
                kind = "ctor";
                let inst = Instance::new_raw(def, args);
                let k = self.enqueue(inst, env, root);
                o.push(("key", s(k)));
                o.push(("path", s(self.path(def))));
            }
            DefKind::Fn | DefKind::AssocFn => {
                if let Some(tr) = tcx.trait_of_assoc(def) {
                    o.push(("trait", s(self.path(tr))));
                }
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, def, args) {
                    let rdef = inst.def_id();
                    o.push(("path", s(self.path(rdef))));
                    o.push(("krate", s(tcx.crate_name(rdef.krate).to_string())));
                    o.push(("local", J::B(rdef.is_local())));
                    o.push(("unsafe", J::B(matches!(tcx.def_kind(rdef), DefKind::Fn | DefKind::AssocFn) && !tcx.fn_sig(rdef).skip_binder().safety().is_safe())));
                    let rargs: Vec<J> = inst.args.types().map(|x| u(self.ty(x, env))).collect();
                    o.push(("rargs", J::A(rargs)));
                    kind = match inst.def {
                        InstanceKind::Item(_) => "item",
                        InstanceKind::Intrinsic(_) => "intrinsic",
                        InstanceKind::Virtual(..) => "virtual",
                        InstanceKind::Shim(ShimKind::DropGlue(..)) => "dropglue",
                        InstanceKind::Shim(ShimKind::FnPtr(..)) => "fnptr",
                        InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "once",
                        InstanceKind::Shim(ShimKind::Clone(..)) => "clone",
                        _ => "other",
                    };
                    if let InstanceKind::Item(d) = inst.def {
                        if let DefKind::AssocFn = tcx.def_kind(d) {
                            let parent = tcx.parent(d);
                            if let DefKind::Impl { .. } = tcx.def_kind(parent) {
                                let nparent = tcx.generics_of(parent).count();
                                if inst.args.len() >= nparent {
                                    let st = tcx.type_of(parent).instantiate(tcx, &inst.args[..nparent]).skip_norm_wip();
                                    let ti = self.ty(st, env);
                                    o.push(("self", u(ti)));
                                }
                            }
                        }
                    }
                    if self.inlinable(inst) {
                        let k = self.enqueue(inst, env, root);
                        o.push(("key", s(k)));
                    }
                }
            }
            _ => kind = "other",
        }
        o.push(("kind", s(kind)));
        J::O(o)
    }

    // ------------------------------------------------------------------ MIR
    fn place(&mut self, p: &Place<'tcx>, env: TypingEnv<'tcx>) -> J {
        let mut v = vec![u(p.local.as_usize())];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref | ProjectionElem::PhantomDeref => s("*"),
                ProjectionElem::Field(f, t) => {
                    let ti = self.ty(t, env);
                    J::A(vec![s("f"), u(f.as_usize()), u(ti)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), u(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("c"), J::U(offset as u128), J::U(min_length as u128), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("s"), J::U(from as u128), J::U(to as u128), J::B(from_end)]),
                ProjectionElem::Downcast(_, vi) => J::A(vec![s("d"), u(vi.as_usize())]),
                ProjectionElem::OpaqueCast(_) | ProjectionElem::UnwrapUnsafeBinder(_) => continue,
            });
        }
        J::A(v)
    }

    fn operand(&mut self, op: &Operand<'tcx>, env: TypingEnv<'tcx>, root: &str) -> J {
        match op {
            Operand::Copy(p) => J::O(vec![("c", self.place(p, env))]),
            Operand::Move(p) => J::O(vec![("m", self.place(p, env))]),
            Operand::Constant(c) => J::O(vec![("k", self.constant(c, env, root))]),
            Operand::RuntimeChecks(r) => J::O(vec![("rc", s(format!("{:?}", r)))]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>, root: &str) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.operand(o, env, root)]),
            Rvalue::Repeat(o, n) => {
                let n = self.tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(*n)).unwrap_or(*n);
                J::A(vec![s("repeat"), self.operand(o, env, root), n.try_to_target_usize(self.tcx).map_or(J::Null, |x| J::U(x as u128))])
            }
            Rvalue::Ref(_, bk, p) => J::A(vec![s("ref"), J::B(matches!(bk, BorrowKind::Mut { .. })), self.place(p, env)]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![s("reborrow"), J::B(m.is_mut()), self.place(p, env)]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("rawptr"), self.place(p, env)]),
            Rvalue::Cast(k, o, t) => {
                let ks = match k {
                    CastKind::PointerCoercion(c, _) => format!("Coerce{:?}", c),
                    k => format!("{:?}", k),
                };
                let ti = self.ty(*t, env);
                J::A(vec![s("cast"), s(ks), self.operand(o, env, root), u(ti)])
            }
            Rvalue::BinaryOp(b, ops) => J::A(vec![s("bin"), s(format!("{:?}", b)), self.operand(&ops.0, env, root), self.operand(&ops.1, env, root)]),
            Rvalue::UnaryOp(b, o) => J::A(vec![s("un"), s(format!("{:?}", b)), self.operand(o, env, root)]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p, env)]),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<J> = ops.iter().map(|o| self.operand(o, env, root)).collect();
                let kj = match &**k {
                    AggregateKind::Array(t) => J::A(vec![s("array"), u(self.ty(*t, env))]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(def, vi, args, _, active) => {
                        let t = self.tcx.type_of(*def).instantiate(self.tcx, args).skip_norm_wip();
                        let ti = self.ty(t, env);
                        J::A(vec![s("adt"), u(ti), u(vi.as_usize()), active.map_or(J::Null, |a: FieldIdx| u(a.as_usize()))])
                    }
                    AggregateKind::Closure(def, args) => {
                        let t = Ty::new_closure(self.tcx, *def, args);
                        let ti = self.ty(t, env);
                        J::A(vec![s("closure"), u(ti)])
                    }
                    AggregateKind::RawPtr(t, _) => J::A(vec![s("rawptr"), u(self.ty(*t, env))]),
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![s("agg"), kj, J::A(os)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::O(vec![("c", self.place(p, env))])]),
            r => J::A(vec![s("other"), s(format!("{:?}", r))]),
        }
    }

    fn body(&mut self, _key: &str, inst: Instance<'tcx>, env: TypingEnv<'tcx>, root: &str) -> J {
        let tcx = self.tcx;
        let body = tcx.instance_mir(inst.def).clone();
        let body = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, body)) {
            Ok(b) => b,
            Err(_) => return J::O(vec![("error", s("normalize"))]),
        };
        let locals: Vec<J> = body.local_decls.iter().map(|l| u(self.ty(l.ty, env))).collect();
        let mut names: Vec<J> = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(J::A(vec![u(p.local.as_usize()), s(v.name.to_string())]));
                }
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            if bb.is_cleanup {
                blocks.push(J::Null);
                continue;
            }
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let r = self.rvalue(&b.1, env, root);
                        st.push(J::A(vec![s("="), self.place(&b.0, env), r]))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(J::A(vec![s("setd"), self.place(place, env), u(variant_index.as_usize())]))
                    }
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), u(l.as_usize())])),
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(o) => st.push(J::A(vec![s("assume"), self.operand(o, env, root)])),
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                            let a = self.operand(&c.src, env, root);
                            let b = self.operand(&c.dst, env, root);
                            let n = self.operand(&c.count, env, root);
                            st.push(J::A(vec![s("copynonoverlapping"), a, b, n]))
                        }
                    },
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), u(target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx);
                    let ti = self.ty(dt, env);
                    let v: Vec<J> = targets.iter().map(|(v, b)| J::A(vec![J::U(v), u(b.as_usize())])).collect();
                    J::A(vec![s("switch"), self.operand(discr, env, root), J::A(v), u(targets.otherwise().as_usize()), u(ti)])
                }
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![s("unwind")]),
                TerminatorKind::Drop { place, target, .. } => J::A(vec![s("drop"), self.place(place, env), u(target.as_usize())]),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, env, root);
                    let a: Vec<J> = args.iter().map(|x| self.operand(&x.node, env, root)).collect();
                    J::A(vec![s("call"), f, J::A(a), self.place(destination, env), target.map_or(J::Null, |t| u(t.as_usize()))])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (m, ops): (String, Vec<J>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("BoundsCheck".into(), vec![self.operand(len, env, root), self.operand(index, env, root)]),
                        AssertKind::Overflow(b, l, r) => (format!("Overflow{:?}", b), vec![self.operand(l, env, root), self.operand(r, env, root)]),
                        AssertKind::OverflowNeg(l) => ("OverflowNeg".into(), vec![self.operand(l, env, root)]),
                        AssertKind::DivisionByZero(l) => ("DivisionByZero".into(), vec![self.operand(l, env, root)]),
                        AssertKind::RemainderByZero(l) => ("RemainderByZero".into(), vec![self.operand(l, env, root)]),
                        m => (format!("{:?}", m), vec![]),
                    };
                    J::A(vec![s("assert"), self.operand(cond, env, root), J::B(*expected), s(m), J::A(ops), u(target.as_usize())])
                }
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), u(real_target.as_usize())]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), u(real_target.as_usize())]),
                k => J::A(vec![s("other"), s(format!("{:?}", k))]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", tj), ("sp", sp)]));
        }
        let def = inst.def_id();
        J::O(vec![
            ("path", s(self.path(def))),
            ("local", J::B(def.is_local())),
            ("closure", J::B(tcx.is_closure_like(def))),
            ("span", self.span(body.span)),
            ("argc", u(body.arg_count)),
            ("spread", body.spread_arg.map_or(J::Null, |l| u(l.as_usize()))),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ])
    }
}
