use crate::json::J;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir;
use rustc_middle::mir::interpret::{AllocId, AllocRange, GlobalAlloc, Scalar};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_abi::{Size, FieldIdx, VariantIdx};
use rustc_span::Span;
use rustc_hir::intravisit::{self, Visitor};
use std::collections::{HashMap, HashSet, VecDeque};

type Env = Option<DefId>;

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    type_ids: HashMap<(Env, Ty<'tcx>), usize>,
    insts: Vec<Option<J>>,
    inst_ids: HashMap<(Env, Instance<'tcx>, Option<u32>), usize>,
    queue: VecDeque<(usize, Env, Instance<'tcx>, Option<u32>)>,
    adts: Vec<J>,
    adts_seen: HashSet<DefId>,
    overridden: HashMap<DefId, bool>,
}

const STD_BODY_PREFIXES: &[&str] = &[
    "core::option::",
    "core::result::",
    "core::ops::control_flow::",
    "core::ops::try_trait::",
    "core::convert::",
    "core::bool::",
    "core::num::nonzero::",
    "core::cmp::",
    "core::tuple::",
];

pub fn dump(tcx: TyCtxt<'_>) -> String {
    let mut d = D {
        tcx,
        types: vec![],
        type_ids: HashMap::new(),
        insts: vec![],
        inst_ids: HashMap::new(),
        queue: VecDeque::new(),
        adts: vec![],
        adts_seen: HashSet::new(),
        overridden: HashMap::new(),
    };
    let fns = d.functions();
    let impls = d.impls();
    let traits = d.traits();
    let adts_local = d.local_adts();
    let consts = d.local_consts();
    let unsafe_blocks = d.unsafe_code();
    while let Some((id, env, inst, prom)) = d.queue.pop_front() {
        let j = d.instance_json(env, inst, prom);
        d.insts[id] = Some(j);
    }
    let insts: Vec<J> = d.insts.drain(..).map(|x| x.unwrap_or(J::Null)).collect();
    let root = J::O(vec![
        ("crate", J::s(tcx.crate_name(LOCAL_CRATE).to_string())),
        ("fns", fns),
        ("impls", impls),
        ("traits", traits),
        ("local_adts", adts_local),
        ("consts", consts),
        ("unsafe_blocks", unsafe_blocks),
        ("adts", J::A(std::mem::take(&mut d.adts))),
        ("types", J::A(std::mem::take(&mut d.types))),
        ("instances", J::A(insts)),
    ]);
    let mut out = String::new();
    root.write(&mut out);
    out
}

impl<'tcx> D<'tcx> {
    fn path(&self, def: DefId) -> String {
        // trimmed paths off, crate-relative for local items
        rustc_middle::ty::print::with_no_trimmed_paths!(
            rustc_middle::ty::print::with_no_visible_paths!(self.tcx.def_path_str(def))
        )
    }

    fn full(&self, def: DefId) -> String {
        let krate = self.tcx.crate_name(def.krate).to_string();
        let p = self.path(def);
        if def.is_local() { p } else if p.starts_with('<') { format!("{krate}!{p}") } else { p }
    }

    fn typing_env(&self, env: Env) -> TypingEnv<'tcx> {
        match env {
            Some(d) => TypingEnv::post_analysis(self.tcx, d),
            None => TypingEnv::fully_monomorphized(),
        }
    }

    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let name = format!("{}", lo.file.name.prefer_local_unconditionally());
        J::s(format!("{}:{}", name, lo.line))
    }

    fn ty(&mut self, env: Env, t: Ty<'tcx>) -> J {
        J::n(self.ty_id(env, t) as i128)
    }

    fn ty_id(&mut self, env: Env, t: Ty<'tcx>) -> usize {
        let tcx = self.tcx;
        let t = tcx.erase_and_anonymize_regions(t);
        let key_env = if t.has_param() || t.has_aliases() { env } else { None };
        if let Some(i) = self.type_ids.get(&(key_env, t)) {
            return *i;
        }
        let id = self.types.len();
        self.types.push(J::Null);
        self.type_ids.insert((key_env, t), id);
        let mut o: Vec<(&'static str, J)> = vec![];
        let s = rustc_middle::ty::print::with_no_trimmed_paths!(t.to_string());
        match t.kind() {
            ty::Bool => o.push(("k", J::s("bool"))),
            ty::Char => o.push(("k", J::s("char"))),
            ty::Str => o.push(("k", J::s("str"))),
            ty::Never => o.push(("k", J::s("never"))),
            ty::Int(_) | ty::Uint(_) => {
                o.push(("k", J::s("int")));
                o.push(("n", J::s(s.clone())));
            }
            ty::Float(_) => o.push(("k", J::s("float"))),
            ty::Adt(def, args) => {
                o.push(("k", J::s("adt")));
                o.push(("path", J::s(self.full(def.did()))));
                o.push(("args", self.gargs(env, args)));
                self.adt(*def);
                // field types instantiated (one level), only for small ADTs that matter to places
                if def.is_struct() || def.is_enum() {
                    let mut vs = vec![];
                    for v in def.variants() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(tcx, args).skip_norm_wip();
                            if def.did().is_local()
                                || matches!(tcx.crate_name(def.did().krate).as_str(), "core")
                                    && (tcx.is_diagnostic_item(rustc_span::sym::Option, def.did())
                                        || tcx.is_diagnostic_item(rustc_span::sym::Result, def.did()))
                            {
                                fs.push(self.ty(env, ft));
                            }
                        }
                        vs.push(J::A(fs));
                    }
                    o.push(("vf", J::A(vs)));
                }
            }
            ty::Ref(_, inner, m) => {
                o.push(("k", J::s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                let x = self.ty(env, *inner);
                o.push(("t", x));
            }
            ty::RawPtr(inner, m) => {
                o.push(("k", J::s("ptr")));
                o.push(("mut", J::B(m.is_mut())));
                let x = self.ty(env, *inner);
                o.push(("t", x));
            }
            ty::Slice(inner) => {
                o.push(("k", J::s("slice")));
                let x = self.ty(env, *inner);
                o.push(("t", x));
            }
            ty::Array(inner, len) => {
                o.push(("k", J::s("array")));
                let x = self.ty(env, *inner);
                o.push(("t", x));
                let n = len.try_to_target_usize(tcx);
                o.push(("len", n.map(|v| J::n(v)).unwrap_or(J::Null)));
            }
            ty::Tuple(ts) => {
                o.push(("k", J::s("tuple")));
                let v: Vec<J> = ts.iter().map(|x| self.ty(env, x)).collect();
                o.push(("ts", J::A(v)));
            }
            ty::Param(p) => {
                o.push(("k", J::s("param")));
                o.push(("n", J::s(p.name.to_string())));
            }
            ty::FnDef(def, args) => {
                o.push(("k", J::s("fndef")));
                let c = self.callee(env, *def, args.no_bound_vars().unwrap_or_else(|| args.skip_binder()));
                o.push(("f", c));
            }
            ty::Closure(def, args) => {
                o.push(("k", J::s("closure")));
                o.push(("path", J::s(self.full(*def))));
                let inst = Instance::new_raw(*def, tcx.erase_and_anonymize_regions(*args));
                let i = self.want(env, inst, None);
                o.push(("inst", J::n(i as i128)));
                let ups: Vec<J> = args.as_closure().upvar_tys().iter().map(|x| self.ty(env, x)).collect();
                o.push(("upvars", J::A(ups)));
            }
            ty::Dynamic(..) => o.push(("k", J::s("dyn"))),
            ty::FnPtr(..) => o.push(("k", J::s("fnptr"))),
            _ => o.push(("k", J::s("other"))),
        }
        o.push(("s", J::s(s)));
        self.types[id] = J::O(o);
        id
    }

    fn gargs(&mut self, env: Env, args: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                v.push(self.ty(env, t));
            } else if let Some(c) = a.as_const() {
                v.push(J::s(c.to_string()));
            }
        }
        J::A(v)
    }

    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        if !self.adts_seen.insert(def.did()) {
            return;
        }
        let tcx = self.tcx;
        let mut vs = vec![];
        if def.is_enum() {
            for (i, v) in def.variants().iter_enumerated() {
                let d = def.discriminant_for_variant(tcx, i);
                vs.push(J::O(vec![
                    ("name", J::s(v.name.to_string())),
                    ("discr", J::n(d.val as i128)),
                    ("fields", J::A(v.fields.iter().map(|f| J::s(f.name.to_string())).collect())),
                ]));
            }
        } else {
            for v in def.variants().iter() {
                vs.push(J::O(vec![
                    ("name", J::s(v.name.to_string())),
                    ("discr", J::n(0)),
                    ("fields", J::A(v.fields.iter().map(|f| J::s(f.name.to_string())).collect())),
                    (
                        "vis",
                        J::A(v.fields.iter().map(|f| J::s(format!("{:?}", f.vis))).collect()),
                    ),
                ]));
            }
        }
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let j = J::O(vec![
            ("path", J::s(self.full(def.did()))),
            ("kind", J::s(kind)),
            ("local", J::B(def.did().is_local())),
            ("variants", J::A(vs)),
        ]);
        self.adts.push(j);
    }

    fn local_adts(&mut self) -> J {
        let tcx = self.tcx;
        let mut out = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let def = id.to_def_id();
            if matches!(tcx.def_kind(def), DefKind::Struct | DefKind::Enum) {
                let adt = tcx.adt_def(def);
                self.adt(adt);
                let t = tcx.type_of(def).instantiate_identity().skip_norm_wip();
                let tj = self.ty(Some(def), t);
                out.push(J::O(vec![("path", J::s(self.full(def))), ("ty", tj)]));
            }
        }
        J::A(out)
    }

    fn local_consts(&mut self) -> J {
        let tcx = self.tcx;
        let mut out = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let def = id.to_def_id();
            if !matches!(tcx.def_kind(def), DefKind::Const { .. }) {
                continue;
            }
            if tcx.generics_of(def).requires_monomorphization(tcx) {
                continue;
            }
            let v = match tcx.const_eval_poly(def) {
                Ok(v) => {
                    let t = tcx.type_of(def).instantiate_identity().skip_norm_wip();
                    self.const_value(None, v, t)
                }
                Err(_) => J::Null,
            };
            out.push(J::O(vec![("path", J::s(self.full(def))), ("value", v)]));
        }
        J::A(out)
    }

    fn functions(&mut self) -> J {
        let tcx = self.tcx;
        let mut out = vec![];
        let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|k| tcx.def_path_str(k.to_def_id()));
        for ld in keys {
            let def = ld.to_def_id();
            let kind = tcx.def_kind(def);
            if !matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            let args = ty::GenericArgs::identity_for_item(tcx, def);
            let args = tcx.erase_and_anonymize_regions(args);
            let inst = Instance::new_raw(def, args);
            let id = self.want(Some(def), inst, None);
            let sig = tcx.fn_sig(def).instantiate_identity().skip_norm_wip().skip_binder();
            let ins: Vec<J> = sig.inputs().iter().map(|t| self.ty(Some(def), *t)).collect();
            let outt = self.ty(Some(def), sig.output());
            let name = tcx.item_name(def).to_string();
            let mut o = vec![
                ("path", J::s(self.full(def))),
                ("name", J::s(name)),
                ("inst", J::n(id as i128)),
                ("inputs", J::A(ins)),
                ("output", outt),
                ("vis", J::s(format!("{:?}", tcx.visibility(def)))),
                ("reach", J::B(tcx.effective_visibilities(()).is_reachable(ld))),
                ("exported", J::B(tcx.effective_visibilities(()).is_exported(ld))),
                ("unsafe", J::B(sig.safety().is_unsafe())),
                ("span", self.span(tcx.def_span(def))),
            ];
            o.push(("owner", self.owner(def)));
            // number of early/late generics
            let gs: Vec<J> = args.iter().filter_map(|a| a.as_type()).map(|t| self.ty(Some(def), t)).collect();
            o.push(("generics", J::A(gs)));
            let derived = tcx
                .opt_parent(def)
                .map(|p| matches!(tcx.def_kind(p), DefKind::Impl { .. }) && tcx.is_automatically_derived(p))
                .unwrap_or(false);
            o.push(("derived", J::B(derived)));
            out.push(J::O(o));
        }
        J::A(out)
    }

    /// trait / impl information for an associated item
    fn owner(&mut self, def: DefId) -> J {
        let tcx = self.tcx;
        let Some(ai) = tcx.opt_associated_item(def) else {
            return J::Null;
        };
        let parent = tcx.parent(def);
        match ai.container {
            ty::AssocContainer::Trait => J::O(vec![("kind", J::s("trait")), ("trait", J::s(self.full(parent)))]),
            ty::AssocContainer::InherentImpl => {
                let t = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                let tj = self.ty(Some(parent), t);
                J::O(vec![("kind", J::s("impl")), ("self", tj)])
            }
            ty::AssocContainer::TraitImpl(_) => {
                let tr = tcx.impl_trait_ref(parent).instantiate_identity().skip_norm_wip();
                let tj = self.ty(Some(parent), tr.self_ty());
                let a = self.gargs(Some(parent), tr.args);
                J::O(vec![
                    ("kind", J::s("traitimpl")),
                    ("trait", J::s(self.full(tr.def_id))),
                    ("self", tj),
                    ("args", a),
                ])
            }
        }
    }

    fn traits(&mut self) -> J {
        let tcx = self.tcx;
        let mut out = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let def = id.to_def_id();
            if tcx.def_kind(def) != DefKind::Trait {
                continue;
            }
            let mut items = vec![];
            for it in tcx.associated_items(def).in_definition_order() {
                if let Some(n) = it.opt_name() {
                    items.push(J::O(vec![
                        ("name", J::s(n.to_string())),
                        ("kind", J::s(format!("{:?}", tcx.def_kind(it.def_id)))),
                        ("default", J::B(tcx.defaultness(it.def_id).has_value())),
                    ]));
                }
            }
            out.push(J::O(vec![("path", J::s(self.full(def))), ("items", J::A(items))]));
        }
        J::A(out)
    }

    fn impls(&mut self) -> J {
        let tcx = self.tcx;
        let mut out = vec![];
        for imp in tcx.trait_impls_in_crate(LOCAL_CRATE) {
            let imp = *imp;
            let tr = tcx.impl_trait_ref(imp).instantiate_identity().skip_norm_wip();
            let env = Some(imp);
            let st = self.ty(env, tr.self_ty());
            let a = self.gargs(env, tr.args);
            let mut items = vec![];
            // walk the trait's items so that inherited defaults are included
            for it in tcx.associated_items(tr.def_id).in_definition_order() {
                let Some(name) = it.opt_name() else { continue };
                let mut o = vec![("name", J::s(name.to_string()))];
                let own = tcx
                    .associated_items(imp)
                    .in_definition_order()
                    .find(|x| x.opt_name() == Some(name))
                    .map(|x| x.def_id);
                o.push(("own", own.map(|d| J::s(self.full(d))).unwrap_or(J::Null)));
                if matches!(it.kind, ty::AssocKind::Fn { .. }) {
                    if let Some(d) = own {
                        let args = tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, d));
                        let i = self.want(Some(d), Instance::new_raw(d, args), None);
                        o.push(("inst", J::n(i as i128)));
                    }
                } else if matches!(it.kind, ty::AssocKind::Const { .. })
                    && tr.def_id.is_local()
                    && !tr.args.has_param()
                {
                    // value of the constant for this impl (evaluated by the compiler)
                    let cdef = own.unwrap_or(it.def_id);
                    let cargs = if own.is_some() { tcx.mk_args(&[]) } else { tr.args };
                    let ct = tcx.type_of(cdef).instantiate(tcx, cargs).skip_norm_wip();
                    let uc = mir::UnevaluatedConst { def: cdef, args: tcx.erase_and_anonymize_regions(cargs), promoted: None };
                    let c = mir::Const::Unevaluated(uc, ct);
                    let v = match c.eval(tcx, TypingEnv::fully_monomorphized(), rustc_span::DUMMY_SP) {
                        Ok(v) => self.const_value(None, v, tcx.erase_and_anonymize_regions(ct)),
                        Err(_) => J::Null,
                    };
                    o.push(("value", v));
                } else if matches!(it.kind, ty::AssocKind::Const { .. }) && tr.def_id.is_local() {
                    // generic impl: the value when it does not depend on the parameters
                    if let Some(d) = own {
                        let v = match tcx.const_eval_poly(d) {
                            Ok(v) => {
                                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                                self.const_value(None, v, t)
                            }
                            Err(_) => J::Null,
                        };
                        o.push(("value", v));
                    }
                }
                items.push(J::O(o));
            }
            out.push(J::O(vec![
                ("trait", J::s(self.full(tr.def_id))),
                ("self", st),
                ("args", a),
                ("items", J::A(items)),
                ("derived", J::B(tcx.is_automatically_derived(imp))),
                ("span", self.span(tcx.def_span(imp))),
            ]));
        }
        J::A(out)
    }

    fn want(&mut self, env: Env, inst: Instance<'tcx>, prom: Option<u32>) -> usize {
        let key_env = if inst.args.has_param() || inst.args.has_aliases() { env } else { None };
        if let Some(i) = self.inst_ids.get(&(key_env, inst, prom)) {
            return *i;
        }
        let id = self.insts.len();
        self.insts.push(None);
        self.inst_ids.insert((key_env, inst, prom), id);
        self.queue.push_back((id, key_env, inst, prom));
        id
    }

    fn include_body(&self, def: DefId) -> bool {
        if def.is_local() {
            return true;
        }
        let krate = self.tcx.crate_name(def.krate);
        match krate.as_str() {
            "std" | "alloc" => false,
            "core" => {
                // use the definition path (module path), which names impl blocks positionally
                let p = self.tcx.def_path(def).to_string_no_crate_verbose();
                let p = format!("core{p}");
                STD_BODY_PREFIXES.iter().any(|x| p.starts_with(x))
            }
            _ => true,
        }
    }

    fn is_overridden(&mut self, trait_item: DefId) -> bool {
        if let Some(b) = self.overridden.get(&trait_item) {
            return *b;
        }
        let tcx = self.tcx;
        let tr = tcx.parent(trait_item);
        let name = tcx.item_name(trait_item);
        let mut b = false;
        for imp in tcx.all_impls(tr) {
            if tcx.associated_items(imp).in_definition_order().any(|x| x.opt_name() == Some(name)) {
                b = true;
            }
        }
        self.overridden.insert(trait_item, b);
        b
    }

    /// Describe a callee: the named item with its arguments, and the resolved instance if any.
    fn callee(&mut self, env: Env, def: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let mut o = vec![("def", J::s(self.full(def)))];
        if let Some(n) = tcx.opt_item_name(def) {
            o.push(("name", J::s(n.to_string())));
        }
        o.push(("args", self.gargs(env, args)));
        let kind = tcx.def_kind(def);
        if let Some(t) = tcx.trait_of_assoc(def) {
            o.push(("trait", J::s(self.full(t))));
        }
        o.push(("local", J::B(def.is_local())));
        if matches!(kind, DefKind::Ctor(..)) {
            o.push(("ctor", J::B(true)));
            let p = tcx.parent(def);
            let (adt, variant) = if tcx.def_kind(p) == DefKind::Variant {
                let adt = tcx.parent(p);
                let v = tcx.adt_def(adt).variant_index_with_id(p);
                (adt, v.as_usize())
            } else {
                (p, 0)
            };
            o.push(("adt", J::s(self.full(adt))));
            o.push(("variant", J::n(variant as i128)));
            self.adt(tcx.adt_def(adt));
            return J::O(o);
        }
        let tenv = self.typing_env(env);
        match Instance::try_resolve(tcx, tenv, def, args) {
            Ok(Some(i)) => {
                let i = Instance { def: i.def, args: tcx.erase_and_anonymize_regions(i.args) };
                let id = self.want(env, i, None);
                o.push(("inst", J::n(id as i128)));
            }
            _ => {
                if def.is_local() && tcx.trait_of_assoc(def).is_some() && tcx.defaultness(def).has_value() && !self.is_overridden(def) {
                    let id = self.want(env, Instance::new_raw(def, args), None);
                    o.push(("inst", J::n(id as i128)));
                    o.push(("default", J::B(true)));
                }
            }
        }
        J::O(o)
    }

    fn instance_json(&mut self, env: Env, inst: Instance<'tcx>, prom: Option<u32>) -> J {
        let tcx = self.tcx;
        let def = inst.def_id();
        let mut o: Vec<(&'static str, J)> = vec![];
        o.push(("path", J::s(self.full(def))));
        o.push(("krate", J::s(tcx.crate_name(def.krate).to_string())));
        o.push(("local", J::B(def.is_local())));
        if let Some(e) = env {
            o.push(("env", J::s(self.full(e))));
        }
        if let Some(n) = tcx.opt_item_name(def) {
            o.push(("name", J::s(n.to_string())));
        }
        let kind = match inst.def {
            InstanceKind::Item(_) => "item",
            InstanceKind::Intrinsic(_) => "intrinsic",
            InstanceKind::LlvmIntrinsic(_) => "llvm",
            InstanceKind::Virtual(..) => "virtual",
            InstanceKind::Shim(s) => match s {
                ty::ShimKind::ClosureOnce { .. } => "closureonce",
                ty::ShimKind::FnPtr(..) => "fnptrshim",
                ty::ShimKind::Clone(..) => "cloneshim",
                ty::ShimKind::DropGlue(..) => "dropglue",
                _ => "shim",
            },
        };
        o.push(("kind", J::s(kind)));
        if let Some(p) = prom {
            o.push(("promoted", J::n(p as i128)));
        }
        let a = self.gargs(env, inst.args);
        o.push(("args", a));
        if matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn) {
            o.push(("owner", self.owner(def)));
        }
        if kind != "item" {
            return J::O(o);
        }
        if !matches!(
            tcx.def_kind(def),
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure
        ) && prom.is_none()
            && !matches!(tcx.def_kind(def), DefKind::Const { .. } | DefKind::AssocConst { .. })
        {
            return J::O(o);
        }
        if !self.include_body(def) {
            return J::O(o);
        }
        let body: mir::Body<'tcx> = if let Some(p) = prom {
            tcx.promoted_mir(def)[mir::Promoted::from_u32(p)].clone()
        } else if matches!(tcx.def_kind(def), DefKind::Const { .. } | DefKind::AssocConst { .. }) {
            if !def.is_local() || !tcx.is_mir_available(def) {
                return J::O(o);
            }
            tcx.mir_for_ctfe(def).clone()
        } else {
            if !tcx.is_mir_available(def) {
                return J::O(o);
            }
            tcx.optimized_mir(def).clone()
        };
        let tenv = self.typing_env(env);
        let body = inst.instantiate_mir_and_normalize_erasing_regions(tcx, tenv, ty::EarlyBinder::bind(tcx, body));
        o.push(("span", self.span(body.span)));
        o.push(("body", self.body(env, &body)));
        J::O(o)
    }

    fn body(&mut self, env: Env, b: &mir::Body<'tcx>) -> J {
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &b.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        let locals: Vec<J> = b
            .local_decls
            .iter_enumerated()
            .map(|(i, l)| {
                let t = self.ty(env, l.ty);
                let n = names.get(&i.as_usize()).map(|s| J::s(s.clone())).unwrap_or(J::Null);
                J::A(vec![t, n])
            })
            .collect();
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let stmts: Vec<J> = bb.statements.iter().filter_map(|s| self.stmt(env, b, s)).collect();
            let t = self.term(env, b, bb.terminator());
            blocks.push(J::O(vec![("s", J::A(stmts)), ("t", t), ("cleanup", J::B(bb.is_cleanup))]));
        }
        let mut o = vec![
            ("argc", J::n(b.arg_count as i128)),
            ("locals", J::A(locals)),
            ("blocks", J::A(blocks)),
        ];
        if let Some(l) = b.spread_arg {
            o.push(("spread", J::n(l.as_usize() as i128)));
        }
        J::O(o)
    }

    fn stmt(&mut self, env: Env, b: &mir::Body<'tcx>, s: &mir::Statement<'tcx>) -> Option<J> {
        use mir::StatementKind::*;
        match &s.kind {
            Assign(bx) => {
                let (p, r) = &**bx;
                let pj = self.place(env, b, p);
                let rj = self.rvalue(env, b, r);
                let sp = self.span(s.source_info.span);
                Some(J::A(vec![J::s("="), pj, rj, sp]))
            }
            SetDiscriminant { place, variant_index } => {
                let pj = self.place(env, b, place);
                Some(J::A(vec![J::s("setdiscr"), pj, J::n(variant_index.as_usize() as i128)]))
            }
            Intrinsic(i) => match &**i {
                mir::NonDivergingIntrinsic::Assume(op) => {
                    let oj = self.operand(env, b, op);
                    Some(J::A(vec![J::s("assume"), oj]))
                }
                _ => Some(J::A(vec![J::s("intrinsic")])),
            },
            StorageLive(_) | StorageDead(_) | Nop | FakeRead(..) | PlaceMention(..) | AscribeUserType(..) | ConstEvalCounter | Coverage(..) => None,
            _ => None,
        }
    }

    fn place(&mut self, env: Env, b: &mir::Body<'tcx>, p: &mir::Place<'tcx>) -> J {
        use mir::ProjectionElem::*;
        let tcx = self.tcx;
        let mut v = vec![J::n(p.local.as_usize() as i128)];
        let mut pt = mir::PlaceTy::from_ty(b.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                Deref => v.push(J::A(vec![J::s("*")])),
                Field(f, t) => {
                    let ftid = self.ty(env, t);
                    v.push(J::A(vec![J::s("."), J::n(f.as_usize() as i128), ftid]))
                }
                Index(l) => v.push(J::A(vec![J::s("[]"), J::n(l.as_usize() as i128)])),
                ConstantIndex { offset, from_end, .. } => {
                    v.push(J::A(vec![J::s("[c]"), J::n(offset as i128), J::B(from_end)]))
                }
                Subslice { from, to, from_end } => {
                    v.push(J::A(vec![J::s("[s]"), J::n(from as i128), J::n(to as i128), J::B(from_end)]))
                }
                Downcast(_, vi) => v.push(J::A(vec![J::s("as"), J::n(vi.as_usize() as i128)])),
                _ => v.push(J::A(vec![J::s("?")])),
            }
            pt = pt.projection_ty(tcx, e);
        }
        J::A(v)
    }

    fn operand(&mut self, env: Env, b: &mir::Body<'tcx>, op: &mir::Operand<'tcx>) -> J {
        match op {
            mir::Operand::Copy(p) => {
                let pj = self.place(env, b, p);
                J::A(vec![J::s("cp"), pj])
            }
            mir::Operand::Move(p) => {
                let pj = self.place(env, b, p);
                J::A(vec![J::s("mv"), pj])
            }
            mir::Operand::Constant(c) => {
                let cj = self.constant(env, &c.const_);
                J::A(vec![J::s("c"), cj])
            }
            _ => J::A(vec![J::s("rt")]),
        }
    }

    fn constant(&mut self, env: Env, c: &mir::Const<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        if let ty::FnDef(..) = t.kind() {
            let tj = self.ty(env, t);
            return J::O(vec![("c", J::s("fn")), ("ty", tj)]);
        }
        let tenv = self.typing_env(env);
        if let mir::Const::Unevaluated(u, _) = c {
            // keep the identity of named constants next to the value
            let named = if u.promoted.is_none() { Some(self.full(u.def)) } else { None };
            if !c.has_param() || true {
                if !u.args.has_param() {
                    if let Ok(v) = c.eval(tcx, tenv, rustc_span::DUMMY_SP) {
                        let mut j = self.const_value(env, v, t);
                        if let (J::O(o), Some(n)) = (&mut j, named) {
                            o.push(("named", J::s(n)));
                        }
                        return j;
                    }
                }
            }
            let tj = self.ty(env, t);
            let mut o = vec![("c", J::s("uneval")), ("ty", tj), ("def", J::s(self.full(u.def)))];
            o.push(("args", self.gargs(env, u.args)));
            if let Some(tr) = tcx.trait_of_assoc(u.def) {
                o.push(("trait", J::s(self.full(tr))));
            }
            if let Some(n) = tcx.opt_item_name(u.def) {
                o.push(("name", J::s(n.to_string())));
            }
            let args = tcx.erase_and_anonymize_regions(u.args);
            match u.promoted {
                Some(p) => {
                    let id = self.want(env, Instance::new_raw(u.def, args), Some(p.as_u32()));
                    o.push(("inst", J::n(id as i128)));
                    o.push(("promoted", J::n(p.as_u32() as i128)));
                }
                None => {
                    if let Ok(Some(i)) = Instance::try_resolve(tcx, tenv, u.def, args) {
                        let id = self.want(env, i, None);
                        o.push(("inst", J::n(id as i128)));
                    }
                }
            }
            return J::O(o);
        }
        match c.eval(tcx, tenv, rustc_span::DUMMY_SP) {
            Ok(v) => self.const_value(env, v, t),
            Err(_) => {
                let tj = self.ty(env, t);
                J::O(vec![("c", J::s("generic")), ("ty", tj), ("s", J::s(c.to_string()))])
            }
        }
    }

    fn const_value(&mut self, env: Env, v: mir::ConstValue, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        match v {
            mir::ConstValue::ZeroSized => {
                let tj = self.ty(env, t);
                J::O(vec![("c", J::s("zst")), ("ty", tj)])
            }
            mir::ConstValue::Scalar(s) => self.scalar(env, s, t, 0),
            mir::ConstValue::Slice { alloc_id, meta } => {
                let tj = self.ty(env, t);
                let inner = match t.kind() {
                    ty::Ref(_, i, _) => self.slice_at(env, alloc_id, Size::ZERO, meta, *i, 0),
                    _ => J::Null,
                };
                J::O(vec![("c", J::s("ref")), ("ty", tj), ("v", inner)])
            }
            mir::ConstValue::Indirect { alloc_id, offset } => self.at(env, alloc_id, offset, t, 0),
        }
    }

    fn scalar(&mut self, env: Env, s: Scalar, t: Ty<'tcx>, depth: u32) -> J {
        let tcx = self.tcx;
        let tj = self.ty(env, t);
        match s {
            Scalar::Int(i) => {
                let size = i.size();
                let raw = i.to_bits(size);
                match t.kind() {
                    ty::Adt(def, _) if def.is_enum() => {
                        // fieldless enum (or niche): find variant by discriminant
                        for (vi, _) in def.variants().iter_enumerated() {
                            let d = def.discriminant_for_variant(tcx, vi);
                            if d.val & mask(size) == raw {
                                return J::O(vec![
                                    ("c", J::s("adt")),
                                    ("ty", tj),
                                    ("variant", J::n(vi.as_usize() as i128)),
                                    ("fields", J::A(vec![])),
                                ]);
                            }
                        }
                        J::O(vec![("c", J::s("opaque")), ("ty", tj)])
                    }
                    ty::Adt(def, args) if def.is_struct() => {
                        // single scalar field struct
                        let mut fs = vec![];
                        for f in def.non_enum_variant().fields.iter() {
                            let ft = f.ty(tcx, args).skip_norm_wip();
                            let ft = tcx.normalize_erasing_regions(TypingEnv::fully_monomorphized(), ty::Unnormalized::new_wip(ft));
                            let lay = tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(ft));
                            match lay {
                                Ok(l) if l.is_zst() => {
                                    let ftj = self.ty(env, ft);
                                    fs.push(J::O(vec![("c", J::s("zst")), ("ty", ftj)]));
                                }
                                _ => fs.push(self.scalar(env, s, ft, depth)),
                            }
                        }
                        J::O(vec![("c", J::s("adt")), ("ty", tj), ("variant", J::n(0)), ("fields", J::A(fs))])
                    }
                    ty::Int(_) => {
                        let sv = i.to_int(size);
                        J::O(vec![("c", J::s("int")), ("ty", tj), ("v", J::s(sv.to_string()))])
                    }
                    ty::Uint(_) => J::O(vec![("c", J::s("int")), ("ty", tj), ("v", J::s(raw.to_string()))]),
                    ty::Bool => J::O(vec![("c", J::s("bool")), ("ty", tj), ("v", J::B(raw != 0))]),
                    ty::Char => J::O(vec![("c", J::s("char")), ("ty", tj), ("v", J::s(raw.to_string()))]),
                    _ => J::O(vec![("c", J::s("bits")), ("ty", tj), ("v", J::s(raw.to_string()))]),
                }
            }
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.prov_and_relative_offset();
                let aid = prov.alloc_id();
                if depth > 6 {
                    return J::O(vec![("c", J::s("opaque")), ("ty", tj)]);
                }
                match (t.kind(), tcx.global_alloc(aid)) {
                    (ty::Ref(_, i, _), GlobalAlloc::Memory(_)) => {
                        let inner = self.at(env, aid, off, *i, depth + 1);
                        J::O(vec![("c", J::s("ref")), ("ty", tj), ("v", inner)])
                    }
                    _ => J::O(vec![("c", J::s("opaque")), ("ty", tj)]),
                }
            }
        }
    }

    fn slice_at(&mut self, env: Env, aid: AllocId, off: Size, len: u64, t: Ty<'tcx>, depth: u32) -> J {
        let tcx = self.tcx;
        let tj = self.ty(env, t);
        match t.kind() {
            ty::Str => {
                if let GlobalAlloc::Memory(m) = tcx.global_alloc(aid) {
                    let a = off.bytes() as usize;
                    let bytes = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(a..a + len as usize);
                    return J::O(vec![
                        ("c", J::s("str")),
                        ("ty", tj),
                        ("v", J::s(String::from_utf8_lossy(bytes).to_string())),
                    ]);
                }
                J::Null
            }
            ty::Slice(e) => {
                let Ok(l) = tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(*e)) else {
                    return J::Null;
                };
                let mut v = vec![];
                for i in 0..len.min(512) {
                    v.push(self.at(env, aid, off + l.size * i, *e, depth + 1));
                }
                J::O(vec![("c", J::s("array")), ("ty", tj), ("elems", J::A(v))])
            }
            _ => J::Null,
        }
    }

    fn at(&mut self, env: Env, aid: AllocId, off: Size, t: Ty<'tcx>, depth: u32) -> J {
        let tcx = self.tcx;
        let tj = self.ty(env, t);
        let opaque = |tj: J| J::O(vec![("c", J::s("opaque")), ("ty", tj)]);
        if depth > 8 {
            return opaque(tj);
        }
        let GlobalAlloc::Memory(m) = tcx.global_alloc(aid) else {
            return opaque(tj);
        };
        let tenv = TypingEnv::fully_monomorphized();
        if t.has_param() {
            return opaque(tj);
        }
        let Ok(l) = tcx.layout_of(tenv.as_query_input(t)) else {
            return opaque(tj);
        };
        let dl = &tcx.data_layout;
        let read = |off: Size, size: Size, ptr: bool| m.inner().read_scalar(dl, AllocRange { start: off, size }, ptr).ok();
        match t.kind() {
            ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char | ty::Float(_) => match read(off, l.size, false) {
                Some(s) => self.scalar(env, s, t, depth),
                None => opaque(tj),
            },
            ty::Ref(_, inner, _) => {
                let ps = dl.pointer_size();
                match inner.kind() {
                    ty::Str | ty::Slice(_) => {
                        let (Some(Scalar::Ptr(p, _)), Some(Scalar::Int(n))) = (read(off, ps, true), read(off + ps, ps, false)) else {
                            return opaque(tj);
                        };
                        let (prov, o2) = p.prov_and_relative_offset();
                        let v = self.slice_at(env, prov.alloc_id(), o2, n.to_bits(ps) as u64, *inner, depth + 1);
                        J::O(vec![("c", J::s("ref")), ("ty", tj), ("v", v)])
                    }
                    _ => match read(off, ps, true) {
                        Some(s) => self.scalar(env, s, t, depth),
                        None => opaque(tj),
                    },
                }
            }
            ty::Array(e, n) => {
                let Some(n) = n.try_to_target_usize(tcx) else { return opaque(tj) };
                let Ok(el) = tcx.layout_of(tenv.as_query_input(*e)) else { return opaque(tj) };
                let mut v = vec![];
                for i in 0..n.min(512) {
                    v.push(self.at(env, aid, off + el.size * i, *e, depth + 1));
                }
                J::O(vec![("c", J::s("array")), ("ty", tj), ("elems", J::A(v))])
            }
            ty::Tuple(ts) => {
                let mut v = vec![];
                for (i, e) in ts.iter().enumerate() {
                    v.push(self.at(env, aid, off + l.fields.offset(i), e, depth + 1));
                }
                J::O(vec![("c", J::s("tuple")), ("ty", tj), ("fields", J::A(v))])
            }
            ty::Adt(def, args) => {
                if def.is_enum() {
                    // destructure through the compiler's own helper
                    let cv = mir::ConstValue::Indirect { alloc_id: aid, offset: off };
                    if let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(cv, t) {
                        let vi = dc.variant.unwrap_or(VariantIdx::from_u32(0));
                        let mut fs = vec![];
                        for (v, ft) in dc.fields.iter() {
                            fs.push(self.const_value_d(env, *v, *ft, depth + 1));
                        }
                        return J::O(vec![
                            ("c", J::s("adt")),
                            ("ty", tj),
                            ("variant", J::n(vi.as_usize() as i128)),
                            ("fields", J::A(fs)),
                        ]);
                    }
                    return opaque(tj);
                }
                if def.is_struct() {
                    let mut fs = vec![];
                    for (i, f) in def.non_enum_variant().fields.iter_enumerated() {
                        let ft = f.ty(tcx, args).skip_norm_wip();
                        let ft = tcx.normalize_erasing_regions(tenv, ty::Unnormalized::new_wip(ft));
                        let _ = FieldIdx::from_usize(i.as_usize());
                        fs.push(self.at(env, aid, off + l.fields.offset(i.as_usize()), ft, depth + 1));
                    }
                    return J::O(vec![("c", J::s("adt")), ("ty", tj), ("variant", J::n(0)), ("fields", J::A(fs))]);
                }
                opaque(tj)
            }
            _ => opaque(tj),
        }
    }

    fn const_value_d(&mut self, env: Env, v: mir::ConstValue, t: Ty<'tcx>, depth: u32) -> J {
        if depth > 8 {
            return J::Null;
        }
        self.const_value(env, v, t)
    }

    fn rvalue(&mut self, env: Env, b: &mir::Body<'tcx>, r: &mir::Rvalue<'tcx>) -> J {
        use mir::Rvalue::*;
        match r {
            Use(op, ..) => {
                let o = self.operand(env, b, op);
                J::A(vec![J::s("use"), o])
            }
            Repeat(op, n) => {
                let o = self.operand(env, b, op);
                let len = n.try_to_target_usize(self.tcx).map(|x| J::n(x)).unwrap_or(J::Null);
                J::A(vec![J::s("repeat"), o, len])
            }
            Ref(_, k, p) => {
                let pj = self.place(env, b, p);
                let m = matches!(k, mir::BorrowKind::Mut { .. });
                J::A(vec![J::s("ref"), J::B(m), pj])
            }
            RawPtr(_, p) => {
                let pj = self.place(env, b, p);
                J::A(vec![J::s("addr"), pj])
            }
            Cast(k, op, t) => {
                let o = self.operand(env, b, op);
                let from = self.ty(env, op.ty(b, self.tcx));
                let tj = self.ty(env, *t);
                J::A(vec![J::s("cast"), J::s(format!("{k:?}")), o, tj, from])
            }
            BinaryOp(op, ab) => {
                let t = ab.0.ty(b, self.tcx);
                let x = self.operand(env, b, &ab.0);
                let y = self.operand(env, b, &ab.1);
                let tj = self.ty(env, t);
                J::A(vec![J::s("bin"), J::s(format!("{op:?}")), x, y, tj])
            }
            UnaryOp(op, x) => {
                let t = x.ty(b, self.tcx);
                let xj = self.operand(env, b, x);
                let tj = self.ty(env, t);
                J::A(vec![J::s("un"), J::s(format!("{op:?}")), xj, tj])
            }
            Discriminant(p) => {
                let pj = self.place(env, b, p);
                let t = p.ty(b, self.tcx).ty;
                let tj = self.ty(env, t);
                J::A(vec![J::s("discr"), pj, tj])
            }
            Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|o| self.operand(env, b, o)).collect();
                let t = r.ty(b, self.tcx);
                let tj = self.ty(env, t);
                let kj = match &**k {
                    mir::AggregateKind::Array(_) => J::A(vec![J::s("array")]),
                    mir::AggregateKind::Tuple => J::A(vec![J::s("tuple")]),
                    mir::AggregateKind::Adt(_, vi, _, _, _) => J::A(vec![J::s("adt"), J::n(vi.as_usize() as i128)]),
                    mir::AggregateKind::Closure(..) => J::A(vec![J::s("closure")]),
                    mir::AggregateKind::RawPtr(..) => J::A(vec![J::s("rawptr")]),
                    _ => J::A(vec![J::s("other")]),
                };
                J::A(vec![J::s("agg"), kj, J::A(v), tj])
            }
            CopyForDeref(p) => {
                let pj = self.place(env, b, p);
                J::A(vec![J::s("use"), J::A(vec![J::s("cp"), pj])])
            }
            other => J::A(vec![J::s("other"), J::s(format!("{other:?}"))]),
        }
    }

    fn term(&mut self, env: Env, b: &mir::Body<'tcx>, t: &mir::Terminator<'tcx>) -> J {
        use mir::TerminatorKind::*;
        let bbj = |x: &mir::BasicBlock| J::n(x.as_usize() as i128);
        let sp = self.span(t.source_info.span);
        match &t.kind {
            Goto { target, .. } => J::A(vec![J::s("goto"), bbj(target)]),
            SwitchInt { discr, targets } => {
                let o = self.operand(env, b, discr);
                let tt = discr.ty(b, self.tcx);
                let tj = self.ty(env, tt);
                let arms: Vec<J> = targets
                    .iter()
                    .map(|(v, bb)| J::A(vec![J::s(v.to_string()), J::n(bb.as_usize() as i128)]))
                    .collect();
                J::A(vec![J::s("switch"), o, J::A(arms), bbj(&targets.otherwise()), tj, sp])
            }
            Return => J::A(vec![J::s("return")]),
            Unreachable => J::A(vec![J::s("unreachable")]),
            UnwindResume | UnwindTerminate(_) => J::A(vec![J::s("resume")]),
            Drop { place, target, .. } => {
                let pj = self.place(env, b, place);
                let tt = place.ty(b, self.tcx).ty;
                let tj = self.ty(env, tt);
                J::A(vec![J::s("drop"), pj, bbj(target), tj])
            }
            Call { func, args, destination, target, .. } => {
                let ft = func.ty(b, self.tcx);
                let f = match ft.kind() {
                    ty::FnDef(def, a) => {
                        let c = self.callee(env, *def, a.no_bound_vars().unwrap_or_else(|| a.skip_binder()));
                        c
                    }
                    _ => {
                        let o = self.operand(env, b, func);
                        J::O(vec![("ptr", o)])
                    }
                };
                let aj: Vec<J> = args.iter().map(|x| self.operand(env, b, &x.node)).collect();
                let at: Vec<J> = args
                    .iter()
                    .map(|x| {
                        let t = x.node.ty(b, self.tcx);
                        self.ty(env, t)
                    })
                    .collect();
                let dj = self.place(env, b, destination);
                let tj = target.as_ref().map(bbj).unwrap_or(J::Null);
                let dt = destination.ty(b, self.tcx).ty;
                let dtj = self.ty(env, dt);
                J::A(vec![J::s("call"), f, J::A(aj), dj, tj, sp, J::A(at), dtj])
            }
            Assert { cond, expected, msg, target, .. } => {
                let c = self.operand(env, b, cond);
                use mir::AssertKind::*;
                let m = match &**msg {
                    BoundsCheck { len, index } => {
                        let l = self.operand(env, b, len);
                        let i = self.operand(env, b, index);
                        J::A(vec![J::s("bounds"), l, i])
                    }
                    Overflow(op, x, y) => {
                        let tt = x.ty(b, self.tcx);
                        let tj = self.ty(env, tt);
                        let x = self.operand(env, b, x);
                        let y = self.operand(env, b, y);
                        J::A(vec![J::s("overflow"), J::s(format!("{op:?}")), x, y, tj])
                    }
                    OverflowNeg(x) => {
                        let x = self.operand(env, b, x);
                        J::A(vec![J::s("negoverflow"), x])
                    }
                    DivisionByZero(x) | RemainderByZero(x) => {
                        let x = self.operand(env, b, x);
                        J::A(vec![J::s("divzero"), x])
                    }
                    other => J::A(vec![J::s("other"), J::s(format!("{other:?}"))]),
                };
                J::A(vec![J::s("assert"), c, J::B(*expected), m, bbj(target), sp])
            }
            other => J::A(vec![J::s("other"), J::s(format!("{other:?}"))]),
        }
    }
}

fn mask(size: Size) -> u128 {
    if size.bytes() >= 16 { u128::MAX } else { (1u128 << size.bits()) - 1 }
}

/// every construct of the crate's own source (not of foreign macros) that switches the compiler's memory checks off
struct Unsafe<'tcx> {
    tcx: TyCtxt<'tcx>,
    found: Vec<(&'static str, DefId, Span)>,
}

impl<'tcx> Unsafe<'tcx> {
    fn add(&mut self, kind: &'static str, owner: DefId, span: Span) {
        let foreign = span.from_expansion() && span.ctxt().outer_expn_data().macro_def_id.is_some_and(|m| !m.is_local());
        if !foreign {
            self.found.push((kind, owner, span));
        }
    }
}

impl<'tcx> Visitor<'tcx> for Unsafe<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;

    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }

    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            self.add("block", self.tcx.hir_enclosing_body_owner(b.hir_id).to_def_id(), b.span);
        }
        intravisit::walk_block(self, b);
    }

    fn visit_item(&mut self, i: &'tcx rustc_hir::Item<'tcx>) {
        let def = i.owner_id.to_def_id();
        match &i.kind {
            rustc_hir::ItemKind::Impl(im) => {
                if im.of_trait.is_some_and(|t| t.safety.is_unsafe()) {
                    self.add("impl", def, i.span);
                }
            }
            rustc_hir::ItemKind::Static(m, ..) => {
                if m.is_mut() {
                    self.add("static mut", def, i.span);
                }
            }
            rustc_hir::ItemKind::ForeignMod { .. } => self.add("foreign functions", def, i.span),
            rustc_hir::ItemKind::Union(..) => self.add("union", def, i.span),
            _ => {}
        }
        intravisit::walk_item(self, i);
    }
}

impl<'tcx> D<'tcx> {
    fn unsafe_code(&mut self) -> J {
        let mut v = Unsafe { tcx: self.tcx, found: vec![] };
        self.tcx.hir_visit_all_item_likes_in_crate(&mut v);
        let mut out = vec![];
        for (k, d, s) in v.found {
            out.push(J::O(vec![("kind", J::s(k)), ("owner", J::s(self.full(d))), ("span", self.span(s))]));
        }
        J::A(out)
    }
}
