use rustc_abi::{FieldIdx, VariantIdx};
use rustc_data_structures::fx::FxHashMap;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_index::IndexVec;
use rustc_middle::mir::{
    self, AggregateKind, AssertKind, Body, CastKind, Const, ConstValue, Operand, Place,
    ProjectionElem, Promoted, Rvalue, StatementKind, TerminatorKind,
};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{
    self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv,
};
use rustc_span::Span;
use std::collections::VecDeque;
use std::fmt::Write as _;

// ---------------------------------------------------------------------------------------------
// A minimal JSON value.
pub enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(Vec<(String, J)>),
}
fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{}", i);
            }
            J::S(s) => esc(s, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
            J::M(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}
fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}
fn n(x: usize) -> J {
    J::I(x as i128)
}

// External functions whose own MIR is exported so that the analysis can look through them instead
// of modelling them.
const TRANSPARENT: &[&str] = &[
    "std::option::Option::",
    "std::result::Result::",
    "core::option::",
    "core::result::",
    "std::option::",
    "std::result::",
    "std::ops::Try::",
    "std::ops::FromResidual::",
    "std::convert::",
    "core::convert::",
    "std::cmp::",
    "core::cmp::",
    "std::ops::Fn",
    "core::ops::",
    "core::bool::",
];

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
enum Unit<'tcx> {
    Inst(Instance<'tcx>),
    Promoted(Instance<'tcx>, Promoted),
}

struct Ex<'tcx> {
    tcx: TyCtxt<'tcx>,
    bodies: FxHashMap<LocalDefId, (Body<'tcx>, IndexVec<Promoted, Body<'tcx>>)>,
    ids: FxHashMap<Unit<'tcx>, usize>,
    queue: VecDeque<Unit<'tcx>>,
    tys: FxHashMap<Ty<'tcx>, usize>,
    ty_out: Vec<J>,
    ty_queue: VecDeque<(usize, Ty<'tcx>)>,
    fns: Vec<J>,
    env: TypingEnv<'tcx>,
}

pub fn export<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let mut bodies = FxHashMap::default();
    let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
    for def in owners {
        let kind = tcx.def_kind(def);
        match kind {
            DefKind::Fn
            | DefKind::AssocFn
            | DefKind::Closure
            | DefKind::Const { .. }
            | DefKind::AssocConst { .. }
            | DefKind::Static { .. } => {}
            _ => continue,
        }
        let (b, p) = tcx.mir_promoted(def);
        bodies.insert(def, (b.borrow().clone(), p.borrow().clone()));
    }
    let mut ex = Ex {
        tcx,
        bodies,
        ids: Default::default(),
        queue: Default::default(),
        tys: Default::default(),
        ty_out: vec![],
        ty_queue: Default::default(),
        fns: vec![],
        env: TypingEnv::fully_monomorphized(),
    };
    let text = with_no_trimmed_paths!(ex.run());
    std::fs::write(out, text).expect("write export");
}

impl<'tcx> Ex<'tcx> {
    fn run(&mut self) -> String {
        let tcx = self.tcx;
        let mut roots: Vec<(String, J)> = vec![];
        if let Some((main, _)) = tcx.entry_fn(()) {
            let i = Instance::mono(tcx, main);
            let id = self.unit(Unit::Inst(i));
            roots.push(("main".into(), n(id)));
        }
        // Every method of every local, non-generic trait impl: reachable through vtables.
        let mut impls: Vec<J> = vec![];
        for &imp in tcx.trait_impls_in_crate(LOCAL_CRATE) {
            let tr = tcx.impl_trait_ref(imp).instantiate_identity().skip_normalization();
            let generics = tcx.generics_of(imp);
            if generics.own_requires_monomorphization() {
                continue;
            }
            let derived = tcx.is_automatically_derived(imp);
            let mut items: Vec<(String, J)> = vec![];
            for item in tcx.associated_items(imp).in_definition_order() {
                if !matches!(tcx.def_kind(item.def_id), DefKind::AssocFn) {
                    continue;
                }
                if tcx.generics_of(item.def_id).own_requires_monomorphization() {
                    continue;
                }
                let args = ty::GenericArgs::for_item(tcx, item.def_id, |p, _| {
                    match p.kind {
                        ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                        _ => unreachable!(),
                    }
                });
                let inst = Instance::new_raw(item.def_id, args);
                let id = self.unit(Unit::Inst(inst));
                items.push((tcx.item_name(item.def_id).to_string(), n(id)));
            }
            let st = tcx.erase_and_anonymize_regions(tr.self_ty());
            let st = self.ty(st);
            let targs: Vec<J> = tr
                .args
                .types()
                .collect::<Vec<_>>()
                .into_iter()
                .map(|t| {
                    let t = tcx.erase_and_anonymize_regions(t);
                    n(self.ty(t))
                })
                .collect();
            impls.push(J::O(vec![
                ("trait", s(tcx.def_path_str(tr.def_id))),
                ("self", n(st)),
                ("args", J::A(targs)),
                ("derived", J::B(derived)),
                ("items", J::M(items)),
            ]));
        }
        // Constants and inherent fns that are not generic (dead code is reported, not analysed).
        let mut all: Vec<(String, J)> = vec![];
        let mut keys: Vec<LocalDefId> = self.bodies.keys().copied().collect();
        keys.sort_by_key(|d| tcx.def_path_str(d.to_def_id()));
        for d in keys {
            let kind = tcx.def_kind(d);
            if matches!(kind, DefKind::Const { .. } | DefKind::AssocConst { .. })
                && !tcx.generics_of(d).requires_monomorphization(tcx)
            {
                let i = Instance::new_raw(d.to_def_id(), ty::List::empty());
                let id = self.unit(Unit::Inst(i));
                all.push((tcx.def_path_str(d.to_def_id()), n(id)));
            }
        }
        // Bodies name types and types name bodies (closures): drain both until neither grows.
        loop {
            if let Some(u) = self.queue.pop_front() {
                let id = self.ids[&u];
                let j = self.body_of(u);
                while self.fns.len() <= id {
                    self.fns.push(J::Null);
                }
                self.fns[id] = j;
            } else if let Some((id, t)) = self.ty_queue.pop_front() {
                let j = self.ty_json(t);
                while self.ty_out.len() <= id {
                    self.ty_out.push(J::Null);
                }
                self.ty_out[id] = j;
            } else {
                break;
            }
        }
        let mut owners: Vec<String> = self
            .bodies
            .keys()
            .filter(|d| matches!(tcx.def_kind(**d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure))
            .map(|d| tcx.def_path_str(d.to_def_id()))
            .collect();
        owners.sort();
        let fns = std::mem::take(&mut self.fns);
        let tys = std::mem::take(&mut self.ty_out);
        let mut o = String::new();
        J::O(vec![
            ("roots", J::M(roots)),
            ("consts", J::M(all)),
            ("impls", J::A(impls)),
            ("owners", J::A(owners.into_iter().map(J::S).collect())),
            ("fns", J::A(fns)),
            ("tys", J::A(tys)),
        ])
        .w(&mut o);
        o
    }

    fn unit(&mut self, u: Unit<'tcx>) -> usize {
        if let Some(i) = self.ids.get(&u) {
            return *i;
        }
        let i = self.ids.len();
        self.ids.insert(u, i);
        self.queue.push_back(u);
        i
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.tys.len();
        self.tys.insert(t, i);
        self.ty_queue.push_back((i, t));
        i
    }

    fn ty_json(&mut self, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let name = ("s", s(t.to_string()));
        match t.kind() {
            ty::Bool => J::O(vec![("k", s("bool")), name]),
            ty::Char => J::O(vec![("k", s("char")), name]),
            ty::Int(_) | ty::Uint(_) => J::O(vec![("k", s("int")), name]),
            ty::Float(_) => J::O(vec![("k", s("float")), name]),
            ty::Str => J::O(vec![("k", s("str")), name]),
            ty::Never => J::O(vec![("k", s("never")), name]),
            ty::Array(e, l) => {
                let len = l.try_to_target_usize(tcx).unwrap_or(0);
                J::O(vec![("k", s("array")), name, ("ty", n(self.ty(*e))), ("len", n(len as usize))])
            }
            ty::Slice(e) => J::O(vec![("k", s("slice")), name, ("ty", n(self.ty(*e)))]),
            ty::RawPtr(e, m) => J::O(vec![
                ("k", s("ptr")),
                name,
                ("ty", n(self.ty(*e))),
                ("mut", J::B(m.is_mut())),
            ]),
            ty::Ref(_, e, m) => J::O(vec![
                ("k", s("ref")),
                name,
                ("ty", n(self.ty(*e))),
                ("mut", J::B(m.is_mut())),
            ]),
            ty::Tuple(l) => {
                let v: Vec<J> = l.iter().map(|e| n(self.ty(e))).collect();
                J::O(vec![("k", s("tuple")), name, ("tys", J::A(v))])
            }
            ty::FnDef(d, a) => {
                let a = a.skip_binder();
                let c = self.callee(*d, a);
                J::O(vec![("k", s("fndef")), name, ("callee", c)])
            }
            ty::FnPtr(..) => J::O(vec![("k", s("fnptr")), name]),
            ty::Closure(d, a) => {
                let inst = Instance::new_raw(*d, a);
                let id = if d.is_local() { n(self.unit(Unit::Inst(inst))) } else { J::Null };
                let up: Vec<J> = a
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|e| n(self.ty(e)))
                    .collect();
                J::O(vec![("k", s("closure")), name, ("inst", id), ("tys", J::A(up))])
            }
            ty::Dynamic(p, ..) => {
                let tr = p.principal_def_id().map(|d| s(tcx.def_path_str(d))).unwrap_or(J::Null);
                J::O(vec![("k", s("dyn")), name, ("trait", tr)])
            }
            ty::Adt(def, args) => {
                let path = tcx.def_path_str(def.did());
                let targs: Vec<J> = args.types().collect::<Vec<_>>().into_iter().map(|t| n(self.ty(t))).collect();
                let expand = def.did().is_local()
                    || def.is_enum() && tcx.crate_name(def.did().krate).as_str() != "clap_builder"
                    || path.starts_with("crossterm::event::")
                    || path.starts_with("num_rational::")
                    || path.starts_with("std::ops::Range")
                    || path.starts_with("std::iter::Enumerate");
                let kind = if def.is_enum() {
                    "enum"
                } else if def.is_union() {
                    "union"
                } else {
                    "struct"
                };
                let mut variants = vec![];
                if expand {
                    let discrs: Vec<i128> = if def.is_enum() {
                        def.discriminants(tcx)
                            .map(|(_, d)| {
                                // sign extend
                                match d.ty.kind() {
                                    ty::Int(it) => {
                                        let bits = it.bit_width().unwrap_or(64) as u32;
                                        let v = d.val as i128;
                                        let sh = 128 - bits;
                                        (v << sh) >> sh
                                    }
                                    _ => d.val as i128,
                                }
                            })
                            .collect()
                    } else {
                        vec![0]
                    };
                    for (vi, v) in def.variants().iter_enumerated() {
                        let fields: Vec<J> = v
                            .fields
                            .iter()
                            .map(|f| {
                                let fty = f.ty(tcx, args).skip_normalization();
                                let fty = tcx
                                    .try_normalize_erasing_regions(
                                        self.env,
                                        ty::Unnormalized::new(fty),
                                    )
                                    .unwrap_or(fty);
                                J::O(vec![("name", s(f.name.to_string())), ("ty", n(self.ty(fty)))])
                            })
                            .collect();
                        variants.push(J::O(vec![
                            ("name", s(v.name.to_string())),
                            ("discr", J::I(discrs.get(vi.as_usize()).copied().unwrap_or(0))),
                            ("fields", J::A(fields)),
                        ]));
                    }
                }
                J::O(vec![
                    ("k", s("adt")),
                    name,
                    ("path", s(path)),
                    ("adt", s(kind)),
                    ("local", J::B(def.did().is_local())),
                    ("args", J::A(targs)),
                    ("variants", J::A(variants)),
                ])
            }
            _ => J::O(vec![("k", s("other")), name]),
        }
    }

    /// A resolved callee.
    fn callee(&mut self, did: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let mut o: Vec<(&'static str, J)> = vec![
            ("path", s(tcx.def_path_str(did))),
            ("name", s(tcx.opt_item_name(did).map(|x| x.to_string()).unwrap_or_default())),
            ("krate", s(tcx.crate_name(did.krate).to_string())),
        ];
        let targs: Vec<J> =
            args.types().collect::<Vec<_>>().into_iter().map(|t| n(self.ty(t))).collect();
        o.push(("args", J::A(targs)));
        if let Some(tr) = tcx.trait_of_assoc(did) {
            o.push(("trait", s(tcx.def_path_str(tr))));
        } else if let Some(imp) = tcx.impl_of_assoc(did) {
            if matches!(tcx.def_kind(imp), DefKind::Impl { .. }) {
                let st = tcx.type_of(imp).instantiate(tcx, args).skip_normalization();
                let st = tcx.erase_and_anonymize_regions(st);
                let st = tcx
                    .try_normalize_erasing_regions(self.env, ty::Unnormalized::new(st))
                    .unwrap_or(st);
                o.push(("self", n(self.ty(st))));
            }
        }
        if matches!(tcx.def_kind(did), DefKind::Ctor(..)) {
            // Tuple struct / variant constructor used as a function.
            let parent = tcx.parent(did);
            let (adt_did, vidx) = if matches!(tcx.def_kind(parent), DefKind::Variant) {
                let adt = tcx.parent(parent);
                let d = tcx.adt_def(adt);
                (adt, d.variant_index_with_id(parent).as_usize())
            } else {
                (parent, 0)
            };
            let t = Ty::new_adt(tcx, tcx.adt_def(adt_did), args);
            o.push(("kind", s("ctor")));
            o.push(("adt", n(self.ty(t))));
            o.push(("variant", n(vidx)));
            return J::O(o);
        }
        let has_param = args.types().any(|t| format!("{:?}", t).contains("/#"));
        let inst = if has_param {
            None
        } else {
            Instance::try_resolve(tcx, self.env, did, args).ok().flatten()
        };
        match inst {
            None => o.push(("kind", s("unresolved"))),
            Some(i) => {
                match i.def {
                    InstanceKind::Item(d) => {
                        o.push(("kind", s("item")));
                        o.push(("rpath", s(tcx.def_path_str(d))));
                        o.push(("rkrate", s(tcx.crate_name(d.krate).to_string())));
                        if let Some(id) = self.want(i) {
                            o.push(("inst", n(id)));
                        }
                        if let Some(imp) = tcx.impl_of_assoc(d) {
                            if tcx.is_automatically_derived(imp) {
                                o.push(("derived", J::B(true)));
                            }
                        }
                        let mut aux: Vec<(String, J)> = vec![];
                        self.aux(did, args, &mut aux);
                        if !aux.is_empty() {
                            o.push(("aux", J::M(aux)));
                        }
                    }
                    InstanceKind::Virtual(d, _) => {
                        o.push(("kind", s("virtual")));
                        o.push(("rpath", s(tcx.def_path_str(d))));
                    }
                    InstanceKind::Intrinsic(d) => {
                        o.push(("kind", s("intrinsic")));
                        o.push(("rpath", s(tcx.def_path_str(d))));
                    }
                    InstanceKind::Shim(ShimKind::ClosureOnce { closure, .. }) => {
                        o.push(("kind", s("closure_once")));
                        // args of the closure come from the self type
                        if let Some(t) = args.types().next() {
                            if let ty::Closure(cd, ca) = t.kind() {
                                debug_assert!(*cd == closure);
                                let ci = Instance::new_raw(*cd, ca);
                                if cd.is_local() {
                                    let id = self.unit(Unit::Inst(ci));
                                    o.push(("inst", n(id)));
                                }
                            }
                        }
                    }
                    InstanceKind::Shim(ShimKind::FnPtr(_, t)) => {
                        o.push(("kind", s("fnptr_shim")));
                        o.push(("fnty", n(self.ty(t))));
                    }
                    InstanceKind::Shim(ShimKind::Clone(..)) => o.push(("kind", s("clone_shim"))),
                    other => {
                        o.push(("kind", s("shim")));
                        o.push(("dbg", s(format!("{:?}", other))));
                    }
                }
            }
        }
        J::O(o)
    }

    fn want(&mut self, i: Instance<'tcx>) -> Option<usize> {
        let tcx = self.tcx;
        let d = i.def_id();
        if let Some(l) = d.as_local() {
            if self.bodies.contains_key(&l) {
                return Some(self.unit(Unit::Inst(i)));
            }
            return None;
        }
        let p = tcx.def_path_str(d);
        let in_impl = tcx
            .impl_of_assoc(d)
            .and_then(|imp| tcx.impl_opt_trait_ref(imp))
            .map(|t| tcx.def_path_str(t.skip_binder().def_id));
        let hit = TRANSPARENT.iter().any(|t| p.starts_with(t))
            || in_impl.as_deref().map_or(false, |t| TRANSPARENT.iter().any(|x| t.starts_with(x.trim_end_matches("::"))));
        if hit && tcx.is_mir_available(d) && !tcx.intrinsic(d).is_some() {
            let st = tcx.crate_name(d.krate);
            if ["core", "std", "alloc"].contains(&st.as_str()) {
                return Some(self.unit(Unit::Inst(i)));
            }
        }
        None
    }

    /// Resolve trait calls that happen inside external generic code and may land in this crate.
    fn aux(&mut self, did: DefId, args: GenericArgsRef<'tcx>, out: &mut Vec<(String, J)>) {
        let tcx = self.tcx;
        let path = tcx.def_path_str(did);
        let from = |ex: &mut Self, dst: Ty<'tcx>, src: Ty<'tcx>, out: &mut Vec<(String, J)>| {
            if let Some(tr) = tcx.get_diagnostic_item(rustc_span::sym::From) {
                for it in tcx.associated_items(tr).in_definition_order() {
                    if matches!(tcx.def_kind(it.def_id), DefKind::AssocFn) {
                        let a = tcx.mk_args(&[dst.into(), src.into()]);
                        let c = ex.callee(it.def_id, a);
                        out.push(("from".into(), c));
                    }
                }
            }
        };
        if path == "std::convert::Into::into" || path == "core::convert::Into::into" {
            let a: Vec<Ty<'tcx>> = args.types().collect();
            if a.len() >= 2 {
                from(self, a[1], a[0], out);
            }
        }
        if path.ends_with("FromResidual::from_residual") {
            let a: Vec<Ty<'tcx>> = args.types().collect();
            if a.len() >= 2 {
                if let (ty::Adt(d0, a0), ty::Adt(_, a1)) = (a[0].kind(), a[1].kind()) {
                    if tcx.def_path_str(d0.did()).ends_with("Result") {
                        from(self, a0.type_at(1), a1.type_at(1), out);
                    }
                }
            }
        }
        if path.ends_with("ToString::to_string") {
            // <T as Display>::fmt
            let a: Vec<Ty<'tcx>> = args.types().collect();
            if let Some(t) = a.first() {
                if let ty::Adt(d0, _) = t.kind() {
                    if d0.did().is_local() {
                        out.push(("display_self".into(), n(self.ty(*t))));
                    }
                }
            }
        }
    }

    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        let f = match f.find("/src/") {
            Some(i) => f[i + 1..].to_string(),
            None => f,
        };
        s(format!("{}:{}", f, lo.line))
    }

    fn body_of(&mut self, u: Unit<'tcx>) -> J {
        let tcx = self.tcx;
        let (inst, promoted) = match u {
            Unit::Inst(i) => (i, None),
            Unit::Promoted(i, p) => (i, Some(p)),
        };
        let did = inst.def_id();
        let raw: Body<'tcx> = match did.as_local() {
            Some(l) => match self.bodies.get(&l) {
                Some((b, ps)) => match promoted {
                    None => b.clone(),
                    Some(p) => ps[p].clone(),
                },
                None => return J::Null,
            },
            None => {
                if promoted.is_some() {
                    return J::Null;
                }
                tcx.instance_mir(inst.def).clone()
            }
        };
        let body = inst.instantiate_mir_and_normalize_erasing_regions(
            tcx,
            self.env,
            EarlyBinder::bind(tcx, raw),
        );
        let name = {
            let mut p = tcx.def_path_str_with_args(did, inst.args);
            if let Some(pr) = promoted {
                p.push_str(&format!("::promoted[{}]", pr.as_usize()));
            }
            p
        };
        let locals: Vec<J> = body.local_decls.iter().map(|d| n(self.ty(d.ty))).collect();
        let mut names: Vec<J> = vec![];
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(J::A(vec![n(p.local.as_usize()), s(v.name.to_string())]));
                }
            }
        }
        let mut blocks = vec![];
        for (_bb, data) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &data.statements {
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let pj = self.place(p, &body);
                        let rj = self.rvalue(r, &body, inst);
                        st.push(J::A(vec![s("="), pj, rj, self.span(x.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pj = self.place(place, &body);
                        st.push(J::A(vec![s("setdiscr"), pj, n(variant_index.as_usize())]));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(J::A(vec![s("dead"), n(l.as_usize())]))
                    }
                    _ => {}
                }
            }
            let t = data.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), n(target.as_usize())]),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::A(vec![s("goto"), n(real_target.as_usize())])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::A(vec![s("goto"), n(real_target.as_usize())])
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr, &body, inst);
                    let dty = discr.ty(&body.local_decls, tcx);
                    let v: Vec<J> = targets
                        .iter()
                        .map(|(val, bb)| {
                            let val = match dty.kind() {
                                ty::Int(it) => {
                                    let bits = it.bit_width().unwrap_or(64) as u32;
                                    let sh = 128 - bits;
                                    ((val as i128) << sh) >> sh
                                }
                                _ => val as i128,
                            };
                            J::A(vec![J::I(val), n(bb.as_usize())])
                        })
                        .collect();
                    let tyid = self.ty(dty);
                    J::A(vec![
                        s("switch"),
                        d,
                        J::A(v),
                        n(targets.otherwise().as_usize()),
                        sp,
                        n(tyid),
                    ])
                }
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let pj = self.place(place, &body);
                    J::A(vec![s("drop"), pj, n(target.as_usize()), sp])
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let fty = func.ty(&body.local_decls, tcx);
                    let c = match fty.kind() {
                        ty::FnDef(d, a) => self.callee(*d, a.skip_binder()),
                        _ => {
                            let f = self.operand(func, &body, inst);
                            J::O(vec![("kind", s("indirect")), ("op", f)])
                        }
                    };
                    let a: Vec<J> =
                        args.iter().map(|x| self.operand(&x.node, &body, inst)).collect();
                    let d = self.place(destination, &body);
                    let _ = fn_span;
                    J::A(vec![
                        s("call"),
                        c,
                        J::A(a),
                        d,
                        target.map(|t| n(t.as_usize())).unwrap_or(J::Null),
                        sp,
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, &body, inst);
                    let (k, ops): (String, Vec<J>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => (
                            "bounds".into(),
                            vec![self.operand(len, &body, inst), self.operand(index, &body, inst)],
                        ),
                        AssertKind::Overflow(op, a, b) => (
                            format!("overflow_{:?}", op),
                            vec![self.operand(a, &body, inst), self.operand(b, &body, inst)],
                        ),
                        AssertKind::OverflowNeg(a) => {
                            ("overflow_neg".into(), vec![self.operand(a, &body, inst)])
                        }
                        AssertKind::DivisionByZero(a) => {
                            ("div_zero".into(), vec![self.operand(a, &body, inst)])
                        }
                        AssertKind::RemainderByZero(a) => {
                            ("rem_zero".into(), vec![self.operand(a, &body, inst)])
                        }
                        other => (format!("other_{:?}", std::mem::discriminant(other)), vec![]),
                    };
                    J::A(vec![
                        s("assert"),
                        c,
                        J::B(*expected),
                        s(k),
                        J::A(ops),
                        n(target.as_usize()),
                        sp,
                    ])
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    J::A(vec![s("resume")])
                }
                other => J::A(vec![s("other"), s(format!("{:?}", other))]),
            };
            blocks.push(J::O(vec![
                ("c", J::B(data.is_cleanup)),
                ("s", J::A(st)),
                ("t", tj),
            ]));
        }
        let derived = tcx.impl_of_assoc(did).map_or(false, |i| tcx.is_automatically_derived(i));
        let closure = matches!(tcx.def_kind(did), DefKind::Closure);
        let parent = if closure {
            s(tcx.def_path_str(tcx.typeck_root_def_id(did)))
        } else {
            J::Null
        };
        let trait_of = tcx
            .impl_of_assoc(did)
            .and_then(|imp| tcx.impl_opt_trait_ref(imp))
            .map(|t| s(tcx.def_path_str(t.skip_binder().def_id)))
            .unwrap_or(J::Null);
        J::O(vec![
            ("name", s(name)),
            ("path", s(tcx.def_path_str(did))),
            ("item", s(tcx.opt_item_name(did).map(|x| x.to_string()).unwrap_or_default())),
            ("local", J::B(did.is_local())),
            ("derived", J::B(derived)),
            ("closure", J::B(closure)),
            ("parent", parent),
            ("trait", trait_of),
            ("span", self.span(body.span)),
            ("argc", n(body.arg_count)),
            ("spread", body.spread_arg.map(|l| n(l.as_usize())).unwrap_or(J::Null)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ])
    }

    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let mut v = vec![n(p.local.as_usize())];
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::A(vec![s("*"), n(self.ty(pt.ty))]),
                ProjectionElem::Field(f, t) => {
                    J::A(vec![s("."), n(f.as_usize()), n(self.ty(t)), n(self.ty(pt.ty))])
                }
                ProjectionElem::Index(l) => J::A(vec![s("[]"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    s("[c]"),
                    n(offset as usize),
                    n(min_length as usize),
                    J::B(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("[s]"), n(from as usize), n(to as usize), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, vi) => J::A(vec![s("as"), n(vi.as_usize()), n(self.ty(pt.ty))]),
                _ => J::A(vec![s("cast")]),
            };
            v.push(j);
            pt = pt.projection_ty(tcx, e);
        }
        J::A(vec![J::A(v), n(self.ty(pt.ty))])
    }

    fn operand(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>, inst: Instance<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("copy"), self.place(p, body)]),
            Operand::Move(p) => J::A(vec![s("move"), self.place(p, body)]),
            Operand::Constant(c) => {
                let v = self.constant(&c.const_, inst);
                let t = self.ty(c.const_.ty());
                J::A(vec![s("const"), v, n(t)])
            }
            Operand::RuntimeChecks(_) => {
                let t = self.ty(self.tcx.types.bool);
                J::A(vec![s("const"), J::O(vec![("int", J::I(1))]), n(t)])
            }
        }
    }

    fn constant(&mut self, c: &Const<'tcx>, _inst: Instance<'tcx>) -> J {
        let tcx = self.tcx;
        if let ty::FnDef(d, a) = c.ty().kind() {
            let cj = self.callee(*d, a.skip_binder());
            return J::O(vec![("fn", cj)]);
        }
        match c {
            Const::Unevaluated(u, _) if u.def.is_local() && self.bodies.contains_key(&u.def.expect_local()) => {
                let i = Instance::new_raw(u.def, tcx.erase_and_anonymize_regions(u.args));
                let id = match u.promoted {
                    Some(p) => self.unit(Unit::Promoted(i, p)),
                    None => self.unit(Unit::Inst(i)),
                };
                let nm = tcx.def_path_str(u.def);
                J::O(vec![("uneval", n(id)), ("name", s(nm))])
            }
            _ => {
                let nm = match c {
                    Const::Unevaluated(u, _) => Some(tcx.def_path_str(u.def)),
                    _ => None,
                };
                let v = c.eval(tcx, self.env, rustc_span::DUMMY_SP);
                let mut j = match v {
                    Ok(v) => self.value(v, c.ty(), 0),
                    Err(_) => J::O(vec![("opaque", s(format!("{}", c)))]),
                };
                if let (Some(nm), J::O(o)) = (nm, &mut j) {
                    o.push(("name", s(nm)));
                }
                j
            }
        }
    }

    fn value(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 12 {
            return J::O(vec![("opaque", s("deep"))]);
        }
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                if let Some(sc) = self.scalar_int(v, t) {
                    return J::O(vec![("int", J::I(sc))]);
                }
            }
            ty::Ref(_, inner, _) => {
                match inner.kind() {
                    ty::Str => {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            return J::O(vec![("str", s(String::from_utf8_lossy(b).into_owned()))]);
                        }
                    }
                    ty::Slice(e) if *e == tcx.types.u8 => {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            return J::O(vec![(
                                "bytes",
                                J::A(b.iter().map(|x| J::I(*x as i128)).collect()),
                            )]);
                        }
                    }
                    _ => {}
                }
                if let Some(mir::interpret::Scalar::Ptr(p, _)) = v.try_to_scalar() {
                    let (prov, off) = p.prov_and_relative_offset();
                    if let mir::interpret::GlobalAlloc::Memory(_) = tcx.global_alloc(prov.alloc_id()) {
                        let iv = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off };
                        let inner_j = if matches!(inner.kind(), ty::Slice(_) | ty::Str | ty::Dynamic(..)) {
                            J::O(vec![("opaque", s("unsized"))])
                        } else {
                            self.value(iv, *inner, depth + 1)
                        };
                        return J::O(vec![("ref", inner_j), ("rty", n(self.ty(*inner)))]);
                    }
                }
            }
            ty::FnDef(d, a) => {
                let c = self.callee(*d, a.skip_binder());
                return J::O(vec![("fn", c)]);
            }
            ty::Tuple(l) if l.is_empty() => return J::O(vec![("zst", J::Null)]),
            ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => {
                if let ConstValue::ZeroSized = v {
                    if !matches!(t.kind(), ty::Adt(d, _) if d.is_enum()) {
                        return J::O(vec![("agg", J::A(vec![])), ("variant", n(0))]);
                    }
                }
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let fields: Vec<J> = d
                        .fields
                        .iter()
                        .map(|(fv, ft)| {
                            let ft = tcx
                                .try_normalize_erasing_regions(self.env, ty::Unnormalized::new(*ft))
                                .unwrap_or(*ft);
                            J::A(vec![self.value(*fv, ft, depth + 1), n(self.ty(ft))])
                        })
                        .collect();
                    return J::O(vec![
                        ("agg", J::A(fields)),
                        ("variant", n(d.variant.unwrap_or(VariantIdx::from_u32(0)).as_usize())),
                    ]);
                }
            }
            _ => {}
        }
        if let ConstValue::ZeroSized = v {
            return J::O(vec![("zst", J::Null)]);
        }
        J::O(vec![("opaque", s(format!("{:?}", t)))])
    }

    fn scalar_int(&self, v: ConstValue, t: Ty<'tcx>) -> Option<i128> {
        let tcx = self.tcx;
        let size = tcx.layout_of(self.env.as_query_input(t)).ok()?.size;
        let bits = match v {
            ConstValue::Scalar(sc) => sc.to_bits(size).discard_err()?,
            ConstValue::Indirect { alloc_id, offset } => {
                let alloc = tcx.global_alloc(alloc_id).unwrap_memory();
                let b = alloc.inner().inspect_with_uninit_and_ptr_outside_interpreter(
                    offset.bytes_usize()..offset.bytes_usize() + size.bytes_usize(),
                );
                let mut x: u128 = 0;
                for (i, y) in b.iter().enumerate() {
                    x |= (*y as u128) << (8 * i);
                }
                x
            }
            _ => return None,
        };
        Some(match t.kind() {
            ty::Int(_) => {
                let sh = 128 - size.bits() as u32;
                ((bits as i128) << sh) >> sh
            }
            _ => bits as i128,
        })
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, inst: Instance<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.operand(o, body, inst)]),
            Rvalue::Repeat(o, c) => {
                let l = c.try_to_target_usize(self.tcx).unwrap_or(0);
                J::A(vec![s("repeat"), self.operand(o, body, inst), n(l as usize)])
            }
            Rvalue::Ref(_, k, p) => J::A(vec![
                s("ref"),
                self.place(p, body),
                J::B(matches!(k, mir::BorrowKind::Mut { .. })),
            ]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("ref"), self.place(p, body), J::B(true)]),
            Rvalue::Cast(k, o, t) => {
                let kn = match k {
                    CastKind::PointerCoercion(c, _) => format!("coerce_{:?}", c),
                    k => format!("{:?}", k),
                };
                let st = o.ty(&body.local_decls, self.tcx);
                let st = self.ty(st);
                J::A(vec![s("cast"), s(kn), self.operand(o, body, inst), n(self.ty(*t)), n(st)])
            }
            Rvalue::BinaryOp(op, b) => {
                let t = b.0.ty(&body.local_decls, self.tcx);
                let t = self.ty(t);
                J::A(vec![
                    s("bin"),
                    s(format!("{:?}", op)),
                    self.operand(&b.0, body, inst),
                    self.operand(&b.1, body, inst),
                    n(t),
                ])
            }
            Rvalue::UnaryOp(op, a) => {
                let t = a.ty(&body.local_decls, self.tcx);
                let t = self.ty(t);
                J::A(vec![s("un"), s(format!("{:?}", op)), self.operand(a, body, inst), n(t)])
            }
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p, body)]),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|o| self.operand(o, body, inst)).collect();
                let (kn, extra) = match &**k {
                    AggregateKind::Array(t) => ("array", vec![n(self.ty(*t))]),
                    AggregateKind::Tuple => ("tuple", vec![]),
                    AggregateKind::Adt(d, vi, a, _, f) => {
                        let t = Ty::new_adt(self.tcx, self.tcx.adt_def(*d), a);
                        let fi: Option<FieldIdx> = *f;
                        (
                            "adt",
                            vec![
                                n(self.ty(t)),
                                n(vi.as_usize()),
                                fi.map(|x| n(x.as_usize())).unwrap_or(J::Null),
                            ],
                        )
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(self.tcx, *d, a);
                        ("closure", vec![n(self.ty(t))])
                    }
                    _ => ("other", vec![]),
                };
                let mut o = vec![s("agg"), s(kn), J::A(v)];
                o.extend(extra);
                J::A(o)
            }
            Rvalue::CopyForDeref(p) => {
                let pj = self.place(p, body);
                J::A(vec![s("use"), J::A(vec![s("copy"), pj])])
            }
            Rvalue::Reborrow(_, m, p) => {
                J::A(vec![s("ref"), self.place(p, body), J::B(m.is_mut())])
            }
            other => J::A(vec![s("other"), s(format!("{:?}", other))]),
        }
    }
}
