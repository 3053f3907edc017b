//! What each public function may reach through the call graph: allocation, state outside its
//! arguments, foreign code. Calls on the caller's own types are the caller's.
use crate::run::{esc, list};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::visit::Visitor;
use rustc_middle::mir::*;
use rustc_middle::ty::adjustment::PointerCoercion;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv, Unnormalized};
use rustc_span::Span;
use std::collections::{BTreeSet, HashMap, HashSet};

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
enum Effect {
    Alloc,
    State,
}

struct Scan<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    inst: Instance<'tcx>,
    body: &'a Body<'tcx>,
    calls: Vec<(Instance<'tcx>, Span)>,
    found: Vec<(Effect, String, Span)>,
    sites: usize,
    open: usize,
}
impl<'a, 'tcx> Scan<'a, 'tcx> {
    fn mono<T: rustc_middle::ty::TypeFoldable<TyCtxt<'tcx>> + Clone>(&self, v: T) -> Option<T> {
        self.inst.try_instantiate_mir_and_normalize_erasing_regions(self.tcx, self.env, EarlyBinder::bind(self.tcx, v)).ok()
    }
    fn reach(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, at: Span) {
        self.sites += 1;
        match Instance::try_resolve(self.tcx, self.env, d, args) {
            Ok(Some(i)) => self.calls.push((i, at)),
            // a method of a type the caller chooses
            _ => self.open += 1,
        }
    }
    fn alloc(&mut self, id: rustc_middle::mir::interpret::AllocId, at: Span, depth: u32) {
        if depth > 6 {
            return;
        }
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Static(d) => self.global(d, at),
            GlobalAlloc::Function { instance } => self.calls.push((instance, at)),
            GlobalAlloc::VTable(t, tr) => {
                if let Some(tr) = tr.principal() {
                    self.vtable(t, tr.with_self_ty(self.tcx, t), at)
                }
            }
            GlobalAlloc::Memory(m) => {
                for (_, p) in m.inner().provenance().ptrs().iter() {
                    self.alloc(p.alloc_id(), at, depth + 1);
                }
            }
            _ => {}
        }
    }
    fn global(&mut self, d: DefId, at: Span) {
        let ty = self.tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let name = self.tcx.def_path_str(d);
        if self.tcx.is_mutable_static(d) {
            self.found.push((Effect::State, format!("uses the mutable static {name}"), at));
        } else if self.tcx.is_thread_local_static(d) {
            self.found.push((Effect::State, format!("uses the thread-local static {name}"), at));
        } else if !ty.is_freeze(self.tcx, self.env) {
            self.found.push((Effect::State, format!("uses the static {name}, which can change"), at));
        }
        if self.tcx.is_foreign_item(d) {
            self.found.push((Effect::State, format!("uses the foreign static {name}"), at));
        } else if let Ok(a) = self.tcx.eval_static_initializer(d) {
            for (_, p) in a.inner().provenance().ptrs().iter() {
                self.alloc(p.alloc_id(), at, 1);
            }
        }
    }
    fn vtable(&mut self, t: Ty<'tcx>, tr: ty::PolyTraitRef<'tcx>, at: Span) {
        if t.has_param() || t.has_escaping_bound_vars() {
            self.open += 1;
            return;
        }
        let tr = self.tcx.erase_and_anonymize_regions(self.tcx.instantiate_bound_regions_with_erased(tr));
        for e in self.tcx.vtable_entries(tr) {
            if let ty::VtblEntry::Method(i) = e {
                self.calls.push((*i, at));
            }
        }
    }
}
impl<'a, 'tcx> Visitor<'tcx> for Scan<'a, 'tcx> {
    fn visit_const_operand(&mut self, c: &ConstOperand<'tcx>, _l: Location) {
        let Some(k) = self.mono(c.const_) else { return };
        if let ty::FnDef(d, a) = k.ty().kind() {
            // named without being called: may be passed on
            let a = a.no_bound_vars().unwrap_or_else(|| a.skip_binder());
            self.reach(*d, a, c.span);
            return;
        }
        if let Ok(v) = k.eval(self.tcx, self.env, c.span) {
            match v {
                ConstValue::Scalar(Scalar::Ptr(p, _)) => self.alloc(p.provenance.alloc_id(), c.span, 0),
                ConstValue::Indirect { alloc_id, .. } | ConstValue::Slice { alloc_id, .. } => self.alloc(alloc_id, c.span, 0),
                _ => {}
            }
        }
    }
    fn visit_rvalue(&mut self, r: &Rvalue<'tcx>, l: Location) {
        let at = self.body.source_info(l).span;
        match r {
            Rvalue::ThreadLocalRef(d) => {
                let n = self.tcx.def_path_str(*d);
                self.found.push((Effect::State, format!("uses the thread-local static {n}"), at));
            }
            Rvalue::Cast(CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_), _), op, _) => {
                if let Some(t) = self.mono(op.ty(&self.body.local_decls, self.tcx))
                    && let ty::Closure(d, a) = t.kind()
                {
                    self.calls.push((Instance::resolve_closure(self.tcx, *d, a, ty::ClosureKind::FnOnce), at));
                }
            }
            Rvalue::Cast(CastKind::PointerCoercion(PointerCoercion::Unsize, _), op, to) => {
                let from = self.mono(op.ty(&self.body.local_decls, self.tcx));
                if let (Some(f), Some(t)) = (from, self.mono(*to))
                    && let (Some(f), Some(t)) = (f.builtin_deref(true), t.builtin_deref(true))
                    && let ty::Dynamic(p, ..) = t.kind()
                    && !matches!(f.kind(), ty::Dynamic(..))
                    && let Some(p) = p.principal()
                {
                    self.vtable(f, p.with_self_ty(self.tcx, f), at);
                }
            }
            Rvalue::Cast(CastKind::PointerExposeProvenance, ..) if self.inst.def_id().is_local() => {
                self.found.push((Effect::State, "depends on an address".into(), at));
            }
            _ => {}
        }
        self.super_rvalue(r, l)
    }
    fn visit_terminator(&mut self, t: &Terminator<'tcx>, l: Location) {
        match &t.kind {
            TerminatorKind::Drop { place, .. } => {
                if let Some(ty) = self.mono(place.ty(&self.body.local_decls, self.tcx).ty)
                    && !ty.has_param()
                {
                    self.calls.push((Instance::resolve_drop_glue(self.tcx, ty), t.source_info.span));
                }
            }
            TerminatorKind::InlineAsm { .. } => self.found.push((Effect::State, "runs assembly".into(), t.source_info.span)),
            _ => {}
        }
        self.super_terminator(t, l)
    }
}

/// One function: what it calls and what it does itself.
struct Node<'tcx> {
    calls: Vec<(Instance<'tcx>, Span)>,
    found: Vec<(Effect, String, Span)>,
    sites: usize,
    open: usize,
}

struct Walk<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    nodes: HashMap<Instance<'tcx>, Node<'tcx>>,
}
impl<'tcx> Walk<'tcx> {
    fn node(&mut self, i: Instance<'tcx>) -> &Node<'tcx> {
        if !self.nodes.contains_key(&i) {
            let n = self.scan(i);
            self.nodes.insert(i, n);
        }
        &self.nodes[&i]
    }
    fn scan(&self, i: Instance<'tcx>) -> Node<'tcx> {
        let tcx = self.tcx;
        let mut n = Node { calls: vec![], found: vec![], sites: 0, open: 0 };
        let d = i.def_id();
        let at = tcx.def_span(d);
        let krate = tcx.crate_name(d.krate);
        let krate = krate.as_str();
        let name = with_no_trimmed_paths!(tcx.def_path_str(d));
        match i.def {
            InstanceKind::Intrinsic(_) => {
                let s = tcx.item_name(d);
                if s.as_str().starts_with("atomic_") || s.as_str().contains("volatile") {
                    n.found.push((Effect::State, format!("uses {name}"), at));
                }
                return n;
            }
            InstanceKind::Virtual(..) => {
                n.open = 1;
                return n;
            }
            InstanceKind::Item(_) => {}
            _ => {
                let shim = tcx.instance_mir(i.def);
                return self.body(i, shim);
            }
        }
        // what never comes back fails; that it cannot is another matter
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn)
            && krate == "core"
            && tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder().output().is_never()
        {
            return n;
        }
        if krate == "alloc" && name.starts_with("alloc::alloc::") {
            let frees = name.contains("dealloc");
            if !frees {
                n.found.push((Effect::Alloc, "allocates".to_string(), at));
            }
            return n;
        }
        if tcx.is_foreign_item(d) {
            n.found.push((Effect::State, format!("calls the foreign function {name}"), at));
            n.found.push((Effect::Alloc, format!("calls the foreign function {name}"), at));
            return n;
        }
        if !tcx.is_mir_available(d) {
            match krate {
                "core" => {}
                "alloc" => n.found.push((Effect::Alloc, format!("calls {name}"), at)),
                _ => {
                    n.found.push((Effect::Alloc, format!("calls {name}"), at));
                    n.found.push((Effect::State, format!("calls {name}"), at));
                }
            }
            return n;
        }
        self.body(i, tcx.instance_mir(i.def))
    }
    fn body(&self, i: Instance<'tcx>, body: &Body<'tcx>) -> Node<'tcx> {
        let mut s = Scan { tcx: self.tcx, env: self.env, inst: i, body, calls: vec![], found: vec![], sites: 0, open: 0 };
        s.visit_body(body);
        Node { calls: s.calls, found: s.found, sites: s.sites, open: s.open }
    }
}

/// Text by value that the caller gives up, and text that is handed out by value.
fn owns<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> bool {
    let mut w = t.walk();
    while let Some(a) = w.next() {
        let Some(t) = a.as_type() else { continue };
        match t.kind() {
            ty::Ref(..) | ty::RawPtr(..) => w.skip_current_subtree(),
            ty::Adt(d, _) => {
                let k = tcx.crate_name(d.did().krate);
                if k.as_str() == "alloc" || k.as_str() == "std" {
                    return true;
                }
                if d.did().is_local() {
                    for f in d.all_fields() {
                        let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        if ft != t && owns(tcx, ft) {
                            return true;
                        }
                    }
                }
            }
            _ => {}
        }
    }
    false
}

fn send_sync<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> Option<(bool, bool, bool)> {
    let args = ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
        ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
        ty::GenericParamDefKind::Type { .. } => tcx.types.u8.into(),
        ty::GenericParamDefKind::Const { .. } => ty::Const::from_target_usize(tcx, 1).into(),
    });
    let t = tcx.type_of(d).instantiate(tcx, args).skip_norm_wip();
    use rustc_infer::infer::TyCtxtInferExt;
    use rustc_trait_selection::infer::InferCtxtExt;
    let (icx, pe) = tcx.infer_ctxt().build_with_typing_env(TypingEnv::fully_monomorphized());
    let holds = |tr: DefId| icx.type_implements_trait(tr, [t], pe).must_apply_modulo_regions();
    let send = holds(tcx.get_diagnostic_item(rustc_span::sym::Send)?);
    let sync = holds(tcx.lang_items().sync_trait()?);
    Some((send, sync, t.is_freeze(tcx, TypingEnv::fully_monomorphized())))
}

pub fn dump<'tcx>(tcx: TyCtxt<'tcx>) {
    let Ok(out) = std::env::var("LT_EFFECTS") else { return };
    let at = |s: Span| tcx.sess.source_map().span_to_diagnostic_string(s.source_callsite());
    let mut rows = vec![];
    let mut types = vec![];
    for d in crate::api::open_items(tcx) {
        let kind = tcx.def_kind(d);
        if matches!(kind, DefKind::Struct | DefKind::Enum | DefKind::Union) {
            let (s, y, f) = send_sync(tcx, d).unwrap_or((false, false, false));
            types.push(format!("{{\"type\":{},\"at\":{},\"send\":{s},\"sync\":{y},\"fixed\":{f}}}", esc(&tcx.def_path_str(d)), esc(&at(tcx.def_span(d)))));
            continue;
        }
        if !matches!(kind, DefKind::Fn | DefKind::AssocFn) || !tcx.is_mir_available(d) {
            continue;
        }
        let env = TypingEnv::post_analysis(tcx, d);
        let args = tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, d));
        let root = Instance::new_raw(d, args);
        let mut w = Walk { tcx, env, nodes: Default::default() };
        let mut from: HashMap<Instance<'tcx>, (Instance<'tcx>, Span)> = HashMap::new();
        let (mut todo, mut seen) = (vec![root], HashSet::from([root]));
        let mut found: BTreeSet<(Effect, String, String, Vec<String>)> = Default::default();
        let (mut sites, mut open) = (0, 0);
        while let Some(i) = todo.pop() {
            let n = w.node(i);
            sites += n.sites;
            open += n.open;
            for (e, what, s) in &n.found {
                if found.iter().any(|f| f.0 == *e) {
                    continue;
                }
                let mut path = vec![format!("{} ({})", tcx.def_path_str(i.def_id()), at(*s))];
                let mut k = i;
                while let Some((p, s)) = from.get(&k) {
                    path.push(format!("{} ({})", tcx.def_path_str(p.def_id()), at(*s)));
                    k = *p;
                }
                let here = path.iter().find(|p| p.contains("langtag") || p.contains("/repo")).cloned().unwrap_or_default();
                found.insert((*e, what.clone(), here, path));
            }
            for (c, s) in &n.calls {
                if seen.insert(*c) {
                    from.insert(*c, (i, *s));
                    todo.push(*c);
                }
            }
        }
        let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
        let norm = |t: Ty<'tcx>| {
            let t = tcx.erase_and_anonymize_regions(t);
            tcx.try_normalize_erasing_regions(env, Unnormalized::new_wip(t)).unwrap_or(t)
        };
        let gives = owns(tcx, norm(sig.output()));
        let takes = sig.inputs().iter().any(|t| owns(tcx, norm(*t)));
        with_no_trimmed_paths!({
            rows.push(format!(
                "{{\"fn\":{},\"self\":{},\"trait\":{},\"at\":{},\"gives\":{gives},\"takes\":{takes},\"reached\":{},\"sites\":{sites},\"open\":{open},\"found\":{}}}",
                esc(&tcx.def_path_str(d)),
                esc(&tcx.opt_parent(d).filter(|p| matches!(tcx.def_kind(*p), DefKind::Impl { .. })).map(|p| tcx.type_of(p).instantiate_identity().skip_norm_wip().to_string()).unwrap_or_default()),
                esc(&tcx.opt_parent(d).filter(|p| matches!(tcx.def_kind(*p), DefKind::Impl { of_trait: true })).map(|p| tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip().to_string()).unwrap_or_default()),
                esc(&at(tcx.def_span(d))),
                seen.len(),
                list(found.iter().map(|f| format!(
                    "{{\"effect\":{},\"what\":{},\"in\":{},\"path\":{}}}",
                    esc(&format!("{:?}", f.0)),
                    esc(&f.1),
                    esc(&f.2),
                    list(f.3.iter().map(|s| esc(s)))
                )))
            ));
        });
    }
    let name = tcx.crate_name(LOCAL_CRATE);
    let _ = std::fs::write(format!("{out}/effects-{name}.json"), format!("{{\"functions\":[{}],\"types\":[{}]}}", rows.join(",\n"), types.join(",\n")));
}
