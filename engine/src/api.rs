//! The public interface of the crate under analysis, as the compiler sees it.
use crate::run::{esc, list};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::ty::print::{PrintTraitRefExt, with_no_trimmed_paths};
use rustc_middle::ty::{self, TyCtxt};

fn b(v: bool) -> &'static str {
    if v { "true" } else { "false" }
}

fn item(tcx: TyCtxt<'_>, d: DefId) -> Option<String> {
    let kind = tcx.def_kind(d);
    let span = tcx.sess.source_map().span_to_diagnostic_string(tcx.def_span(d));
    let path = tcx.def_path_str(d);
    let mut o = format!("{{\"path\":{},\"at\":{},\"kind\":{}", esc(&path), esc(&span), esc(&format!("{kind:?}")));
    let name = tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_default();
    o.push_str(&format!(",\"name\":{}", esc(&name)));
    o.push_str(&format!(",\"macro\":{}", b(tcx.def_span(d).from_expansion())));
    match kind {
        DefKind::Fn | DefKind::AssocFn => {
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
            o.push_str(&format!(",\"unsafe\":{}", b(!sig.safety().is_safe())));
            o.push_str(&format!(",\"const\":{}", b(tcx.is_const_fn(d))));
            let s = sig.skip_binder();
            o.push_str(&format!(",\"inputs\":{}", list(s.inputs().iter().map(|t| esc(&t.to_string())))));
            let out = tcx.erase_and_anonymize_regions(s.output());
            let full = tcx
                .try_normalize_erasing_regions(ty::TypingEnv::post_analysis(tcx, d), ty::Unnormalized::new_wip(out))
                .map(|t| t.to_string())
                .unwrap_or_default();
            o.push_str(&format!(",\"output\":{},\"result\":{}", esc(&s.output().to_string()), esc(&full)));
            let gs = tcx.generics_of(d);
            let mut ps = vec![];
            for i in 0..gs.count() {
                let p = gs.param_at(i, tcx);
                if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                    ps.push(esc(p.name.as_str()));
                }
            }
            o.push_str(&format!(",\"generics\":{}", list(ps)));
            let pr = tcx.clauses_of(d).instantiate_identity(tcx);
            o.push_str(&format!(",\"where\":{}", list(pr.clauses.iter().map(|p| esc(&p.skip_norm_wip().to_string())))));
        }
        DefKind::Struct | DefKind::Enum | DefKind::Union => {
            let a = tcx.adt_def(d);
            let mut fs = vec![];
            for v in a.variants() {
                for f in &v.fields {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let public = if a.is_enum() { true } else { f.vis.is_public() };
                    fs.push(format!(
                        "{{\"variant\":{},\"name\":{},\"type\":{},\"public\":{}}}",
                        esc(v.name.as_str()),
                        esc(f.name.as_str()),
                        esc(&t.to_string()),
                        b(public)
                    ));
                }
            }
            o.push_str(&format!(",\"fields\":{}", list(fs)));
        }
        DefKind::TyAlias | DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AssocTy => {
            if kind != DefKind::AssocTy || tcx.associated_item(d).container != ty::AssocContainer::Trait {
                o.push_str(&format!(",\"type\":{}", esc(&tcx.type_of(d).instantiate_identity().skip_norm_wip().to_string())));
            }
        }
        DefKind::Mod | DefKind::Trait | DefKind::TraitAlias | DefKind::Macro(_) => {}
        _ => return None,
    }
    if let Some(p) = tcx.opt_parent(d)
        && let DefKind::Impl { of_trait } = tcx.def_kind(p)
    {
        let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
        o.push_str(&format!(",\"self\":{}", esc(&st.to_string())));
        if of_trait {
            let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
            o.push_str(&format!(",\"trait\":{}", esc(&tr.print_only_trait_path().to_string())));
        }
    }
    o.push('}');
    Some(o)
}

/// The items other crates can name or call.
pub fn open_items(tcx: TyCtxt<'_>) -> Vec<DefId> {
    let vis = tcx.effective_visibilities(());
    let mut v = vec![];
    for d in tcx.hir_crate_items(()).definitions() {
        let mut open = vis.is_reachable(d);
        // an implementation item is open as soon as the implementing type is
        if let Some(p) = tcx.opt_parent(d.to_def_id())
            && let DefKind::Impl { of_trait } = tcx.def_kind(p)
        {
            let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
            let of_adt = st.walk().any(|a| match a.as_type().map(|t| t.kind()) {
                Some(ty::Adt(a, _)) => a.did().as_local().is_some_and(|l| vis.is_exported(l)),
                _ => false,
            });
            open = if of_trait { open || of_adt } else { tcx.visibility(d).is_public() && of_adt };
        } else if !matches!(tcx.def_kind(d), DefKind::Macro(_)) {
            open = vis.is_exported(d);
        }
        if open {
            v.push(d.to_def_id());
        }
    }
    v
}

/// Every type, function, constant and implementation other crates can reach.
pub fn dump(tcx: TyCtxt<'_>) {
    let Ok(out) = std::env::var("LT_API") else { return };
    let mut v = vec![];
    with_no_trimmed_paths!({
        for d in open_items(tcx) {
            if let Some(i) = item(tcx, d) {
                v.push(i);
            }
        }
        for i in tcx.hir_crate_items(()).free_items() {
            if let DefKind::Impl { of_trait: true } = tcx.def_kind(i.owner_id) {
                let tr = tcx.impl_trait_ref(i.owner_id).instantiate_identity().skip_norm_wip();
                v.push(format!(
                    "{{\"kind\":\"Impl\",\"at\":{},\"path\":{},\"self\":{},\"trait\":{}}}",
                    esc(&tcx.sess.source_map().span_to_diagnostic_string(tcx.def_span(i.owner_id))),
                    esc(&format!("{tr}")),
                    esc(&tr.self_ty().to_string()),
                    esc(&tr.print_only_trait_path().to_string())
                ));
            }
        }
    });
    let _ = std::fs::write(format!("{out}/api.json"), format!("[{}]", v.join(",\n")));
}

/// Crates this crate names with `extern crate`, including the one the compiler injects.
pub fn externs(tcx: TyCtxt<'_>) {
    let Ok(out) = std::env::var("LT_API") else { return };
    let mut v = vec![];
    for i in tcx.hir_crate_items(()).free_items() {
        let it = tcx.hir_item(i);
        if let rustc_hir::ItemKind::ExternCrate(orig, id) = it.kind {
            let n = orig.unwrap_or(id.name);
            v.push(format!("[{},{}]", esc(n.as_str()), esc(&tcx.sess.source_map().span_to_diagnostic_string(it.span))));
        }
    }
    let name = tcx.crate_name(LOCAL_CRATE);
    let proc_macro = tcx.crate_types().iter().any(|c| format!("{c:?}") == "ProcMacro");
    let loads = tcx.crates(()).iter().map(|c| esc(&format!("{:x}", tcx.stable_crate_id(*c).as_u64())));
    let root = tcx.sess.source_map().span_to_diagnostic_string(tcx.def_span(rustc_hir::def_id::CRATE_DEF_ID));
    let _ = std::fs::write(
        format!("{out}/externs-{name}-{:x}.json", tcx.stable_crate_id(LOCAL_CRATE).as_u64()),
        format!("{{\"loads\":{},\"root\":{},\"crate\":{},\"proc_macro\":{},\"externs\":{}}}", list(loads), esc(&root), esc(name.as_str()), b(proc_macro), list(v)),
    );
}
