//! C08: classification is total and consistent.
use crate::lt::*;
use langtag::*;

pub fn is_normal(t: &LangTag) {
    check(t.is_normal() == in_lang(t, "NormalLangTag"), "is_normal() is membership in langtag");
}
pub fn is_private_use(t: &LangTag) {
    check(t.is_private_use() == in_lang(t, "PrivateUse"), "is_private_use() is membership in privateuse");
}
pub fn is_grandfathered(t: &LangTag) {
    check(t.is_grandfathered() == in_lang(t, "Grandfathered"), "is_grandfathered() is membership in the registry");
}
pub fn as_normal(t: &LangTag) {
    match t.as_normal() {
        Some(n) => {
            check(in_lang(t, "NormalLangTag"), "as_normal() of normal tags only");
            check(same_slice(n, t), "as_normal() is the tag itself");
        }
        None => check(!in_lang(t, "NormalLangTag"), "as_normal() of all normal tags"),
    }
}
pub fn as_private_use(t: &LangTag) {
    match t.as_private_use() {
        Some(n) => {
            check(in_lang(t, "PrivateUse"), "as_private_use() of private use tags only");
            check(same_slice(n, t), "as_private_use() is the tag itself");
        }
        None => check(!in_lang(t, "PrivateUse"), "as_private_use() of all private use tags"),
    }
}
pub fn as_grandfathered(t: &LangTag) {
    match t.as_grandfathered() {
        Some(g) => {
            check(in_lang(t, "Grandfathered"), "as_grandfathered() of registered tags only");
            check(fold_eq(g.as_str(), t), "as_grandfathered() is the tag itself");
        }
        None => check(!in_lang(t, "Grandfathered"), "as_grandfathered() of all registered tags"),
    }
}
pub fn as_typed(t: &LangTag) {
    match t.as_typed() {
        TypedLangTag::Normal(n) => {
            check(in_lang(t, "NormalLangTag"), "typed as normal when it is normal");
            check(same_slice(n, t), "typed view carries the tag's text");
        }
        TypedLangTag::PrivateUse(n) => {
            check(!in_lang(t, "NormalLangTag"), "typed as normal whenever it is normal");
            check(in_lang(t, "PrivateUse"), "typed as private use when it is private use");
            check(same_slice(n, t), "typed view carries the tag's text");
        }
        TypedLangTag::Grandfathered(g) => {
            check(!in_lang(t, "NormalLangTag"), "typed as normal whenever it is normal");
            check(!in_lang(t, "PrivateUse"), "typed as private use whenever it is private use");
            check(in_lang(t, "Grandfathered"), "typed as grandfathered when it is registered");
            check(fold_eq(g.as_str(), t), "typed view carries the tag's text");
        }
    }
}
pub fn typed_consistent(t: &LangTag) {
    let y = t.as_typed();
    let (n, p, g) = match &y {
        TypedLangTag::Normal(_) => (true, false, false),
        TypedLangTag::PrivateUse(_) => (false, true, false),
        TypedLangTag::Grandfathered(_) => (false, false, true),
    };
    check(y.is_normal() == n, "typed is_normal()");
    check(y.is_private_use() == p, "typed is_private_use()");
    check(y.is_grandfathered() == g, "typed is_grandfathered()");
    let k = y.kind();
    check((k == Kind::Normal) == n && (k == Kind::PrivateUse) == p && (k == Kind::Grandfathered) == g, "typed kind()");
    match y.as_normal() {
        Some(x) => check(n && same_slice(x, t), "typed as_normal()"),
        None => check(!n, "typed as_normal()"),
    }
    match y.as_private_use() {
        Some(x) => check(p && same_slice(x, t), "typed as_private_use()"),
        None => check(!p, "typed as_private_use()"),
    }
    match y.as_grandfathered() {
        Some(x) => check(g && fold_eq(x.as_str(), t), "typed as_grandfathered()"),
        None => check(!g, "typed as_grandfathered()"),
    }
}
pub fn typed_language(t: &LangTag) {
    let y = t.as_typed();
    let got = y.language();
    match &y {
        TypedLangTag::Normal(n) => match got {
            Some(l) => check(same_slice(l, n.language()), "language of the typed view is the tag's"),
            None => check(false, "typed view of a normal tag has a language"),
        },
        TypedLangTag::PrivateUse(_) => check(got.is_none(), "private use tags have no language"),
        TypedLangTag::Grandfathered(g) => match (got, g.language()) {
            (Some(a), Some(b)) => check(eq_text(a, b), "language of the typed view is the registered tag's"),
            (None, None) => {}
            _ => check(false, "language of the typed view is the registered tag's"),
        },
    }
}
pub fn kind(t: &LangTag) {
    match t.kind() {
        Kind::Normal => check(in_lang(t, "NormalLangTag"), "kind normal"),
        Kind::PrivateUse => check(!in_lang(t, "NormalLangTag") && in_lang(t, "PrivateUse"), "kind private use"),
        Kind::Grandfathered => check(
            !in_lang(t, "NormalLangTag") && !in_lang(t, "PrivateUse") && in_lang(t, "Grandfathered"),
            "kind grandfathered",
        ),
    }
}
pub fn kind_predicates() {
    let k: Kind = nondet_variant();
    let (n, p, g) = match k {
        Kind::Normal => (true, false, false),
        Kind::PrivateUse => (false, true, false),
        Kind::Grandfathered => (false, false, true),
    };
    check(k.is_normal() == n, "Kind::is_normal()");
    check(k.is_private_use() == p, "Kind::is_private_use()");
    check(k.is_grandfathered() == g, "Kind::is_grandfathered()");
}
