//! C03, C04: every value handed out by an operation on valid values is itself valid, and no such
//! operation panics, whatever the order of the calls on an iterator.
use crate::lt::*;
use langtag::*;

macro_rules! valid {
    ($v:expr, $lang:literal) => {
        check(in_lang($v, $lang), concat!("a ", $lang, " handed out is valid"))
    };
}
macro_rules! opt {
    ($v:expr, $lang:literal) => {
        if let Some(v) = $v {
            valid!(v, $lang)
        }
    };
}
/// Any number of calls, also past the end.
macro_rules! walk {
    ($it:expr, $lang:literal) => {{
        let mut it = $it;
        while nondet() {
            opt!(it.next(), $lang);
        }
    }};
}
macro_rules! walk_both {
    ($it:expr, $lang:literal) => {{
        let mut it = $it;
        while nondet() {
            if nondet() {
                opt!(it.next(), $lang);
            } else {
                opt!(it.next_back(), $lang);
            }
        }
    }};
}
macro_rules! fns {
    ($($n:ident($t:ident: $T:ty) $e:expr;)*) => {
        $(pub fn $n($t: $T) { $e; })*
    };
}
fns! {
    lang_tag_language(t: &LangTag) opt!(t.language(), "Language");
    lang_tag_script(t: &LangTag) opt!(t.script(), "Script");
    lang_tag_region(t: &LangTag) opt!(t.region(), "Region");
    lang_tag_variants(t: &LangTag) valid!(t.variants(), "Variants");
    lang_tag_extensions(t: &LangTag) valid!(t.extensions(), "Extensions");
    lang_tag_private_use(t: &LangTag) opt!(t.private_use(), "PrivateUse");
    lang_tag_private_use_subtags(t: &LangTag) walk!(t.private_use_subtags(), "PrivateUseSubtag");
    lang_tag_as_normal(t: &LangTag) opt!(t.as_normal(), "NormalLangTag");
    lang_tag_as_private_use(t: &LangTag) opt!(t.as_private_use(), "PrivateUse");
    lang_tag_as_grandfathered(t: &LangTag) opt!(t.as_grandfathered().as_ref().map(|g| g.as_str()), "Grandfathered");
    lang_tag_as_grandfathered_language(t: &LangTag) opt!(t.as_grandfathered().and_then(|g| g.language()), "Language");
    lang_tag_as_typed(t: &LangTag) match t.as_typed() {
        TypedLangTag::Normal(n) => valid!(n, "NormalLangTag"),
        TypedLangTag::PrivateUse(p) => valid!(p, "PrivateUse"),
        TypedLangTag::Grandfathered(g) => valid!(g.as_str(), "Grandfathered"),
    };
    typed_language(t: &LangTag) opt!(t.as_typed().language(), "Language");
    typed_as_normal(t: &LangTag) opt!(t.as_typed().as_normal(), "NormalLangTag");
    typed_as_private_use(t: &LangTag) opt!(t.as_typed().as_private_use(), "PrivateUse");
    typed_as_grandfathered(t: &LangTag) opt!(t.as_typed().as_grandfathered().as_ref().map(|g| g.as_str()), "Grandfathered");
    lang_tag_kinds(t: &LangTag) {
        let k = t.kind();
        let y = t.as_typed();
        let _ = (t.is_normal(), t.is_private_use(), t.is_grandfathered(), k.is_normal(), k.is_private_use(), k.is_grandfathered());
        let _ = (y.kind(), y.is_normal(), y.is_private_use(), y.is_grandfathered());
    };
    normal_language(t: &NormalLangTag) valid!(t.language(), "Language");
    normal_script(t: &NormalLangTag) opt!(t.script(), "Script");
    normal_region(t: &NormalLangTag) opt!(t.region(), "Region");
    normal_variants(t: &NormalLangTag) valid!(t.variants(), "Variants");
    normal_extensions(t: &NormalLangTag) valid!(t.extensions(), "Extensions");
    normal_private_use(t: &NormalLangTag) opt!(t.private_use(), "PrivateUse");
    normal_private_use_subtags(t: &NormalLangTag) walk!(t.private_use_subtags(), "PrivateUseSubtag");
    language_primary(t: &Language) valid!(t.primary(), "PrimaryLanguage");
    language_extension(t: &Language) opt!(t.extension(), "LanguageExtension");
    language_extension_subtags(t: &Language) walk!(t.extension_subtags(), "ExtendedLangTag");
    extlang_iter(t: &LanguageExtension) walk!(t.iter(), "ExtendedLangTag");
    private_use_iter(t: &PrivateUse) walk!(t.iter(), "PrivateUseSubtag");
    variants_iter(t: &Variants) walk_both!(t.iter(), "Variant");
    variants_first(t: &Variants) opt!(t.first(), "Variant");
    variants_last(t: &Variants) opt!(t.last(), "Variant");
    extension_iter(t: &Extension) walk!(t.iter(), "ExtensionSubtag");
    extensions_iter(t: &Extensions) walk!(t.iter(), "Extension");
    extension_singleton(t: &Extension) {
        let c = t.singleton();
        check(c.unwrap().is_ascii_alphanumeric() && c != b'x' && c != b'X', "a Singleton handed out is valid");
    };
}
pub fn each_extensions_get(t: &Extensions, s: Singleton) {
    opt!(t.get(s), "Extension");
}
pub fn each_extensions_iter_extension(t: &Extensions, s: Singleton) {
    walk!(t.iter_extension(s), "ExtensionSubtag");
}
pub fn constants() {
    valid!(Variants::EMPTY, "Variants");
    valid!(Extensions::EMPTY, "Extensions");
    walk_both!(VariantsIter::empty(), "Variant");
    walk_both!(VariantsIter::default(), "Variant");
    walk!(ExtensionIter::empty(), "ExtensionSubtag");
    walk!(ExtensionIter::default(), "ExtensionSubtag");
    walk!(PrivateUseIter::empty(), "PrivateUseSubtag");
    walk!(PrivateUseIter::default(), "PrivateUseSubtag");
    walk!(LanguageExtensionIter::empty(), "ExtendedLangTag");
    walk!(LanguageExtensionIter::default(), "ExtendedLangTag");
}
pub fn grandfathered() {
    let g: GrandfatheredLangTag = nondet_variant();
    opt!(g.language(), "Language");
    valid!(g.as_str(), "Grandfathered");
    valid!(g.as_bytes(), "Grandfathered");
}
pub fn singleton_new(b: u8) {
    if let Ok(s) = Singleton::new(b) {
        let c = s.unwrap();
        check(c.is_ascii_alphanumeric() && c != b'x' && c != b'X', "a Singleton handed out is valid");
    }
}
pub fn singleton_from_string(t: &str) {
    if let Ok(s) = Singleton::from_string(t) {
        let c = s.unwrap();
        check(c.is_ascii_alphanumeric() && c != b'x' && c != b'X', "a Singleton handed out is valid");
    }
}
