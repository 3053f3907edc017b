//! C16: text is preserved verbatim; parsed values and their views borrow the caller's text.
macro_rules! verbatim {
    ($m:ident, $T:ident, $B:ident, $E:ident, $lang:literal, $as:ident) => {
        pub mod $m {
            use crate::lt::*;
            use core::borrow::Borrow;
            use core::fmt::{Debug, Display};
            use core::ops::Deref;
            use core::str::FromStr;
            use langtag::*;
            pub fn new_bytes(t: &[u8]) {
                match $T::new(t) {
                    Ok(v) => check(same_slice(v, t), "the parsed value is the caller's text"),
                    Err($E(e)) => check(same_slice(e, t), "the rejected input is handed back"),
                }
            }
            pub fn new_str(t: &str) {
                match $T::new(t) {
                    Ok(v) => check(same_slice(v, t), "the parsed value is the caller's text"),
                    Err($E(e)) => check(same_slice(e, t), "the rejected input is handed back"),
                }
            }
            pub fn from_bytes(t: &[u8]) {
                match $T::from_bytes(t) {
                    Ok(v) => check(same_slice(v, t), "the parsed value is the caller's text"),
                    Err($E(e)) => check(same_slice(e, t), "the rejected input is handed back"),
                }
            }
            pub fn from_str(t: &str) {
                match $T::from_str(t) {
                    Ok(v) => check(same_slice(v, t), "the parsed value is the caller's text"),
                    Err($E(e)) => check(same_slice(e, t), "the rejected input is handed back"),
                }
            }
            pub fn try_from_bytes(t: &[u8]) {
                let r: Result<&$T, $E<&[u8]>> = t.try_into();
                match r {
                    Ok(v) => check(same_slice(v, t), "the parsed value is the caller's text"),
                    Err($E(e)) => check(same_slice(e, t), "the rejected input is handed back"),
                }
            }
            pub fn try_from_str(t: &str) {
                let r: Result<&$T, $E<&str>> = t.try_into();
                match r {
                    Ok(v) => check(same_slice(v, t), "the parsed value is the caller's text"),
                    Err($E(e)) => check(same_slice(e, t), "the rejected input is handed back"),
                }
            }
            pub fn views(v: &$T, t: &str) {
                let _ = t;
                check(same_slice(v.as_str(), v), "as_str() is the text");
                check(same_slice(v.as_bytes(), v), "as_bytes() is the text");
                let r: &str = v.as_ref();
                check(same_slice(r, v), "AsRef<str> is the text");
                let r: &[u8] = v.as_ref();
                check(same_slice(r, v), "AsRef<[u8]> is the text");
                let r: &$T = v.as_ref();
                check(same_slice(r, v), "AsRef<Self> is the text");
                let r: &str = v.into();
                check(same_slice(r, v), "&str from it is the text");
                let r: &[u8] = v.into();
                check(same_slice(r, v), "&[u8] from it is the text");
                let r: &str = v.borrow();
                check(same_slice(r, v), "Borrow<str> is the text");
            }
            pub fn display(v: &$T) {
                out_reset();
                let r = Display::fmt(v, &mut formatter());
                check(r.is_err() || out_is(v), "prints as its text");
            }
            pub fn buf_new_vec(t: &Vec<u8>) {
                match $B::new(t.clone()) {
                    Ok(v) => check(eq_text(v.as_str(), t), "the owned value has the given text"),
                    Err($E(e)) => check(eq_text(&e, t), "the rejected input is handed back"),
                }
            }
            pub fn buf_new_string(t: &String) {
                match $B::new(t.clone()) {
                    Ok(v) => check(eq_text(v.as_str(), t), "the owned value has the given text"),
                    Err($E(e)) => check(eq_text(&e, t), "the rejected input is handed back"),
                }
            }
            pub fn buf_from_bytes(t: &Vec<u8>) {
                match $B::from_bytes(t.clone()) {
                    Ok(v) => check(eq_text(v.as_str(), t), "the owned value has the given text"),
                    Err($E(e)) => check(eq_text(&e, t), "the rejected input is handed back"),
                }
            }
            pub fn buf_from_string(t: &String) {
                match $B::from_string(t.clone()) {
                    Ok(v) => check(eq_text(v.as_str(), t), "the owned value has the given text"),
                    Err($E(e)) => check(eq_text(&e, t), "the rejected input is handed back"),
                }
            }
            pub fn buf_try_from_vec(t: &Vec<u8>) {
                match $B::try_from(t.clone()) {
                    Ok(v) => check(eq_text(v.as_str(), t), "the owned value has the given text"),
                    Err($E(e)) => check(eq_text(&e, t), "the rejected input is handed back"),
                }
            }
            pub fn buf_try_from_string(t: &String) {
                match $B::try_from(t.clone()) {
                    Ok(v) => check(eq_text(v.as_str(), t), "the owned value has the given text"),
                    Err($E(e)) => check(eq_text(&e, t), "the rejected input is handed back"),
                }
            }
            pub fn buf_parse(t: &str) {
                match <$B as FromStr>::from_str(t) {
                    Ok(v) => check(eq_text(v.as_str(), t), "the owned value has the given text"),
                    Err($E(e)) => check(eq_text(&e, t), "the rejected input is handed back"),
                }
            }
            pub fn to_owned(v: &$T) {
                let b: $B = v.to_owned();
                check(eq_text(b.as_str(), v), "the owned copy has the same text");
                check(eq_text(b.clone().as_str(), v), "the clone has the same text");
            }
            pub fn buf_views(b: &$B) {
                let t = b.as_str();
                check(same_slice(b.as_bytes(), t), "as_bytes() is the text");
                check(same_slice(b.$as(), t), "the borrowed view is the text");
                check(same_slice(b.deref(), t), "Deref is the text");
                let r: &$T = b.borrow();
                check(same_slice(r, t), "Borrow is the text");
                let r: &$T = b.as_ref();
                check(same_slice(r, t), "AsRef<_> is the text");
                let r: &str = b.as_ref();
                check(same_slice(r, t), "AsRef<str> is the text");
                let r: &[u8] = b.as_ref();
                check(same_slice(r, t), "AsRef<[u8]> is the text");
            }
            pub fn buf_into(b: &$B) {
                check(eq_text(b.clone().as_str(), b.as_str()), "the clone has the same text");
                check(eq_text(&b.clone().into_string(), b.as_str()), "into_string() is the text");
                check(eq_text(&b.clone().into_bytes(), b.as_str()), "into_bytes() is the text");
                let s: String = b.clone().into();
                check(eq_text(&s, b.as_str()), "String from it is the text");
                let s: Vec<u8> = b.clone().into();
                check(eq_text(&s, b.as_str()), "Vec from it is the text");
            }
            pub fn buf_round_trip(v: &$T) {
                match $B::new(v.to_owned().into_string()) {
                    Ok(w) => check(eq_text(w.as_str(), v), "parsing its text gives it back"),
                    Err(_) => check(false, "its text parses"),
                }
            }
            pub fn buf_display(b: &$B) {
                out_reset();
                let r = Display::fmt(b, &mut formatter());
                check(r.is_err() || out_is(b.as_str()), "prints as its text");
            }
            pub fn debug(v: &$T) {
                let _ = Debug::fmt(v, &mut formatter());
            }
            pub fn buf_debug(b: &$B) {
                let _ = Debug::fmt(b, &mut formatter());
            }
        }
    };
}
all_types!(verbatim);

/// Rejections by the types that are not texts.
pub mod others {
    use crate::lt::*;
    use langtag::*;
    pub fn singleton_from_string(t: &str) {
        if let Err(InvalidSingleton(e)) = Singleton::from_string(t) {
            check(same_slice(e, t), "the rejected input is handed back");
        }
    }
    pub fn singleton_parse(t: &str) {
        if let Err(InvalidSingleton(e)) = t.parse::<Singleton>() {
            check(eq_text(e.as_str(), t), "the rejected input is handed back");
        }
    }
    pub fn singleton_new(b: u8) {
        if let Err(InvalidSingleton(e)) = Singleton::new(b) {
            check(e == b, "the rejected input is handed back");
        }
    }
    pub fn singleton_u8(b: u8) {
        if let Err(InvalidSingleton(e)) = Singleton::try_from(b) {
            check(e == b, "the rejected input is handed back");
        }
    }
    pub fn singleton_char(t: &str) {
        if let Some(c) = t.chars().next()
            && let Err(InvalidSingleton(e)) = Singleton::try_from(c)
        {
            check(e == c, "the rejected input is handed back");
        }
    }
    pub fn grandfathered_new(t: &str) {
        if let Err(e) = GrandfatheredLangTag::new(t) {
            check(same_slice(e, t), "the rejected input is handed back");
        }
    }
    pub fn grandfathered_new_bytes(t: &[u8]) {
        if let Err(e) = GrandfatheredLangTag::new(t) {
            check(same_slice(e, t), "the rejected input is handed back");
        }
    }
    pub fn grandfathered_try_from(t: &[u8]) {
        if let Err(InvalidGrandfatheredTag(e)) = GrandfatheredLangTag::try_from(t) {
            check(same_slice(e, t), "the rejected input is handed back");
        }
    }
    pub fn grandfathered_new_owned(t: String) {
        let u = t.clone();
        if let Err(e) = GrandfatheredLangTag::new(t) {
            check(eq_text(&e, &u), "the rejected input is handed back");
        }
    }
}

/// Components are parts of the caller's text, not copies of them.
pub mod parts {
    use crate::lt::*;
    use langtag::*;
    macro_rules! part {
        ($t:ident, $v:expr) => {
            check(part_of($v, $t), "the component is a slice of the caller's text")
        };
    }
    macro_rules! opt {
        ($t:ident, $v:expr) => {
            if let Some(v) = $v {
                part!($t, v)
            }
        };
    }
    macro_rules! walk {
        ($t:ident, $it:expr) => {{
            let mut it = $it;
            while nondet() {
                opt!($t, it.next());
            }
        }};
    }
    macro_rules! walk_both {
        ($t:ident, $it:expr) => {{
            let mut it = $it;
            while nondet() {
                if nondet() {
                    opt!($t, it.next());
                } else {
                    opt!($t, it.next_back());
                }
            }
        }};
    }
    macro_rules! fns {
        ($($n:ident($t:ident: $T:ty) $e:expr;)*) => {
            $(pub fn $n($t: $T) { $e; })*
        };
    }
    fns! {
        lang_tag_language(t: &LangTag) if t.is_normal() { opt!(t, t.language()) };
        lang_tag_script(t: &LangTag) opt!(t, t.script());
        lang_tag_region(t: &LangTag) opt!(t, t.region());
        lang_tag_variants(t: &LangTag) part!(t, t.variants());
        lang_tag_extensions(t: &LangTag) part!(t, t.extensions());
        lang_tag_private_use(t: &LangTag) opt!(t, t.private_use());
        lang_tag_private_use_subtags(t: &LangTag) walk!(t, t.private_use_subtags());
        lang_tag_as_normal(t: &LangTag) opt!(t, t.as_normal());
        lang_tag_as_private_use(t: &LangTag) opt!(t, t.as_private_use());
        lang_tag_as_typed(t: &LangTag) match t.as_typed() {
            TypedLangTag::Normal(n) => part!(t, n),
            TypedLangTag::PrivateUse(p) => part!(t, p),
            TypedLangTag::Grandfathered(_) => {}
        };
        typed_language(t: &LangTag) if t.is_normal() { opt!(t, t.as_typed().language()) };
        normal_language(t: &NormalLangTag) part!(t, t.language());
        normal_script(t: &NormalLangTag) opt!(t, t.script());
        normal_region(t: &NormalLangTag) opt!(t, t.region());
        normal_variants(t: &NormalLangTag) part!(t, t.variants());
        normal_extensions(t: &NormalLangTag) part!(t, t.extensions());
        normal_private_use(t: &NormalLangTag) opt!(t, t.private_use());
        normal_private_use_subtags(t: &NormalLangTag) walk!(t, t.private_use_subtags());
        language_primary(t: &Language) part!(t, t.primary());
        language_extension(t: &Language) opt!(t, t.extension());
        language_extension_subtags(t: &Language) walk!(t, t.extension_subtags());
        extlang_iter(t: &LanguageExtension) walk!(t, t.iter());
        private_use_iter(t: &PrivateUse) walk!(t, t.iter());
        variants_iter(t: &Variants) walk_both!(t, t.iter());
        variants_first(t: &Variants) opt!(t, t.first());
        variants_last(t: &Variants) opt!(t, t.last());
        extension_iter(t: &Extension) walk!(t, t.iter());
        extensions_iter(t: &Extensions) walk!(t, t.iter());
    }
    pub fn each_extensions_get(t: &Extensions, s: Singleton) {
        opt!(t, t.get(s));
    }
    pub fn each_extensions_iter_extension(t: &Extensions, s: Singleton) {
        walk!(t, t.iter_extension(s));
    }
}
