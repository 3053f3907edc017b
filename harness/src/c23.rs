//! C23: everything ends. What c03 calls any number of times is here called until it says it ended.
use crate::lt::*;
use langtag::*;

fn all<T>(mut it: impl Iterator<Item = T>) {
    while let Some(_) = it.next() {}
    let _ = it.next();
}
/// From either end, until the first refusal.
fn all_back<T>(mut it: impl DoubleEndedIterator<Item = T>) {
    while let Some(_) = it.next_back() {}
    let _ = (it.next_back(), it.next());
}
fn all_both<T>(mut it: impl DoubleEndedIterator<Item = T>) {
    loop {
        let g = if nondet() { it.next() } else { it.next_back() };
        if g.is_none() {
            break;
        }
    }
    let _ = (it.next(), it.next_back());
}
macro_rules! walks {
    ($($n:ident($t:ident: $T:ty) $e:expr;)*) => {
        $(pub fn $n($t: $T) { $e; })*
    };
}
walks! {
    variants(t: &Variants) all(t.iter());
    variants_back(t: &Variants) all_back(t.iter());
    variants_both(t: &Variants) all_both(t.iter());
    extension(t: &Extension) all(t.iter());
    extensions(t: &Extensions) all(t.iter());
    language_extension(t: &LanguageExtension) all(t.iter());
    private_use(t: &PrivateUse) all(t.iter());
    extension_subtags(t: &Language) all(t.extension_subtags());
    lang_tag_private_use_subtags(t: &LangTag) all(t.private_use_subtags());
    normal_private_use_subtags(t: &NormalLangTag) all(t.private_use_subtags());
}
pub fn each_iter_extension(t: &Extensions, s: Singleton) {
    all(t.iter_extension(s));
}
pub fn constants() {
    all_both(VariantsIter::empty());
    all_both(VariantsIter::default());
    all(ExtensionIter::empty());
    all(ExtensionIter::default());
    all(PrivateUseIter::empty());
    all(PrivateUseIter::default());
    all(LanguageExtensionIter::empty());
    all(LanguageExtensionIter::default());
}
macro_rules! ordering {
    ($m:ident, $X:ident, $XBuf:ident, $Inv:ident, $lang:literal, $as:ident) => {
        pub mod $m {
            use langtag::*;
            pub fn loose_cmp(a: &$X, b: &$X) {
                let _ = a.cmp(b);
            }
            pub fn loose_partial(a: &$X, b: &$X) {
                let _ = a.partial_cmp(b);
            }
            pub fn loose_buf(a: $XBuf, b: $XBuf) {
                let _ = (a.cmp(&b), a.partial_cmp(&b));
            }
            pub fn loose_bytes(a: &$X, b: &[u8]) {
                let _ = a.partial_cmp(b);
            }
            pub fn loose_bytes_rev(a: &$X, b: &[u8]) {
                let _ = b.partial_cmp(a);
            }
            pub fn loose_str(a: &$X, b: &str) {
                let _ = a.partial_cmp(b);
            }
            pub fn loose_str_rev(a: &$X, b: &str) {
                let _ = b.partial_cmp(a);
            }
            pub fn loose_vec(a: &$X, b: Vec<u8>) {
                let _ = a.partial_cmp(&b);
            }
            pub fn loose_vec_rev(a: &$X, b: Vec<u8>) {
                let _ = b.partial_cmp(a);
            }
            pub fn loose_string(a: &$X, b: String) {
                let _ = a.partial_cmp(&b);
            }
            pub fn loose_string_rev(a: &$X, b: String) {
                let _ = b.partial_cmp(a);
            }
        }
    };
}
all_types!(ordering);
