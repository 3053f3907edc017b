//! C10: iterators yield every subtag once, in order, and nothing else.
use crate::lt::*;
use crate::seg::*;
use langtag::*;

/// Walks `it` along the segments of `t` from `at` on.
fn segments<'a, T: AsRef<[u8]> + ?Sized + 'a>(t: &'a str, at: usize, mut it: impl Iterator<Item = &'a T>) {
    let mut i = at;
    loop {
        let got = it.next();
        if i < t.len() {
            let e = seg_end(t, i);
            match got {
                Some(g) => check(same_slice(g, &t[i..e]), "item is the next subtag"),
                None => {
                    check(false, "a subtag is missing");
                    return;
                }
            }
            i = e + 1;
        } else {
            check(got.is_none(), "ends after the last subtag");
            break;
        }
    }
    check(it.next().is_none(), "stays ended");
    check(it.next().is_none(), "stays ended");
}
pub fn variants(t: &Variants) {
    segments(t.as_str(), 0, t.iter());
}
pub fn language_extension(t: &LanguageExtension) {
    segments(t.as_str(), 0, t.iter());
}
pub fn private_use(t: &PrivateUse) {
    segments(t.as_str(), 2, t.iter());
}
pub fn extension(t: &Extension) {
    segments(t.as_str(), 2, t.iter());
}
pub fn extensions(v: &Extensions) {
    let t = v.as_str();
    let mut it = v.iter();
    let mut i = 0;
    loop {
        let got = it.next();
        if i < t.len() {
            let e = ext_end(t, i);
            match got {
                Some(g) => check(same_slice(g, &t[i..e]), "item is the next extension"),
                None => {
                    check(false, "an extension is missing");
                    return;
                }
            }
            i = e + 1;
        } else {
            check(got.is_none(), "ends after the last extension");
            break;
        }
    }
    check(it.next().is_none(), "stays ended");
    check(it.next().is_none(), "stays ended");
}
pub fn language_extension_subtags(t: &Language) {
    let s = t.as_str();
    let at = seg_end(s, 0) + 1;
    segments(s, at, t.extension_subtags());
}
pub fn normal_private_use_subtags(t: &NormalLangTag) {
    match t.private_use() {
        Some(p) => segments(p.as_str(), 2, t.private_use_subtags()),
        None => check(t.private_use_subtags().next().is_none(), "absent components iterate as empty"),
    }
}
fn empty<T>(mut it: impl Iterator<Item = T>) {
    check(it.next().is_none(), "absent components iterate as empty");
    check(it.next().is_none(), "absent components iterate as empty");
}
pub fn empty_iterators() {
    empty(Variants::EMPTY.iter());
    empty(Extensions::EMPTY.iter());
    empty(VariantsIter::empty());
    empty(LanguageExtensionIter::empty());
    empty(PrivateUseIter::empty());
    empty(ExtensionIter::empty());
    empty(VariantsIter::default());
    empty(LanguageExtensionIter::default());
    empty(PrivateUseIter::default());
    empty(ExtensionIter::default());
}
