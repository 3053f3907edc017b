//! C07: accessors of a general tag agree with its normal form, or report absence.
use crate::lt::*;
use langtag::*;

fn opt<A: AsRef<[u8]> + ?Sized>(got: Option<&A>, want: Option<&A>) {
    match (got, want) {
        (Some(g), Some(w)) => check(same_slice(g, w), "same component as the normal form"),
        (None, None) => check(true, "absent like in the normal form"),
        (None, Some(_)) => check(false, "component of the normal form is missing"),
        (Some(_), None) => check(false, "component that the normal form does not have"),
    }
}
fn list<A: AsRef<[u8]> + ?Sized>(got: &A, want: Option<&A>) {
    match want {
        Some(w) => {
            if is_text(w, "") {
                check(is_text(got, ""), "empty like in the normal form");
            } else {
                check(same_slice(got, w), "same list as the normal form");
            }
        }
        None => check(is_text(got, ""), "empty when there is no normal form"),
    }
}
fn normal(t: &LangTag) -> Option<&NormalLangTag> {
    NormalLangTag::new(t.as_str()).ok()
}
pub fn language(t: &LangTag) {
    let got = t.language();
    match normal(t) {
        Some(n) => opt(got, Some(n.language())),
        None => check(got.is_none(), "absent when there is no normal form"),
    }
}
pub fn script(t: &LangTag) {
    opt(t.script(), normal(t).and_then(NormalLangTag::script));
}
pub fn region(t: &LangTag) {
    opt(t.region(), normal(t).and_then(NormalLangTag::region));
}
pub fn variants(t: &LangTag) {
    list(t.variants(), normal(t).map(NormalLangTag::variants));
}
pub fn extensions(t: &LangTag) {
    list(t.extensions(), normal(t).map(NormalLangTag::extensions));
}
pub fn private_use(t: &LangTag) {
    opt(t.private_use(), normal(t).and_then(NormalLangTag::private_use));
}
pub fn private_use_subtags(t: &LangTag) {
    let mut got = t.private_use_subtags();
    match normal(t) {
        Some(n) => {
            let mut want = n.private_use_subtags();
            loop {
                match (got.next(), want.next()) {
                    (Some(g), Some(w)) => check(same_slice(g, w), "same subtag as the normal form"),
                    (None, None) => break,
                    (None, Some(_)) => {
                        check(false, "subtag of the normal form is missing");
                        break;
                    }
                    (Some(_), None) => {
                        check(false, "subtag that the normal form does not have");
                        break;
                    }
                }
            }
        }
        None => check(got.next().is_none(), "no subtags when there is no normal form"),
    }
}
