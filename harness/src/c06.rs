//! C06: variants, extensions and private use are exactly the RFC 5646 components.
use crate::c05::part;
use crate::lt::*;
use langtag::*;

pub fn normal_variants(t: &NormalLangTag) {
    let v = t.variants();
    match capture("variants") {
        Some(w) => check(same_slice(v, w), "variants() is the variants part"),
        None => check(is_text(v, ""), "variants() is empty when there are none"),
    }
}
pub fn normal_extensions(t: &NormalLangTag) {
    let v = t.extensions();
    match capture("extensions") {
        Some(w) => check(same_slice(v, w), "extensions() is the extensions part"),
        None => check(is_text(v, ""), "extensions() is empty when there are none"),
    }
}
pub fn normal_private_use(t: &NormalLangTag) {
    part(
        t.private_use(),
        capture("private"),
        "private_use() misses the private use part",
        "private_use() invents a private use part",
        "private_use() is the private use part",
    );
}
pub fn empty_variants() {
    check(is_text(Variants::EMPTY, ""), "Variants::EMPTY is the empty list");
}
pub fn empty_extensions() {
    check(is_text(Extensions::EMPTY, ""), "Extensions::EMPTY is the empty list");
}
