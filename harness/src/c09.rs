//! C09: the grandfathered registry is exact and round-trips.
use crate::lt::*;
use core::fmt::Display;
use langtag::GrandfatheredLangTag::*;
use langtag::*;

/// Registered spelling, and first subtag of the regular ones (RFC 5646, section 2.1).
fn registered(g: GrandfatheredLangTag) -> (&'static str, Option<&'static str>) {
    match g {
        EnGbOed => ("en-GB-oed", None),
        IAmi => ("i-ami", None),
        IBnn => ("i-bnn", None),
        IDefault => ("i-default", None),
        IEnochian => ("i-enochian", None),
        IHak => ("i-hak", None),
        IKlingon => ("i-klingon", None),
        ILux => ("i-lux", None),
        IMingo => ("i-mingo", None),
        INavajo => ("i-navajo", None),
        IPwn => ("i-pwn", None),
        ITao => ("i-tao", None),
        ITay => ("i-tay", None),
        ITsu => ("i-tsu", None),
        SgnBeFr => ("sgn-BE-FR", None),
        SgnBeNl => ("sgn-BE-NL", None),
        SgnChDe => ("sgn-CH-DE", None),
        ArtLojban => ("art-lojban", Some("art")),
        CelGaulish => ("cel-gaulish", Some("cel")),
        NoBok => ("no-bok", Some("no")),
        NoNyn => ("no-nyn", Some("no")),
        ZhGuoyu => ("zh-guoyu", Some("zh")),
        ZhHakka => ("zh-hakka", Some("zh")),
        ZhMin => ("zh-min", Some("zh")),
        ZhMinNan => ("zh-min-nan", Some("zh")),
        ZhXiang => ("zh-xiang", Some("zh")),
    }
}
pub fn new_bytes(t: &[u8]) {
    match GrandfatheredLangTag::new(t) {
        Ok(g) => check(is_text_fold(t, registered(g).0), "recognised as the very tag it spells"),
        Err(e) => {
            check(!in_lang(t, "Grandfathered"), "every registered tag is recognised");
            check(same_slice(e, t), "rejected input is handed back");
        }
    }
}
pub fn new_str(t: &str) {
    match GrandfatheredLangTag::new(t) {
        Ok(g) => check(is_text_fold(t, registered(g).0), "recognised as the very tag it spells"),
        Err(e) => {
            check(!in_lang(t, "Grandfathered"), "every registered tag is recognised");
            check(same_slice(e, t), "rejected input is handed back");
        }
    }
}
pub fn try_from_bytes(t: &[u8]) {
    match GrandfatheredLangTag::try_from(t) {
        Ok(g) => check(is_text_fold(t, registered(g).0), "recognised as the very tag it spells"),
        Err(e) => {
            check(!in_lang(t, "Grandfathered"), "every registered tag is recognised");
            check(same_slice(e.0, t), "rejected input is handed back");
        }
    }
}
pub fn spelling() {
    let g: GrandfatheredLangTag = nondet_variant();
    check(is_text(g.as_str(), registered(g).0), "as_str() is the registered spelling");
    check(is_text(g.as_bytes(), registered(g).0), "as_bytes() is the registered spelling");
}
pub fn display() {
    let g: GrandfatheredLangTag = nondet_variant();
    out_reset();
    let r = Display::fmt(&g, &mut formatter());
    check(r.is_err() || out_is(registered(g).0), "prints as the registered spelling");
}
pub fn language() {
    let g: GrandfatheredLangTag = nondet_variant();
    match (g.language(), registered(g).1) {
        (Some(l), Some(w)) => check(is_text(l, w), "language is the first subtag"),
        (None, None) => check(true, "irregular tags have no language"),
        (Some(_), None) => check(false, "irregular tags have no language"),
        (None, Some(_)) => check(false, "regular tags have a language"),
    }
}
pub fn round_trip() {
    let g: GrandfatheredLangTag = nondet_variant();
    match GrandfatheredLangTag::new(g.as_str()) {
        Ok(h) => check(h == g, "parsing the spelling gives the tag back"),
        Err(_) => check(false, "the spelling parses"),
    }
}
pub fn table() {
    let g: GrandfatheredLangTag = nondet_variant();
    let mut n = 0;
    for h in &GRANDFATHERED {
        if *h == g {
            n += 1;
        }
    }
    check(n == 1, "the table lists every tag once");
}
