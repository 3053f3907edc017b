//! C05: language, script and region are exactly the RFC 5646 components.
use crate::lt::*;
use langtag::*;

pub(crate) fn part<T: AsRef<[u8]> + ?Sized>(got: Option<&T>, want: Option<&str>, lost: &'static str, found: &'static str, exact: &'static str) {
    match (got, want) {
        (Some(g), Some(w)) => check(same_slice(g, w), exact),
        (None, None) => {}
        (None, Some(_)) => check(false, lost),
        (Some(_), None) => check(false, found),
    }
}

pub fn normal_language(t: &NormalLangTag) {
    let l = t.language();
    check(same_slice(l, capture("language").unwrap()), "language() is the language part");
}
pub fn normal_script(t: &NormalLangTag) {
    part(t.script(), capture("script"), "script() misses the script", "script() invents a script", "script() is the script part");
}
pub fn normal_region(t: &NormalLangTag) {
    part(t.region(), capture("region"), "region() misses the region", "region() invents a region", "region() is the region part");
}
pub fn language_primary(t: &Language) {
    check(same_slice(t.primary(), capture("primary").unwrap()), "primary() is the primary subtag");
}
pub fn language_extension(t: &Language) {
    part(
        t.extension(),
        capture("extlang"),
        "extension() misses the extended subtags",
        "extension() invents extended subtags",
        "extension() is the list of extended subtags",
    );
}
