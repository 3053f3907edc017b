//! C12: extension lookup.
use crate::lt::*;
use crate::seg::*;
use langtag::*;

fn lower(b: u8) -> u8 {
    if b >= b'A' && b <= b'Z' { b + 32 } else { b }
}
/// First extension introduced by `s`, found on the text itself.
fn lookup(t: &str, s: u8) -> Option<(usize, usize)> {
    let b = t.as_bytes();
    let mut i = 0;
    while i < t.len() {
        let e = ext_end(t, i);
        if lower(b[i]) == lower(s) {
            return Some((i, e));
        }
        i = e + 1;
    }
    None
}
pub fn each_get(v: &Extensions, s: Singleton) {
    let t = v.as_str();
    let want = lookup(t, s.unwrap());
    match (v.get(s), want) {
        (Some(g), Some((i, e))) => check(same_slice(g, &t[i..e]), "get() is the first such extension, complete"),
        (None, None) => check(true, "get() is nothing when there is none"),
        (Some(_), None) => check(false, "get() invents an extension"),
        (None, Some(_)) => check(false, "get() misses the extension"),
    }
}
pub fn each_iter_extension(v: &Extensions, s: Singleton) {
    let t = v.as_str();
    let want = lookup(t, s.unwrap());
    let mut it = v.iter_extension(s);
    match want {
        Some((i, e)) => {
            let x = &t[i..e];
            let mut j = 2;
            loop {
                let got = it.next();
                if j < x.len() {
                    let k = seg_end(x, j);
                    match got {
                        Some(g) => check(same_slice(g, &x[j..k]), "subtag of the looked-up extension"),
                        None => {
                            check(false, "a subtag of the looked-up extension is missing");
                            return;
                        }
                    }
                    j = k + 1;
                } else {
                    check(got.is_none(), "ends with the looked-up extension");
                    break;
                }
            }
        }
        None => check(it.next().is_none(), "no subtags when there is no such extension"),
    }
}
pub fn singleton(x: &Extension) {
    check(x.singleton().unwrap() == x.as_bytes()[0], "singleton() is the character the extension starts with");
}
