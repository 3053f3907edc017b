//! C17: singletons are exactly the RFC 5646 singleton characters.
use crate::lt::*;
use core::fmt::Display;
use core::str::FromStr;
use langtag::*;

fn spec(b: u8) -> bool {
    (b >= b'0' && b <= b'9') || (b >= b'a' && b <= b'z' && b != b'x') || (b >= b'A' && b <= b'Z' && b != b'X')
}
fn judge(r: Result<Singleton, u8>, b: u8) {
    match r {
        Ok(s) => {
            check(spec(b), "accepted byte is a singleton");
            check(s.unwrap() == b, "the singleton is the byte itself");
        }
        Err(e) => {
            check(!spec(b), "rejected byte is not a singleton");
            check(e == b, "rejected byte is handed back");
        }
    }
}
pub fn new(b: u8) {
    judge(Singleton::new(b).map_err(|e| e.0), b);
}
pub fn try_from_u8(b: u8) {
    judge(Singleton::try_from(b).map_err(|e| e.0), b);
}
fn one(t: &str) -> Option<u8> {
    if t.len() == 1 { Some(t.as_bytes()[0]) } else { None }
}
fn judge_str(r: Result<Singleton, ()>, t: &str) {
    match (r, one(t)) {
        (Ok(s), Some(b)) => {
            check(spec(b), "accepted text is a singleton");
            check(s.unwrap() == b, "the singleton is the text itself");
        }
        (Ok(_), None) => check(false, "accepted text has one character"),
        (Err(()), Some(b)) => check(!spec(b), "rejected text is not a singleton"),
        (Err(()), None) => {}
    }
}
pub fn from_string(t: &str) {
    let r = Singleton::from_string(t);
    if let Err(e) = &r {
        check(same_slice(e.0, t), "rejected text is handed back");
    }
    judge_str(r.map_err(|_| ()), t);
}
pub fn from_str(t: &str) {
    let r = Singleton::from_str(t);
    if let Err(e) = &r {
        check(eq_text(e.0.as_str(), t), "rejected text is handed back");
    }
    judge_str(r.map_err(|_| ()), t);
}
pub fn try_from_char(t: &str) {
    if let Some(c) = t.chars().next() {
        match Singleton::try_from(c) {
            Ok(s) => {
                let b = t.as_bytes()[0];
                check(spec(b), "accepted character is a singleton");
                check(s.unwrap() == b, "the singleton is the character itself");
            }
            Err(e) => {
                check(!spec(t.as_bytes()[0]), "rejected character is not a singleton");
                check(e.0 == c, "rejected character is handed back");
            }
        }
    }
}
pub fn eq_u8(s: Singleton, b: u8) {
    check((s == b) == (s.unwrap() == b), "compares with bytes by value");
    check((s != b) == (s.unwrap() != b), "compares with bytes by value");
}
pub fn each_eq_char(t: &str, s: Singleton) {
    if let Some(c) = t.chars().next() {
        check((s == c) == (t.as_bytes()[0] == s.unwrap()), "compares with characters by value");
    }
}
pub fn eq_singleton(a: Singleton, b: Singleton) {
    check((a == b) == (a.unwrap() == b.unwrap()), "equal when the characters are");
    check((a < b) == (a.unwrap() < b.unwrap()), "ordered as the characters are");
}
pub fn display(s: Singleton) {
    out_reset();
    let r = Display::fmt(&s, &mut formatter());
    check(r.is_err() || out_is_char(s.unwrap() as char), "prints as its character");
}
