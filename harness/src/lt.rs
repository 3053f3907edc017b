//! Vocabulary of the analyser.
use core::fmt::Formatter;

/// Must hold on every input reaching this point.
#[inline(never)]
pub fn check(_cond: bool, _label: &'static str) {
    unimplemented!()
}
#[inline(never)]
pub fn nondet() -> bool {
    unimplemented!()
}
#[inline(never)]
pub fn nondet_variant<T>() -> T {
    unimplemented!()
}
#[inline(never)]
pub fn assume(_cond: bool) {
    unimplemented!()
}
/// The part of the first argument that RFC 5646 assigns to a component.
#[inline(never)]
pub fn capture(_name: &'static str) -> Option<&'static str> {
    unimplemented!()
}
#[inline(never)]
pub fn in_lang<T: AsRef<[u8]> + ?Sized>(_t: &T, _lang: &'static str) -> bool {
    unimplemented!()
}
#[inline(never)]
pub fn is_text<T: AsRef<[u8]> + ?Sized>(_t: &T, _text: &'static str) -> bool {
    unimplemented!()
}
#[inline(never)]
pub fn is_text_fold<T: AsRef<[u8]> + ?Sized>(_t: &T, _text: &'static str) -> bool {
    unimplemented!()
}
/// The very same slice of the caller's text.
#[inline(never)]
pub fn same_slice<T: AsRef<[u8]> + ?Sized, U: AsRef<[u8]> + ?Sized>(_a: &T, _b: &U) -> bool {
    unimplemented!()
}
/// Some part of the caller's text (all of it is `_b`), or an empty text.
#[inline(never)]
pub fn part_of<T: AsRef<[u8]> + ?Sized, U: AsRef<[u8]> + ?Sized>(_a: &T, _b: &U) -> bool {
    unimplemented!()
}
#[inline(never)]
pub fn eq_text<T: AsRef<[u8]> + ?Sized, U: AsRef<[u8]> + ?Sized>(_a: &T, _b: &U) -> bool {
    unimplemented!()
}
#[inline(never)]
pub fn fold_eq<T: AsRef<[u8]> + ?Sized, U: AsRef<[u8]> + ?Sized>(_a: &T, _b: &U) -> bool {
    unimplemented!()
}
/// Does the type have its own version of a method its trait provides?
#[inline(never)]
pub fn overrides<T>(_method: &'static str) -> bool {
    unimplemented!()
}
#[inline(never)]
pub fn out_reset() {
    unimplemented!()
}
/// Everything written to the formatter since `out_reset` is exactly this text.
#[inline(never)]
pub fn out_is<T: AsRef<[u8]> + ?Sized>(_t: &T) -> bool {
    unimplemented!()
}
#[inline(never)]
pub fn out_is_char(_c: char) -> bool {
    unimplemented!()
}
#[inline(never)]
pub fn formatter<'a>() -> Formatter<'a> {
    unimplemented!()
}
#[inline(never)]
pub fn observe(_kind: u32) {
    unimplemented!()
}
#[inline(never)]
pub fn observe_int<T>(_kind: u32, _v: T) {
    unimplemented!()
}
#[inline(never)]
pub fn observe_bytes(_kind: u32, _v: &[u8]) {
    unimplemented!()
}
/// Both closures must produce the same sequence of observations.
#[inline(never)]
pub fn lockstep<A: FnMut(), B: FnMut()>(_a: A, _b: B) {
    unimplemented!()
}

/// Definitions of library functions whose own source is architecture-specific.
pub mod shim {
    use core::cmp::Ordering;
    pub fn memchr(x: u8, text: &[u8]) -> Option<usize> {
        let mut i = 0;
        while i < text.len() {
            if text[i] == x {
                return Some(i);
            }
            i += 1;
        }
        None
    }
    pub fn memrchr(x: u8, text: &[u8]) -> Option<usize> {
        let mut i = text.len();
        while i > 0 {
            i -= 1;
            if text[i] == x {
                return Some(i);
            }
        }
        None
    }
    pub fn slice_eq(a: &[u8], b: &[u8]) -> bool {
        if a.len() != b.len() {
            return false;
        }
        let mut i = 0;
        while i < a.len() {
            if a[i] != b[i] {
                return false;
            }
            i += 1;
        }
        true
    }
    pub fn compare_bytes(a: &[u8], b: &[u8]) -> i32 {
        let mut i = 0;
        while i < a.len() {
            if a[i] < b[i] {
                return -1;
            }
            if a[i] > b[i] {
                return 1;
            }
            i += 1;
        }
        0
    }
    pub fn slice_ne(a: &[u8], b: &[u8]) -> bool {
        !slice_eq(a, b)
    }
    pub fn slice_eq_fold(a: &[u8], b: &[u8]) -> bool {
        if a.len() != b.len() {
            return false;
        }
        let mut i = 0;
        while i < a.len() {
            let (x, y) = (a[i], b[i]);
            let x = if x >= b'A' && x <= b'Z' { x + 32 } else { x };
            let y = if y >= b'A' && y <= b'Z' { y + 32 } else { y };
            if x != y {
                return false;
            }
            i += 1;
        }
        true
    }
    pub fn slice_cmp(a: &[u8], b: &[u8]) -> Ordering {
        let mut i = 0;
        loop {
            if i >= a.len() {
                return if i >= b.len() { Ordering::Equal } else { Ordering::Less };
            }
            if i >= b.len() {
                return Ordering::Greater;
            }
            if a[i] < b[i] {
                return Ordering::Less;
            }
            if a[i] > b[i] {
                return Ordering::Greater;
            }
            i += 1;
        }
    }
    pub fn slice_partial_cmp(a: &[u8], b: &[u8]) -> Option<Ordering> {
        Some(slice_cmp(a, b))
    }
    pub fn str_find(h: &str, n: &str) -> Option<usize> {
        let (h, n) = (h.as_bytes(), n.as_bytes());
        let mut i = 0;
        while i + n.len() <= h.len() {
            let mut j = 0;
            while j < n.len() && h[i + j] == n[j] {
                j += 1;
            }
            if j == n.len() {
                return Some(i);
            }
            i += 1;
        }
        None
    }
    pub fn str_rfind(h: &str, n: &str) -> Option<usize> {
        let (h, n) = (h.as_bytes(), n.as_bytes());
        if n.len() > h.len() {
            return None;
        }
        let mut i = h.len() - n.len();
        loop {
            let mut j = 0;
            while j < n.len() && h[i + j] == n[j] {
                j += 1;
            }
            if j == n.len() {
                return Some(i);
            }
            if i == 0 {
                return None;
            }
            i -= 1;
        }
    }
    pub fn str_contains(h: &str, n: &str) -> bool {
        str_find(h, n).is_some()
    }
    pub fn str_split_once<'a>(h: &'a str, n: &str) -> Option<(&'a str, &'a str)> {
        let i = str_find(h, n)?;
        Some((&h[..i], &h[i + n.len()..]))
    }
    pub fn str_rsplit_once<'a>(h: &'a str, n: &str) -> Option<(&'a str, &'a str)> {
        let i = str_rfind(h, n)?;
        Some((&h[..i], &h[i + n.len()..]))
    }
}
