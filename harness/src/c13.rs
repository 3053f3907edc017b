//! C13: equality is ASCII case-insensitive text equality, for every pair of types.

macro_rules! equality {
    ($m:ident, $X:ident, $XBuf:ident, $Inv:ident, $lang:literal, $as:ident) => {
        pub mod $m {
            use crate::lt::*;
            use langtag::*;
            fn same(got: bool, a: &$X, b: &$X) {
                if got {
                    check(fold_eq(a, b), "equal values have the same text up to case");
                } else {
                    check(!fold_eq(a, b), "values with the same text up to case are equal");
                }
            }
            fn text<T: AsRef<[u8]> + ?Sized>(got: bool, a: &$X, b: &T) {
                if got {
                    check(in_lang(b, $lang), "a value equals only valid strings");
                    check(fold_eq(a, b), "a value equals only its own text up to case");
                } else if in_lang(b, $lang) {
                    check(!fold_eq(a, b), "a value equals its text up to case");
                }
            }
            pub fn loose_self(a: &$X, b: &$X) {
                same(a == b, a, b);
            }
            pub fn loose_self_ne(a: &$X, b: &$X) {
                same(!(a != b), a, b);
            }
            pub fn loose_buf_buf(a: $XBuf, b: $XBuf) {
                same(a == b, &a, &b);
            }
            pub fn loose_buf_ref(a: $XBuf, b: &$X) {
                same(a == b, &a, b);
            }
            pub fn loose_buf_borrowed(a: $XBuf, b: &$X) {
                same(a == *b, &a, b);
            }
            pub fn loose_ref_buf(a: &$X, b: $XBuf) {
                same(a == b, a, &b);
            }
            pub fn loose_borrowed_buf(a: &$X, b: $XBuf) {
                same(*a == b, a, &b);
            }
            pub fn loose_bytes(a: &$X, b: &[u8]) {
                if nondet() {
                    text(*a == *b, a, b);
                } else {
                    text(*a == b, a, b);
                }
            }
            pub fn loose_bytes_rev(a: &$X, b: &[u8]) {
                if nondet() {
                    text(*b == *a, a, b);
                } else {
                    text(b == *a, a, b);
                }
            }
            pub fn loose_str(a: &$X, b: &str) {
                if nondet() {
                    text(*a == *b, a, b);
                } else {
                    text(*a == b, a, b);
                }
            }
            pub fn loose_str_rev(a: &$X, b: &str) {
                if nondet() {
                    text(*b == *a, a, b);
                } else {
                    text(b == *a, a, b);
                }
            }
            pub fn loose_vec(a: &$X, b: Vec<u8>) {
                text(*a == b, a, &b);
            }
            pub fn loose_vec_rev(a: &$X, b: Vec<u8>) {
                text(b == *a, a, &b);
            }
            pub fn loose_string(a: &$X, b: String) {
                text(*a == b, a, &b);
            }
            pub fn loose_string_rev(a: &$X, b: String) {
                text(b == *a, a, &b);
            }
            pub fn loose_buf_bytes(a: $XBuf, b: &[u8]) {
                if nondet() {
                    text(a == *b, &a, b);
                } else {
                    text(a == b, &a, b);
                }
            }
            pub fn loose_buf_bytes_rev(a: $XBuf, b: &[u8]) {
                if nondet() {
                    text(*b == a, &a, b);
                } else {
                    text(b == a, &a, b);
                }
            }
            pub fn loose_buf_str(a: $XBuf, b: &str) {
                if nondet() {
                    text(a == *b, &a, b);
                } else {
                    text(a == b, &a, b);
                }
            }
            pub fn loose_buf_str_rev(a: $XBuf, b: &str) {
                if nondet() {
                    text(*b == a, &a, b);
                } else {
                    text(b == a, &a, b);
                }
            }
            pub fn loose_buf_vec(a: $XBuf, b: Vec<u8>) {
                text(a == b, &a, &b);
            }
            pub fn loose_buf_vec_rev(a: $XBuf, b: Vec<u8>) {
                text(b == a, &a, &b);
            }
            pub fn loose_buf_string(a: $XBuf, b: String) {
                text(a == b, &a, &b);
            }
            pub fn loose_buf_string_rev(a: $XBuf, b: String) {
                text(b == a, &a, &b);
            }
        }
    };
}
all_types!(equality);
