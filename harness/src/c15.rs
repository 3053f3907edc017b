//! C15: ordering is a total order that agrees with equality.
use core::cmp::Ordering;

fn code(o: Option<Ordering>) -> u8 {
    match o {
        None => 0,
        Some(Ordering::Less) => 1,
        Some(Ordering::Equal) => 2,
        Some(Ordering::Greater) => 3,
    }
}
fn rev(o: Ordering) -> Ordering {
    match o {
        Ordering::Less => Ordering::Greater,
        Ordering::Equal => Ordering::Equal,
        Ordering::Greater => Ordering::Less,
    }
}
macro_rules! ordering {
    ($m:ident, $X:ident, $XBuf:ident, $Inv:ident, $lang:literal, $as:ident) => {
        pub mod $m {
            use super::{code, rev};
            use crate::lt::*;
            use core::cmp::Ordering;
            use langtag::*;
            /// The whole relation, judged as an order.
            pub fn rel_cmp(a: &$X, b: &$X) -> Ordering {
                a.cmp(b)
            }
            fn same(got: Option<Ordering>, want: Ordering) {
                check(code(got) == code(Some(want)), "every form of comparison gives the same answer");
            }
            /// What comparing with a plain string must give.
            fn text<T: AsRef<[u8]> + ?Sized>(got: Option<Ordering>, a: &$X, b: &T) {
                if in_lang(b, $lang) {
                    let v = unsafe { <$X>::new_unchecked_from_bytes(b.as_ref()) };
                    check(code(got) == code(Some(a.cmp(v))), "a string compares like the value it parses to");
                } else {
                    check(got.is_none(), "a string that does not parse has no order");
                }
            }
            fn text_rev<T: AsRef<[u8]> + ?Sized>(got: Option<Ordering>, a: &$X, b: &T) {
                if in_lang(b, $lang) {
                    let v = unsafe { <$X>::new_unchecked_from_bytes(b.as_ref()) };
                    check(code(got) == code(Some(rev(a.cmp(v)))), "a string compares like the value it parses to");
                } else {
                    check(got.is_none(), "a string that does not parse has no order");
                }
            }
            pub fn loose_partial(a: &$X, b: &$X) {
                same(a.partial_cmp(b), a.cmp(b));
            }
            pub fn loose_lt(a: &$X, b: &$X) {
                check((a < b) == (code(Some(a.cmp(b))) == 1), "< agrees with cmp");
            }
            pub fn loose_le(a: &$X, b: &$X) {
                check((a <= b) == (code(Some(a.cmp(b))) <= 2), "<= agrees with cmp");
            }
            pub fn loose_gt(a: &$X, b: &$X) {
                check((a > b) == (code(Some(a.cmp(b))) == 3), "> agrees with cmp");
            }
            pub fn loose_ge(a: &$X, b: &$X) {
                check((a >= b) == (code(Some(a.cmp(b))) >= 2), ">= agrees with cmp");
            }
            pub fn loose_buf_cmp(a: $XBuf, b: $XBuf) {
                same(Some(a.cmp(&b)), a.$as().cmp(b.$as()));
            }
            pub fn loose_buf_partial(a: $XBuf, b: $XBuf) {
                same(a.partial_cmp(&b), a.$as().cmp(b.$as()));
            }
            pub fn loose_buf_ref(a: $XBuf, b: &$X) {
                same(a.partial_cmp(&b), a.$as().cmp(b));
            }
            pub fn loose_buf_borrowed(a: $XBuf, b: &$X) {
                same(a.partial_cmp(b), a.$as().cmp(b));
            }
            pub fn loose_ref_buf(a: &$X, b: $XBuf) {
                same((&a).partial_cmp(&&b), a.cmp(b.$as()));
            }
            pub fn loose_borrowed_buf(a: &$X, b: $XBuf) {
                same(a.partial_cmp(&b), a.cmp(b.$as()));
            }
            pub fn loose_bytes(a: &$X, b: &[u8]) {
                text(a.partial_cmp(b), a, b);
            }
            pub fn loose_bytes_ref(a: &$X, b: &[u8]) {
                text(a.partial_cmp(&b), a, b);
            }
            pub fn loose_bytes_rev(a: &$X, b: &[u8]) {
                text_rev(b.partial_cmp(a), a, b);
            }
            pub fn loose_bytes_ref_rev(a: &$X, b: &[u8]) {
                text_rev(<&[u8] as PartialOrd<$X>>::partial_cmp(&b, a), a, b);
            }
            pub fn loose_str(a: &$X, b: &str) {
                text(a.partial_cmp(b), a, b);
            }
            pub fn loose_str_ref(a: &$X, b: &str) {
                text(a.partial_cmp(&b), a, b);
            }
            pub fn loose_str_rev(a: &$X, b: &str) {
                text_rev(b.partial_cmp(a), a, b);
            }
            pub fn loose_str_ref_rev(a: &$X, b: &str) {
                text_rev(<&str as PartialOrd<$X>>::partial_cmp(&b, a), a, b);
            }
            pub fn loose_vec(a: &$X, b: Vec<u8>) {
                text(a.partial_cmp(&b), a, &b);
            }
            pub fn loose_vec_rev(a: &$X, b: Vec<u8>) {
                text_rev(b.partial_cmp(a), a, &b);
            }
            pub fn loose_string(a: &$X, b: String) {
                text(a.partial_cmp(&b), a, &b);
            }
            pub fn loose_string_rev(a: &$X, b: String) {
                text_rev(b.partial_cmp(a), a, &b);
            }
            pub fn loose_buf_bytes(a: $XBuf, b: &[u8]) {
                text(a.partial_cmp(b), &a, b);
            }
            pub fn loose_buf_bytes_ref(a: $XBuf, b: &[u8]) {
                text(a.partial_cmp(&b), &a, b);
            }
            pub fn loose_buf_bytes_rev(a: $XBuf, b: &[u8]) {
                text_rev(b.partial_cmp(&a), &a, b);
            }
            pub fn loose_buf_bytes_ref_rev(a: $XBuf, b: &[u8]) {
                text_rev(<&[u8] as PartialOrd<$XBuf>>::partial_cmp(&b, &a), &a, b);
            }
            pub fn loose_buf_str(a: $XBuf, b: &str) {
                text(a.partial_cmp(b), &a, b);
            }
            pub fn loose_buf_str_ref(a: $XBuf, b: &str) {
                text(a.partial_cmp(&b), &a, b);
            }
            pub fn loose_buf_str_rev(a: $XBuf, b: &str) {
                text_rev(b.partial_cmp(&a), &a, b);
            }
            pub fn loose_buf_str_ref_rev(a: $XBuf, b: &str) {
                text_rev(<&str as PartialOrd<$XBuf>>::partial_cmp(&b, &a), &a, b);
            }
            pub fn loose_buf_vec(a: $XBuf, b: Vec<u8>) {
                text(a.partial_cmp(&b), &a, &b);
            }
            pub fn loose_buf_vec_rev(a: $XBuf, b: Vec<u8>) {
                text_rev(b.partial_cmp(&a), &a, &b);
            }
            pub fn loose_buf_string(a: $XBuf, b: String) {
                text(a.partial_cmp(&b), &a, &b);
            }
            pub fn loose_buf_string_rev(a: $XBuf, b: String) {
                text_rev(b.partial_cmp(&a), &a, &b);
            }
        }
    };
}
all_types!(ordering);
