//! C14: hashing agrees with equality, owned or borrowed.
use crate::lt::*;
use core::hash::{Hash, Hasher};

/// Shows everything it is fed.
pub(crate) struct Observer;
impl Hasher for Observer {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        observe_bytes(1, b)
    }
    fn write_u8(&mut self, i: u8) {
        observe_int(2, i)
    }
    fn write_u16(&mut self, i: u16) {
        observe_int(3, i)
    }
    fn write_u32(&mut self, i: u32) {
        observe_int(4, i)
    }
    fn write_u64(&mut self, i: u64) {
        observe_int(5, i)
    }
    fn write_usize(&mut self, i: usize) {
        observe_int(6, i)
    }
    fn write_i8(&mut self, i: i8) {
        observe_int(7, i)
    }
    fn write_i32(&mut self, i: i32) {
        observe_int(8, i)
    }
    fn write_i64(&mut self, i: i64) {
        observe_int(9, i)
    }
    fn write_isize(&mut self, i: isize) {
        observe_int(10, i)
    }
}
pub(crate) fn alike<A: Hash + ?Sized, B: Hash + ?Sized>(a: &A, b: &B) {
    lockstep(|| a.hash(&mut Observer), || b.hash(&mut Observer));
}

macro_rules! hashing {
    ($m:ident, $X:ident, $XBuf:ident, $Inv:ident, $lang:literal, $as:ident) => {
        pub mod $m {
            use super::alike;
            use crate::lt::*;
            use langtag::*;
            pub fn loose_borrowed(a: &$X, b: &$X) {
                assume(fold_eq(a, b));
                alike(a, b);
            }
            pub fn loose_owned(a: $XBuf, b: $XBuf) {
                assume(fold_eq(&a, &b));
                alike(&a, &b);
            }
            pub fn loose_owned_borrowed(a: $XBuf, b: &$X) {
                assume(fold_eq(&a, b));
                alike(&a, b);
            }
            pub fn loose_reference(a: &$X, b: $XBuf) {
                assume(fold_eq(a, &b));
                alike(&a, b.$as());
            }
        }
    };
}
all_types!(hashing);

pub fn grandfathered() {
    let a = nondet_variant::<langtag::GrandfatheredLangTag>();
    let b = nondet_variant::<langtag::GrandfatheredLangTag>();
    assume(a == b);
    alike(&a, &b);
}
