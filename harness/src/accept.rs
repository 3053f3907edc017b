//! C01, C02: parsing succeeds exactly on the RFC 5646 language of the type, whatever the route.
macro_rules! accept {
    ($m:ident, $T:ident, $B:ident, $E:ident, $lang:literal, $as:ident) => {
        pub mod $m {
            use crate::lt::*;
            use core::str::FromStr;
            use langtag::*;
            fn judge<A: AsRef<[u8]> + ?Sized>(input: &A, accepted: bool) {
                if accepted {
                    check(in_lang(input, $lang), "accepted input is well-formed");
                } else {
                    check(!in_lang(input, $lang), "rejected input is not well-formed");
                }
            }
            pub fn new_bytes(t: &[u8]) {
                judge(t, $T::new(t).is_ok());
            }
            pub fn new_str(t: &str) {
                judge(t, $T::new(t).is_ok());
            }
            pub fn new_vec(t: &Vec<u8>) {
                judge(t, $T::new(t).is_ok());
            }
            pub fn new_string(t: &String) {
                judge(t, $T::new(t).is_ok());
            }
            pub fn from_bytes(t: &[u8]) {
                judge(t, $T::from_bytes(t).is_ok());
            }
            pub fn from_str(t: &str) {
                judge(t, $T::from_str(t).is_ok());
            }
            pub fn validate_bytes(t: &[u8]) {
                judge(t, $T::validate_bytes(t));
            }
            pub fn validate_str(t: &str) {
                judge(t, $T::validate_str(t));
            }
            pub fn try_from_bytes(t: &[u8]) {
                let r: Result<&$T, _> = t.try_into();
                judge(t, r.is_ok());
            }
            pub fn try_from_str(t: &str) {
                let r: Result<&$T, _> = t.try_into();
                judge(t, r.is_ok());
            }
            pub fn buf_new_vec(t: &Vec<u8>) {
                judge(t, $B::new(t.clone()).is_ok());
            }
            pub fn buf_new_string(t: &String) {
                judge(t, $B::new(t.clone()).is_ok());
            }
            pub fn buf_from_bytes(t: &Vec<u8>) {
                judge(t, $B::from_bytes(t.clone()).is_ok());
            }
            pub fn buf_from_string(t: &String) {
                judge(t, $B::from_string(t.clone()).is_ok());
            }
            pub fn buf_try_from_vec(t: &Vec<u8>) {
                judge(t, $B::try_from(t.clone()).is_ok());
            }
            pub fn buf_try_from_string(t: &String) {
                judge(t, $B::try_from(t.clone()).is_ok());
            }
            pub fn buf_parse(t: &str) {
                judge(t, <$B as FromStr>::from_str(t).is_ok());
            }
        }
    };
}
