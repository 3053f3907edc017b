//! C18: what safe code can obtain. The entry points are generated by tools/witness.py from the
//! public interface of the crate: one per safe function that hands out, or can change, a value.
use crate::lt::*;
use langtag::*;

/// A value and everything reachable from it is valid.
pub trait Valid {
    fn valid(self);
}
macro_rules! text {
    ($m:ident, $X:ident, $XBuf:ident, $Inv:ident, $lang:literal, $as:ident) => {
        impl Valid for &$X {
            fn valid(self) {
                check(in_lang(self.as_bytes(), $lang), concat!("a ", $lang, " obtained is valid"))
            }
        }
        impl Valid for $XBuf {
            fn valid(self) {
                check(in_lang(self.as_bytes(), $lang), concat!("a ", $lang, "Buf obtained is valid"))
            }
        }
        impl Valid for &$XBuf {
            fn valid(self) {
                check(in_lang(self.as_bytes(), $lang), concat!("a ", $lang, "Buf obtained is valid"))
            }
        }
        impl Valid for Box<$X> {
            fn valid(self) {
                (&*self).valid()
            }
        }
        impl<'a> Valid for std::borrow::Cow<'a, $X> {
            fn valid(self) {
                (&*self).valid()
            }
        }
    };
}
all_types!(text);
impl Valid for GrandfatheredLangTag {
    fn valid(self) {
        check(in_lang(self.as_bytes(), "Grandfathered"), "a GrandfatheredLangTag obtained is valid")
    }
}
impl Valid for &GrandfatheredLangTag {
    fn valid(self) {
        check(in_lang(self.as_bytes(), "Grandfathered"), "a GrandfatheredLangTag obtained is valid")
    }
}
impl Valid for Singleton {
    fn valid(self) {
        let c = self.unwrap();
        check(c.is_ascii_alphanumeric() && c != b'x' && c != b'X', "a Singleton obtained is valid");
    }
}
impl Valid for &Singleton {
    fn valid(self) {
        (*self).valid()
    }
}
impl Valid for TypedLangTag<'_> {
    fn valid(self) {
        match self {
            TypedLangTag::Normal(n) => n.valid(),
            TypedLangTag::PrivateUse(p) => p.valid(),
            TypedLangTag::Grandfathered(g) => g.valid(),
        }
    }
}
macro_rules! iterators {
    ($($t:ident)*) => {
        $(impl<'a> Valid for $t<'a> {
            fn valid(mut self) {
                while nondet() {
                    if let Some(v) = self.next() {
                        v.valid()
                    }
                }
            }
        })*
    };
}
iterators! { ExtensionIter ExtensionsIter LanguageExtensionIter PrivateUseIter }
impl<'a> Valid for VariantsIter<'a> {
    fn valid(mut self) {
        while nondet() {
            if nondet() {
                if let Some(v) = self.next() {
                    v.valid()
                }
            } else {
                if let Some(v) = self.next_back() {
                    v.valid()
                }
            }
        }
    }
}
impl<T: Valid> Valid for Option<T> {
    fn valid(self) {
        if let Some(v) = self {
            v.valid()
        }
    }
}
impl<T: Valid, E> Valid for Result<T, E> {
    fn valid(self) {
        if let Ok(v) = self {
            v.valid()
        }
    }
}
impl<A: Valid, B: Valid> Valid for (A, B) {
    fn valid(self) {
        self.0.valid();
        self.1.valid();
    }
}
macro_rules! plain {
    ($($t:ty)*) => { $(impl Valid for $t { fn valid(self) {} })* };
}
plain! { () bool usize u8 char &str &[u8] String Vec<u8> core::cmp::Ordering }

include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../build/gen/c18.rs"));
