//! C20: serde round-trips text verbatim and rejects exactly the invalid strings.
use crate::lt::*;
use core::fmt;
use serde::de::{Deserializer, Visitor};
use serde::ser::{Impossible, Serializer};

#[derive(Debug)]
pub struct Fail;
impl fmt::Display for Fail {
    fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Fail {}
impl serde::ser::Error for Fail {
    fn custom<T: fmt::Display>(_: T) -> Self {
        Fail
    }
}
impl serde::de::Error for Fail {
    fn custom<T: fmt::Display>(_: T) -> Self {
        Fail
    }
}

/// A data format that only takes the given text, as a string.
pub struct Expect<'a>(&'a str);
macro_rules! refuse {
    ($($f:ident($t:ty);)*) => { $(fn $f(self, _: $t) -> Result<bool, Fail> { Ok(false) })* };
}
impl<'a> Serializer for Expect<'a> {
    type Ok = bool;
    type Error = Fail;
    type SerializeSeq = Impossible<bool, Fail>;
    type SerializeTuple = Impossible<bool, Fail>;
    type SerializeTupleStruct = Impossible<bool, Fail>;
    type SerializeTupleVariant = Impossible<bool, Fail>;
    type SerializeMap = Impossible<bool, Fail>;
    type SerializeStruct = Impossible<bool, Fail>;
    type SerializeStructVariant = Impossible<bool, Fail>;
    fn serialize_str(self, v: &str) -> Result<bool, Fail> {
        Ok(eq_text(v, self.0))
    }
    refuse! {
        serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64);
        serialize_u8(u8); serialize_u16(u16); serialize_u32(u32); serialize_u64(u64);
        serialize_f32(f32); serialize_f64(f64); serialize_char(char); serialize_bytes(&[u8]);
        serialize_unit_struct(&'static str);
    }
    fn serialize_none(self) -> Result<bool, Fail> {
        Ok(false)
    }
    fn serialize_unit(self) -> Result<bool, Fail> {
        Ok(false)
    }
    fn serialize_some<T: ?Sized + serde::Serialize>(self, _: &T) -> Result<bool, Fail> {
        Ok(false)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<bool, Fail> {
        Ok(false)
    }
    fn serialize_newtype_struct<T: ?Sized + serde::Serialize>(self, _: &'static str, _: &T) -> Result<bool, Fail> {
        Ok(false)
    }
    fn serialize_newtype_variant<T: ?Sized + serde::Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<bool, Fail> {
        Ok(false)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Fail> {
        Err(Fail)
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Fail> {
        Err(Fail)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Fail> {
        Err(Fail)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Fail> {
        Err(Fail)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Fail> {
        Err(Fail)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Fail> {
        Err(Fail)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Fail> {
        Err(Fail)
    }
}

/// Data holding one string: borrowed from the input, lent for the call, or owned.
pub struct Borrowed<'de>(pub &'de str);
pub struct Lent<'a>(&'a str);
pub struct Owned<'a>(&'a str);
pub struct Number;
macro_rules! data {
    ($t:ty, $de:lifetime, $($lt:lifetime)?, |$s:ident, $v:ident| $e:expr) => {
        impl<$de $(, $lt)?> Deserializer<$de> for $t {
            type Error = Fail;
            fn deserialize_any<V: Visitor<$de>>(self, $v: V) -> Result<V::Value, Fail> {
                let $s = self;
                $e
            }
            serde::forward_to_deserialize_any! {
                bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
                bytes byte_buf option unit unit_struct newtype_struct seq tuple
                tuple_struct map struct enum identifier ignored_any
            }
        }
    };
}
data!(Borrowed<'de>, 'de, , |s, v| v.visit_borrowed_str(s.0));
data!(Lent<'a>, 'de, 'a, |s, v| v.visit_str(s.0));
data!(Owned<'a>, 'de, 'a, |s, v| v.visit_string(String::from(s.0)));
/// A leaf, or leaves in a wrapper or a sequence.
#[derive(Clone, Copy)]
pub struct Leaf<'de>(pub &'de str, pub u8);
data!(Leaf<'de>, 'de, , |s, v| if nondet() { v.visit_borrowed_str(s.0) } else { v.visit_u8(s.1) });
pub struct Outer<'de>(pub Leaf<'de>, pub bool);
data!(Outer<'de>, 'de, , |s, v| if nondet() {
    v.visit_newtype_struct(s.0)
} else {
    v.visit_seq(s)
});
impl<'de> serde::de::SeqAccess<'de> for Outer<'de> {
    type Error = Fail;
    fn next_element_seed<T: serde::de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Fail> {
        if self.1 {
            return Ok(None);
        }
        self.1 = true;
        seed.deserialize(self.0).map(Some)
    }
}
data!(Number, 'de, , |_s, v| v.visit_u64(5));

macro_rules! serde_type {
    ($m:ident, $T:ident, $B:ident, $E:ident, $lang:literal, $as:ident) => {
        pub mod $m {
            use super::*;
            use langtag::*;
            use serde::{Deserialize, Serialize};
            pub fn serialize(v: &$T) {
                match v.serialize(Expect(v.as_str())) {
                    Ok(b) => check(b, "written as a string, its text"),
                    Err(_) => check(false, "can be written"),
                }
            }
            pub fn serialize_buf(v: &$B) {
                match v.serialize(Expect(v.as_str())) {
                    Ok(b) => check(b, "written as a string, its text"),
                    Err(_) => check(false, "can be written"),
                }
            }
            fn owned(r: Result<$B, Fail>, t: &str) {
                match r {
                    Ok(v) => {
                        check(in_lang(t, $lang), "a string that does not parse is refused");
                        check(eq_text(v.as_str(), t), "the text read is the text stored");
                    }
                    Err(_) => check(!in_lang(t, $lang), "a string that parses is accepted"),
                }
            }
            pub fn borrowed(t: &str) {
                match <&$T>::deserialize(Borrowed(t)) {
                    Ok(v) => {
                        check(in_lang(t, $lang), "a string that does not parse is refused");
                        check(same_slice(v, t), "the value read is the text stored");
                    }
                    Err(_) => check(!in_lang(t, $lang), "a string that parses is accepted"),
                }
            }
            pub fn buf_borrowed(t: &str) {
                owned($B::deserialize(Borrowed(t)), t);
            }
            pub fn buf_lent(t: &str) {
                owned($B::deserialize(Lent(t)), t);
            }
            pub fn buf_owned(t: &str) {
                owned($B::deserialize(Owned(t)), t);
            }
            pub fn number() {
                check(<&$T>::deserialize(Number).is_err(), "only strings are accepted");
                check($B::deserialize(Number).is_err(), "only strings are accepted");
            }
        }
    };
}
all_types!(serde_type);
