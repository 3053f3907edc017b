//! Abstract values. All symbolic quantities refer to markers of the state's automaton.
use crate::auto::{Mk, ORIGIN};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Ity {
    Bool,
    Char,
    U(u16),
    I(u16),
    Usize,
    Isize,
}
impl Ity {
    pub fn bits(self) -> u32 {
        match self {
            Ity::Bool => 1,
            Ity::Char => 32,
            Ity::U(b) | Ity::I(b) => b as u32,
            Ity::Usize | Ity::Isize => 64,
        }
    }
    pub fn signed(self) -> bool {
        matches!(self, Ity::I(_) | Ity::Isize)
    }
    pub fn range(self) -> (i128, i128) {
        let b = self.bits();
        if self == Ity::Char {
            return (0, 0x10ffff);
        }
        if self.signed() {
            if b >= 128 { (i128::MIN, i128::MAX) } else { (-(1 << (b - 1)), (1 << (b - 1)) - 1) }
        } else if b >= 127 {
            (0, i128::MAX)
        } else {
            (0, (1 << b) - 1)
        }
    }
    pub fn wrap(self, v: i128) -> i128 {
        let b = self.bits();
        if b >= 128 {
            return v;
        }
        let m = (1i128 << b) - 1;
        let u = v & m;
        if self.signed() && u >> (b - 1) & 1 == 1 { u - (1 << b) } else { u }
    }
    pub fn is_pos(self) -> bool {
        matches!(self, Ity::Usize | Ity::Isize)
    }
}

/// A position in the input: marker (or origin) plus offset.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Pe {
    pub m: Mk,
    pub k: i64,
}
impl Pe {
    pub fn c(k: i64) -> Pe {
        Pe { m: ORIGIN, k }
    }
    pub fn add(self, k: i64) -> Pe {
        Pe { m: self.m, k: self.k + k }
    }
}

/// A term depending on the letter at a position: table from byte to value.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Term {
    pub p: Pe,
    pub track: u8,
    pub tab: Rc<Vec<i128>>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Int {
    C(i128),
    /// pos(p) - pos(m) + k
    D { p: Mk, m: Mk, k: i64 },
    /// k + sum of letter terms
    L { k: i128, t: Rc<Vec<Term>> },
    /// unknown
    Top,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Src {
    Track(u8),
    /// an owned copy of a text, every byte sent through the table
    Map(u8, Rc<Vec<u8>>),
    Bytes(Rc<Vec<u8>>),
    Vals(Rc<Vec<Val>>),
}

/// A (pointer to a) contiguous sequence: text, bytes or values.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Sl {
    pub src: Src,
    pub lo: Pe,
    pub hi: Pe,
}
impl Src {
    /// The input text this is (a copy of), byte for byte.
    pub fn track(&self) -> Option<usize> {
        match self {
            Src::Track(t) | Src::Map(t, _) => Some(*t as usize),
            _ => None,
        }
    }
    /// The byte shown for a byte of the input text.
    pub fn byte(&self, b: u8) -> u8 {
        match self {
            Src::Map(_, m) => m[b as usize],
            _ => b,
        }
    }
}
impl Sl {
    pub fn bytes(b: Vec<u8>) -> Sl {
        let n = b.len() as i64;
        Sl { src: Src::Bytes(Rc::new(b)), lo: Pe::c(0), hi: Pe::c(n) }
    }
    pub fn vals(b: Vec<Val>) -> Sl {
        let n = b.len() as i64;
        Sl { src: Src::Vals(Rc::new(b)), lo: Pe::c(0), hi: Pe::c(n) }
    }
}

/// A memory place: thread, frame, local and field path.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Pl {
    pub th: u8,
    pub fr: u16,
    pub local: u32,
    pub path: Vec<u32>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Val {
    Undef,
    Int(Int, Ity),
    Sl(Sl),
    /// struct, tuple, enum variant, closure or array
    Adt(u32, Rc<Vec<Val>>),
    Ref(Pl),
    RefV(Rc<Val>),
    /// pointer to a value of erased type (interned concrete pointee type)
    Dyn(Rc<Val>, u32),
    /// function pointer (interned instance)
    Fn(u32),
    /// a value nothing is known about and nothing depends on
    Opaque,
}
impl Val {
    pub fn c(v: i128, t: Ity) -> Val {
        Val::Int(Int::C(v), t)
    }
    pub fn bool(b: bool) -> Val {
        Val::c(b as i128, Ity::Bool)
    }
    pub fn usize(v: i128) -> Val {
        Val::c(v, Ity::Usize)
    }
    pub fn unit() -> Val {
        Val::Adt(0, Rc::new(vec![]))
    }
    pub fn adt(v: u32, f: Vec<Val>) -> Val {
        Val::Adt(v, Rc::new(f))
    }
    pub fn none() -> Val {
        Val::adt(0, vec![])
    }
    pub fn some(v: Val) -> Val {
        Val::adt(1, vec![v])
    }
    /// Visits every marker mentioned.
    pub fn marks(&mut self, f: &mut dyn FnMut(&mut Mk)) {
        match self {
            Val::Int(Int::D { p, m, .. }, _) => {
                f(p);
                f(m);
            }
            Val::Int(Int::L { t, .. }, _) => {
                if t.iter().any(|t| t.p.m != ORIGIN) {
                    for t in Rc::make_mut(t) {
                        f(&mut t.p.m);
                    }
                }
            }
            Val::Sl(s) => {
                f(&mut s.lo.m);
                f(&mut s.hi.m);
                if let Src::Vals(v) = &mut s.src
                    && v.iter().any(|v| v.has_marks())
                {
                    for v in Rc::make_mut(v) {
                        v.marks(f);
                    }
                }
            }
            Val::Adt(_, v) => {
                if v.iter().any(|v| v.has_marks()) {
                    for v in Rc::make_mut(v) {
                        v.marks(f);
                    }
                }
            }
            Val::RefV(v) | Val::Dyn(v, _) => {
                if v.has_marks() {
                    Rc::make_mut(v).marks(f);
                }
            }
            _ => {}
        }
    }
    pub fn has_marks(&self) -> bool {
        match self {
            Val::Int(Int::D { p, m, .. }, _) => *p != ORIGIN || *m != ORIGIN,
            Val::Int(Int::L { t, .. }, _) => t.iter().any(|t| t.p.m != ORIGIN),
            Val::Sl(s) => {
                s.lo.m != ORIGIN
                    || s.hi.m != ORIGIN
                    || matches!(&s.src, Src::Vals(v) if v.iter().any(|v| v.has_marks()))
            }
            Val::Adt(_, v) => v.iter().any(|v| v.has_marks()),
            Val::RefV(v) | Val::Dyn(v, _) => v.has_marks(),
            _ => false,
        }
    }
}
