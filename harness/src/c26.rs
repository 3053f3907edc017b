//! C26: operations that a trait derives from others agree with those.
use crate::lt::*;
use langtag::*;

fn same<'a, T: AsRef<[u8]> + ?Sized>(a: Option<&'a T>, b: Option<&'a T>, label: &'static str) {
    match (a, b) {
        (Some(a), Some(b)) => check(same_slice(a, b), label),
        (None, None) => (),
        _ => check(false, label),
    }
}
/// `nth` is that many steps and one more, and leaves the iterator where they do.
fn nth<'a, T: AsRef<[u8]> + ?Sized + 'a, I: Iterator<Item = &'a T>>(mut a: I, mut b: I, n: usize) {
    let got = a.nth(n);
    let mut i = 0;
    while i < n {
        if b.next().is_none() {
            check(got.is_none(), "nth past the end");
            return;
        }
        i += 1;
    }
    same(got, b.next(), "nth agrees with stepping");
    same(a.next(), b.next(), "nth leaves the iterator where stepping does");
}
fn last<'a, T: AsRef<[u8]> + ?Sized + 'a, I: Iterator<Item = &'a T>>(a: I, mut b: I) {
    let got = a.last();
    let mut want = None;
    while let Some(x) = b.next() {
        want = Some(x);
    }
    same(got, want, "last agrees with stepping");
}
fn fold<'a, T: AsRef<[u8]> + ?Sized + 'a, I: Iterator<Item = &'a T>>(a: I, b: I) {
    let b = a.fold(b, |mut b, x| {
        same(Some(x), b.next(), "fold agrees with stepping");
        b
    });
    let mut b = b;
    check(b.next().is_none(), "fold goes on to the end");
}
fn for_each<'a, T: AsRef<[u8]> + ?Sized + 'a, I: Iterator<Item = &'a T>>(a: I, mut b: I) {
    a.for_each(|x| same(Some(x), b.next(), "for_each agrees with stepping"));
    check(b.next().is_none(), "for_each goes on to the end");
}
/// The number of items lies between the bounds announced, after any number of steps.
fn size_hint<'a, T: AsRef<[u8]> + ?Sized + 'a, I: Iterator<Item = &'a T>>(mut a: I) {
    while nondet() {
        let _ = a.next();
    }
    let (mut least, mut most) = a.size_hint();
    while let Some(_) = a.next() {
        if least > 0 {
            least -= 1;
        }
        if let Some(n) = most {
            check(n > 0, "no more items than size_hint announces");
            most = Some(n - 1);
        }
    }
    check(least == 0, "no fewer items than size_hint announces");
}
fn count<'a, T: AsRef<[u8]> + ?Sized + 'a, I: Iterator<Item = &'a T>>(a: I, mut b: I) {
    // otherwise it is the library's count of the steps
    if overrides::<I>("core::iter::traits::iterator::Iterator::count") {
        let mut n = a.count();
        while let Some(_) = b.next() {
            check(n > 0, "count agrees with stepping");
            n -= 1;
        }
        check(n == 0, "count agrees with stepping");
    }
}
/// Searches stop at the first item that fits and leave the iterator behind it.
fn search<'a, T: AsRef<[u8]> + ?Sized + 'a, I: Iterator<Item = &'a T>>(mut a: I, mut b: I) {
    let fits = |x: &T| x.as_ref()[0] < b'm';
    let got = a.find(|x| fits(x));
    let want = loop {
        match b.next() {
            Some(x) if fits(x) => break Some(x),
            Some(_) => (),
            None => break None,
        }
    };
    same(got, want, "find agrees with stepping");
    same(a.next(), b.next(), "find leaves the iterator where stepping does");
}
fn any<'a, T: AsRef<[u8]> + ?Sized + 'a, I: Iterator<Item = &'a T>>(mut a: I, mut b: I) {
    let fits = |x: &T| x.as_ref()[0] < b'm';
    let got = a.any(|x| fits(x));
    let want = loop {
        match b.next() {
            Some(x) if fits(x) => break true,
            Some(_) => (),
            None => break false,
        }
    };
    check(got == want, "any agrees with stepping");
    same(a.next(), b.next(), "any leaves the iterator where stepping does");
}
fn all<'a, T: AsRef<[u8]> + ?Sized + 'a, I: Iterator<Item = &'a T>>(mut a: I, mut b: I) {
    let fits = |x: &T| x.as_ref()[0] < b'm';
    let got = a.all(|x| fits(x));
    let want = loop {
        match b.next() {
            Some(x) if !fits(x) => break false,
            Some(_) => (),
            None => break true,
        }
    };
    check(got == want, "all agrees with stepping");
    same(a.next(), b.next(), "all leaves the iterator where stepping does");
}
/// The same steps on both.
fn some_steps<I: Iterator>(mut a: I, mut b: I) -> (I, I) {
    while nondet() {
        let _ = (a.next(), b.next());
    }
    (a, b)
}
fn some_steps_back<I: DoubleEndedIterator>(mut a: I, mut b: I) -> (I, I) {
    while nondet() {
        let _ = (a.next_back(), b.next_back());
    }
    (a, b)
}
macro_rules! later {
    ($($m:ident: $T:ty, $t:ident => $e:expr;)*) => {
        $(pub mod $m {
            use super::*;
            pub fn nth($t: $T) {
                let (a, b) = $e;
                crate::c26::nth(a, b, 1)
            }
            pub fn last($t: $T) {
                let (a, b) = $e;
                crate::c26::last(a, b)
            }
            pub fn fold($t: $T) {
                let (a, b) = $e;
                crate::c26::fold(a, b)
            }
            pub fn size_hint($t: $T) {
                let (a, _) = $e;
                crate::c26::size_hint(a)
            }
            pub fn count($t: $T) {
                let (a, b) = $e;
                crate::c26::count(a, b)
            }
            pub fn find($t: $T) {
                let (a, b) = $e;
                crate::c26::search(a, b)
            }
        })*
    };
}
pub mod later {
    use super::*;
    later! {
        variants: &Variants, t => some_steps(t.iter(), t.iter());
        variants_after_back: &Variants, t => some_steps_back(t.iter(), t.iter());
        language_extension: &LanguageExtension, t => some_steps(t.iter(), t.iter());
        private_use: &PrivateUse, t => some_steps(t.iter(), t.iter());
        extension: &Extension, t => some_steps(t.iter(), t.iter());
        extensions: &Extensions, t => some_steps(t.iter(), t.iter());
    }
}
macro_rules! forward {
    ($($m:ident: $T:ty, $t:ident => $e:expr;)*) => {
        $(pub mod $m {
            use super::*;
            pub fn nth_0($t: $T) { crate::c26::nth($e, $e, 0) }
            pub fn nth_1($t: $T) { crate::c26::nth($e, $e, 1) }
            pub fn nth_2($t: $T) { crate::c26::nth($e, $e, 2) }
            pub fn nth_3($t: $T) { crate::c26::nth($e, $e, 3) }
            pub fn last($t: $T) { crate::c26::last($e, $e) }
            pub fn fold($t: $T) { crate::c26::fold($e, $e) }
            pub fn for_each($t: $T) { crate::c26::for_each($e, $e) }
            pub fn size_hint($t: $T) { crate::c26::size_hint($e) }
            pub fn count($t: $T) { crate::c26::count($e, $e) }
            pub fn find($t: $T) { crate::c26::search($e, $e) }
            pub fn any($t: $T) { crate::c26::any($e, $e) }
            pub fn all($t: $T) { crate::c26::all($e, $e) }
        })*
    };
}
pub mod iter {
    use super::*;
forward! {
    variants: &Variants, t => t.iter();
    language_extension: &LanguageExtension, t => t.iter();
    private_use: &PrivateUse, t => t.iter();
    extension: &Extension, t => t.iter();
    extensions: &Extensions, t => t.iter();
    language: &Language, t => t.extension_subtags();
    normal_private_use: &NormalLangTag, t => t.private_use_subtags();
}

}

pub mod back {
    use super::*;
    fn nth<'a>(mut a: VariantsIter<'a>, mut b: VariantsIter<'a>, n: usize) {
        let got = a.nth_back(n);
        let mut i = 0;
        while i < n {
            if b.next_back().is_none() {
                check(got.is_none(), "nth_back past the end");
                return;
            }
            i += 1;
        }
        same(got, b.next_back(), "nth_back agrees with stepping");
        same(a.next_back(), b.next_back(), "nth_back leaves the iterator where stepping does");
    }
    pub fn nth_0(t: &Variants) {
        nth(t.iter(), t.iter(), 0)
    }
    pub fn nth_1(t: &Variants) {
        nth(t.iter(), t.iter(), 1)
    }
    pub fn nth_2(t: &Variants) {
        nth(t.iter(), t.iter(), 2)
    }
    pub fn nth_3(t: &Variants) {
        nth(t.iter(), t.iter(), 3)
    }
    /// One variant from the front, then some from the back.
    pub fn nth_after_front(t: &Variants) {
        let (mut a, mut b) = (t.iter(), t.iter());
        let _ = (a.next(), b.next());
        nth(a, b, 1)
    }
    pub fn nth_later(t: &Variants) {
        let (a, b) = some_steps(t.iter(), t.iter());
        nth(a, b, 1)
    }
    pub fn nth_later_back(t: &Variants) {
        let (a, b) = some_steps_back(t.iter(), t.iter());
        nth(a, b, 1)
    }
    pub fn rfold_later(t: &Variants) {
        let (a, b) = some_steps(t.iter(), t.iter());
        let mut b = a.rfold(b, |mut b, x| {
            same(Some(x), b.next_back(), "rfold agrees with stepping");
            b
        });
        check(b.next_back().is_none(), "rfold goes on to the beginning");
    }
    pub fn rev(t: &Variants) {
        let (mut a, mut b) = (t.iter().rev(), t.iter());
        loop {
            let got = a.next();
            same(got, b.next_back(), "rev agrees with stepping back");
            if got.is_none() {
                break;
            }
        }
    }
    pub fn rev_nth(t: &Variants) {
        let (mut a, mut b) = (t.iter().rev(), t.iter());
        let got = a.nth(1);
        let _ = b.next_back();
        same(got, b.next_back(), "rev().nth agrees with stepping back");
        same(a.next(), b.next_back(), "rev().nth leaves the iterator where stepping does");
    }
    pub fn rfold(t: &Variants) {
        let mut b = t.iter().rfold(t.iter(), |mut b, x| {
            same(Some(x), b.next_back(), "rfold agrees with stepping");
            b
        });
        check(b.next_back().is_none(), "rfold goes on to the beginning");
    }
    pub fn rfind(t: &Variants) {
        let fits = |x: &Variant| x.as_bytes()[0] < b'm';
        let (mut a, mut b) = (t.iter(), t.iter());
        let got = a.rfind(|x| fits(x));
        let want = loop {
            match b.next_back() {
                Some(x) if fits(x) => break Some(x),
                Some(_) => (),
                None => break None,
            }
        };
        same(got, want, "rfind agrees with stepping");
        same(a.next_back(), b.next_back(), "rfind leaves the iterator where stepping does");
    }
}

macro_rules! values {
    ($m:ident, $X:ident, $XBuf:ident, $Inv:ident, $lang:literal, $as:ident) => {
        pub mod $m {
            use crate::lt::*;
            use langtag::*;
            pub fn loose_ne(a: &$X, b: &$X) {
                check((a != b) == !(a == b), "!= is the opposite of ==");
            }
            pub fn loose_ne_owned(a: $XBuf, b: $XBuf) {
                check((a != b) == !(a == b), "!= is the opposite of ==");
            }
            pub fn loose_lt_owned(a: $XBuf, b: $XBuf) {
                check((a < b) == a.$as().lt(b.$as()), "< on owned values agrees with the borrowed form");
            }
            pub fn loose_le_owned(a: $XBuf, b: $XBuf) {
                check((a <= b) == a.$as().le(b.$as()), "<= on owned values agrees with the borrowed form");
            }
            pub fn loose_gt_owned(a: $XBuf, b: $XBuf) {
                check((a > b) == a.$as().gt(b.$as()), "> on owned values agrees with the borrowed form");
            }
            pub fn loose_ge_owned(a: $XBuf, b: $XBuf) {
                check((a >= b) == a.$as().ge(b.$as()), ">= on owned values agrees with the borrowed form");
            }
            pub fn clone_from(a: $XBuf, b: $XBuf) {
                let mut c = b;
                c.clone_from(&a);
                check(eq_text(&c, &a), "clone_from gives the text of the source");
            }
            pub fn clone(a: $XBuf) {
                let c = a.clone();
                check(eq_text(&c, &a), "a clone has the same text");
            }
        }
    };
}
pub mod text {
    all_types!(values);
}
