//! C11: variants consumed from both ends.
use crate::lt::*;
use crate::seg::*;
use langtag::*;

pub fn both_ends(v: &Variants) {
    let t = v.as_str();
    let mut it = v.iter();
    // the variants not yielded yet are t[lo..hi], none if `left` is false
    let mut lo = 0;
    let mut hi = t.len();
    let mut left = hi > 0;
    while left {
        if nondet() {
            let e = seg_end(t, lo);
            match it.next() {
                Some(g) => check(same_slice(g, &t[lo..e]), "front call yields the first remaining variant"),
                None => {
                    check(false, "front call misses a variant");
                    return;
                }
            }
            if e >= hi {
                left = false;
            } else {
                lo = e + 1;
            }
        } else {
            let s = seg_start(t, hi);
            match it.next_back() {
                Some(g) => check(same_slice(g, &t[s..hi]), "back call yields the last remaining variant"),
                None => {
                    check(false, "back call misses a variant");
                    return;
                }
            }
            if s <= lo {
                left = false;
            } else {
                hi = s - 1;
            }
        }
    }
    if nondet() {
        check(it.next().is_none(), "front ends when all are yielded");
        check(it.next_back().is_none(), "back stays ended");
        check(it.next().is_none(), "front stays ended");
    } else {
        check(it.next_back().is_none(), "back ends when all are yielded");
        check(it.next().is_none(), "front stays ended");
        check(it.next_back().is_none(), "back stays ended");
    }
}
pub fn first(v: &Variants) {
    let t = v.as_str();
    match v.first() {
        Some(g) => check(same_slice(g, &t[..seg_end(t, 0)]), "first() is the first variant"),
        None => check(is_text(t, ""), "first() of a non-empty list"),
    }
}
pub fn last(v: &Variants) {
    let t = v.as_str();
    match v.last() {
        Some(g) => check(same_slice(g, &t[seg_start(t, t.len())..]), "last() is the last variant"),
        None => check(is_text(t, ""), "last() of a non-empty list"),
    }
}
pub fn empty() {
    let mut it = VariantsIter::empty();
    check(it.next_back().is_none(), "nothing in the empty iterator");
    check(it.next().is_none(), "nothing in the empty iterator");
}
