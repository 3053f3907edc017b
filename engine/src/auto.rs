//! Symbolic automata over annotated words.
//!
//! A word is the joint reading of one or more *tracks* (the inputs of the program under
//! analysis), one letter per track and position, padded with `#` for ever. Every gap between
//! letters carries a set of *markers* (program positions, ends of tracks, RFC component
//! boundaries). A `Dfa` denotes a set of annotated words; it is kept canonical (minimal, trimmed,
//! closed under trailing padding), so equality of languages is structural equality.
use std::cell::RefCell;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::rc::Rc;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut a = [0u8; 8];
            a[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(a));
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type Marks = u64;
pub type Mk = u8;
pub type Ls = u32;
pub const EMPTY_LS: Ls = 0;

/// Alphabet of one track: the bytes it may contain, followed by the padding letter.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct TrackAlpha {
    pub bytes: Vec<u8>,
}

pub struct LsCx {
    pub tracks: Vec<TrackAlpha>,
    pub sizes: Vec<usize>,
    pub n: usize,
    words: usize,
    sets: Vec<Rc<[u64]>>,
    map: FxMap<Rc<[u64]>, Ls>,
    and: FxMap<(Ls, Ls), Ls>,
    or: FxMap<(Ls, Ls), Ls>,
    diff: FxMap<(Ls, Ls), Ls>,
    pub pad: Ls,
    pub full: Ls,
    pub bytecyl: Vec<Vec<Ls>>,
    cyl: FxMap<(usize, [u64; 5]), Ls>,
    tabs: FxMap<Rc<Vec<i128>>, u32>,
    parts: FxMap<PartKey, Rc<Vec<(Ls, Part)>>>,
}

thread_local! {
    static CX: RefCell<Option<LsCx>> = const { RefCell::new(None) };
}

fn with<R>(f: impl FnOnce(&mut LsCx) -> R) -> R {
    CX.with(|c| f(c.borrow_mut().as_mut().expect("no alphabet")))
}

pub struct Saved(Option<LsCx>);
pub fn save() -> Saved {
    CX.with(|c| Saved(c.borrow_mut().take()))
}
pub fn restore(s: Saved) {
    CX.with(|c| *c.borrow_mut() = s.0)
}

impl LsCx {
    fn intern(&mut self, b: Vec<u64>) -> Ls {
        if let Some(&i) = self.map.get(&b[..]) {
            return i;
        }
        let r: Rc<[u64]> = b.into();
        let i = self.sets.len() as Ls;
        self.sets.push(r.clone());
        self.map.insert(r, i);
        i
    }
    fn pred(&mut self, f: &dyn Fn(&[Option<u8>]) -> bool) -> Ls {
        let mut b = vec![0u64; self.words];
        let k = self.tracks.len();
        let mut l: Vec<Option<u8>> = vec![None; k];
        for i in 0..self.n {
            self.decode(i, &mut l);
            if f(&l) {
                b[i / 64] |= 1 << (i % 64);
            }
        }
        self.intern(b)
    }
    fn decode(&self, mut i: usize, l: &mut [Option<u8>]) {
        for (t, s) in self.sizes.iter().enumerate() {
            let d = i % s;
            i /= s;
            l[t] = self.tracks[t].bytes.get(d).copied();
        }
    }
}

pub fn set_alpha(tracks: Vec<TrackAlpha>) {
    let sizes: Vec<usize> = tracks.iter().map(|t| t.bytes.len() + 1).collect();
    let n: usize = sizes.iter().product();
    let words = n.div_ceil(64);
    let mut cx = LsCx {
        sizes,
        n,
        words,
        sets: vec![],
        map: Default::default(),
        and: Default::default(),
        or: Default::default(),
        diff: Default::default(),
        pad: 0,
        full: 0,
        tracks,
        bytecyl: vec![],
        cyl: Default::default(),
        tabs: Default::default(),
        parts: Default::default(),
    };
    cx.intern(vec![0; words]);
    cx.full = cx.pred(&|_| true);
    cx.pad = cx.pred(&|l| l.iter().all(|x| x.is_none()));
    let nt = cx.tracks.len();
    for t in 0..nt {
        let mut v = vec![EMPTY_LS; 257];
        for i in 0..cx.tracks[t].bytes.len() {
            let b = cx.tracks[t].bytes[i];
            v[b as usize] = cx.pred(&|l| l[t] == Some(b));
        }
        v[256] = cx.pred(&|l| l[t].is_none());
        cx.bytecyl.push(v);
    }
    CX.with(|c| *c.borrow_mut() = Some(cx));
}

pub fn ntracks() -> usize {
    with(|c| c.tracks.len())
}
pub fn pad_ls() -> Ls {
    with(|c| c.pad)
}
pub fn full_ls() -> Ls {
    with(|c| c.full)
}
pub fn byte_ls(t: usize, b: Option<u8>) -> Ls {
    with(|c| c.bytecyl[t][b.map_or(256, |b| b as usize)])
}
pub fn track_bytes(t: usize) -> Vec<u8> {
    with(|c| c.tracks[t].bytes.clone())
}
pub fn pred_ls(f: impl Fn(&[Option<u8>]) -> bool) -> Ls {
    with(|c| c.pred(&f))
}
/// Set of joint letters whose letter on track `t` satisfies `f`.
pub fn cyl_ls(t: usize, f: impl Fn(Option<u8>) -> bool) -> Ls {
    let mut key = [0u64; 5];
    for b in 0..257usize {
        if f(if b == 256 { None } else { Some(b as u8) }) {
            key[b / 64] |= 1 << (b % 64);
        }
    }
    with(|c| {
        if let Some(&r) = c.cyl.get(&(t, key)) {
            return r;
        }
        let mut r = vec![0u64; c.words];
        for b in 0..257usize {
            let l = c.bytecyl[t][b];
            if l != EMPTY_LS && key[b / 64] >> (b % 64) & 1 == 1 {
                for (x, y) in r.iter_mut().zip(c.sets[l as usize].iter()) {
                    *x |= y;
                }
            }
        }
        let r = c.intern(r);
        c.cyl.insert((t, key), r);
        r
    })
}
macro_rules! setop {
    ($name:ident, $memo:ident, $comm:expr, $f:expr) => {
        pub fn $name(a: Ls, b: Ls) -> Ls {
            with(|c| {
                let k = if $comm && a > b { (b, a) } else { (a, b) };
                if let Some(&r) = c.$memo.get(&k) {
                    return r;
                }
                let f: fn(u64, u64) -> u64 = $f;
                let v: Vec<u64> = c.sets[k.0 as usize]
                    .iter()
                    .zip(c.sets[k.1 as usize].iter())
                    .map(|(x, y)| f(*x, *y))
                    .collect();
                let r = c.intern(v);
                c.$memo.insert(k, r);
                r
            })
        }
    };
}
setop!(ls_and_, and, true, |x, y| x & y);
setop!(ls_or_, or, true, |x, y| x | y);
setop!(ls_diff_, diff, false, |x, y| x & !y);
pub fn ls_and(a: Ls, b: Ls) -> Ls {
    if a == b { a } else if a == 0 || b == 0 { 0 } else { ls_and_(a, b) }
}
pub fn ls_or(a: Ls, b: Ls) -> Ls {
    if a == b || b == 0 { a } else if a == 0 { b } else { ls_or_(a, b) }
}
pub fn ls_diff(a: Ls, b: Ls) -> Ls {
    if a == b || a == 0 { 0 } else if b == 0 { a } else { ls_diff_(a, b) }
}
/// What the letters read at one gap tell about a sum of letters.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Part {
    /// some letter is missing
    Bad,
    Decided(u32),
    /// partial sum
    Sum(i128),
}
/// Letters read now (track, table), sum so far, least and greatest rest, constant, cut points.
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct PartKey {
    pub now: Vec<(usize, u32)>,
    pub sum: i128,
    pub rest: (i128, i128),
    pub last: bool,
    pub cuts: Rc<Vec<(i128, usize)>>,
}
pub fn tab_id(t: &Rc<Vec<i128>>) -> u32 {
    with(|c| {
        let n = c.tabs.len() as u32;
        *c.tabs.entry(t.clone()).or_insert(n)
    })
}
/// Joint letters grouped by what they tell.
pub fn letter_parts(key: &PartKey, tabs: &[&Vec<i128>], over: &dyn Fn(i128, i128) -> Option<usize>) -> Rc<Vec<(Ls, Part)>> {
    with(|c| {
        if let Some(r) = c.parts.get(key) {
            return r.clone();
        }
        let mut sets: Vec<(Part, Vec<u64>)> = vec![];
        let mut at: FxMap<Part, usize> = Default::default();
        let mut l: Vec<Option<u8>> = vec![None; c.tracks.len()];
        for i in 0..c.n {
            c.decode(i, &mut l);
            let mut sum = Some(key.sum);
            for (x, tab) in key.now.iter().zip(tabs) {
                sum = match (sum, l[x.0]) {
                    (Some(s), Some(b)) => Some(s + tab[b as usize]),
                    _ => None,
                };
            }
            let p = match sum {
                None => Part::Bad,
                Some(s) => match over(s + key.rest.0, s + key.rest.1) {
                    Some(o) => Part::Decided(o as u32),
                    None => Part::Sum(s),
                },
            };
            let k = *at.entry(p).or_insert_with(|| {
                sets.push((p, vec![0u64; c.words]));
                sets.len() - 1
            });
            sets[k].1[i / 64] |= 1 << (i % 64);
        }
        let v: Vec<(Ls, Part)> = sets.into_iter().map(|(p, b)| (c.intern(b), p)).collect();
        let r = Rc::new(v);
        c.parts.insert(key.clone(), r.clone());
        r
    })
}
/// Two equal tracks: exchanges them.
pub fn ls_swap(a: Ls) -> Ls {
    with(|c| {
        let k = c.sizes[0];
        assert!(c.sizes.len() == 2 && c.sizes[1] == k);
        let src = c.sets[a as usize].clone();
        let mut r = vec![0u64; c.words];
        for x in 0..k {
            for y in 0..k {
                let i = x + k * y;
                if src[i / 64] >> (i % 64) & 1 == 1 {
                    let j = y + k * x;
                    r[j / 64] |= 1 << (j % 64);
                }
            }
        }
        c.intern(r)
    })
}
/// Two equal tracks: relational composition of letter relations.
pub fn ls_compose(a: Ls, b: Ls) -> Ls {
    with(|c| {
        let k = c.sizes[0];
        assert!(c.sizes.len() == 2 && c.sizes[1] == k);
        let (p, q) = (c.sets[a as usize].clone(), c.sets[b as usize].clone());
        let get = |s: &[u64], i: usize| s[i / 64] >> (i % 64) & 1 == 1;
        let mut r = vec![0u64; c.words];
        for x in 0..k {
            for y in 0..k {
                if get(&p, x + k * y) {
                    for z in 0..k {
                        if get(&q, y + k * z) {
                            let j = x + k * z;
                            r[j / 64] |= 1 << (j % 64);
                        }
                    }
                }
            }
        }
        c.intern(r)
    })
}
/// Some letter of the set, preferring readable ones.
pub fn ls_pick(a: Ls) -> Vec<Option<u8>> {
    with(|c| {
        let k = c.tracks.len();
        let mut best: Option<(u32, Vec<Option<u8>>)> = None;
        let mut l = vec![None; k];
        for i in 0..c.n {
            if c.sets[a as usize][i / 64] >> (i % 64) & 1 == 1 {
                c.decode(i, &mut l);
                let cost: u32 = l
                    .iter()
                    .map(|x| match x {
                        None => 0,
                        Some(b'a'..=b'z') => 1,
                        Some(b'0'..=b'9') => 2,
                        Some(b'-') => 2,
                        Some(b'A'..=b'Z') => 3,
                        _ => 9,
                    })
                    .sum();
                if best.as_ref().is_none_or(|(c, _)| cost < *c) {
                    best = Some((cost, l.clone()));
                }
            }
        }
        best.map(|x| x.1).unwrap_or_default()
    })
}
/// All letters of track `t` occurring in the set (256 = padding).
pub fn ls_track_letters(a: Ls, t: usize) -> Vec<u16> {
    with(|c| {
        (0..257u16)
            .filter(|&b| {
                let l = c.bytecyl[t][b as usize];
                l != 0
                    && c.sets[l as usize]
                        .iter()
                        .zip(c.sets[a as usize].iter())
                        .any(|(x, y)| x & y != 0)
            })
            .collect()
    })
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Dfa {
    pub acc: Vec<bool>,
    pub tr: Vec<Vec<(Marks, Ls, u32)>>,
}

thread_local! {
    pub static PROF: RefCell<FxMap<&'static str, (u64, u128, u64)>> = RefCell::new(Default::default());
}
pub struct Tm(&'static str, std::time::Instant, u64);
impl Drop for Tm {
    fn drop(&mut self) {
        PROF.with(|p| {
            let mut p = p.borrow_mut();
            let e = p.entry(self.0).or_insert((0, 0, 0));
            e.0 += 1;
            e.1 += self.1.elapsed().as_micros();
            e.2 += self.2;
        })
    }
}
pub fn tm(n: &'static str, sz: usize) -> Tm {
    Tm(n, std::time::Instant::now(), sz as u64)
}
pub struct Nfa {
    pub init: Vec<u32>,
    pub acc: Vec<bool>,
    pub tr: Vec<Vec<(Marks, Ls, u32)>>,
}

impl Dfa {
    pub fn empty() -> Dfa {
        Dfa { acc: vec![], tr: vec![] }
    }
    pub fn is_empty(&self) -> bool {
        self.acc.is_empty()
    }
    pub fn len(&self) -> usize {
        self.acc.len()
    }
    pub fn used_marks(&self) -> Marks {
        self.tr.iter().flatten().fold(0, |a, t| a | t.0)
    }
    /// Renames markers (`f` injective on the used ones).
    pub fn rename(&self, f: &[Mk; 64]) -> Dfa {
        let mut d = self.clone();
        let mut cache: FxMap<Marks, Marks> = Default::default();
        for t in d.tr.iter_mut().flatten() {
            t.0 = *cache.entry(t.0).or_insert_with(|| {
                let mut r = 0;
                for i in 0..64 {
                    if t.0 >> i & 1 == 1 {
                        r |= 1u64 << f[i];
                    }
                }
                r
            });
        }
        minimize(d.acc, d.tr, 0)
    }
    fn nfa(&self) -> Nfa {
        Nfa {
            init: if self.is_empty() { vec![] } else { vec![0] },
            acc: self.acc.clone(),
            tr: self.tr.clone(),
        }
    }
    /// Existential projection of the markers in `drop`.
    pub fn project(&self, drop: Marks) -> Dfa {
        let _t = tm("project", self.len());
        if self.used_marks() & drop == 0 {
            return self.clone();
        }
        let mut n = self.nfa();
        for t in n.tr.iter_mut().flatten() {
            t.0 &= !drop;
        }
        determinize(&n)
    }
    pub fn union(&self, o: &Dfa) -> Dfa {
        let _t = tm("union", self.len());
        if self.is_empty() {
            return o.clone();
        }
        if o.is_empty() || self == o {
            return self.clone();
        }
        const DEAD: u32 = u32::MAX;
        let mut ids: FxMap<(u32, u32), u32> = Default::default();
        let mut work = vec![(0u32, 0u32)];
        ids.insert((0, 0), 0);
        let (mut acc, mut tr) = (vec![], vec![]);
        let mut left: Vec<(Marks, Ls)> = vec![];
        let mut k = 0;
        while k < work.len() {
            let (p, q) = work[k];
            k += 1;
            acc.push((p != DEAD && self.acc[p as usize]) || (q != DEAD && o.acc[q as usize]));
            let mut v = vec![];
            let mut add = |m: Marks, l: Ls, t: (u32, u32), v: &mut Vec<(Marks, Ls, u32)>| {
                let n = ids.len() as u32;
                let id = *ids.entry(t).or_insert_with(|| {
                    work.push(t);
                    n
                });
                v.push((m, l, id));
            };
            let empty: &[(Marks, Ls, u32)] = &[];
            let ta = if p == DEAD { empty } else { &self.tr[p as usize][..] };
            let tb = if q == DEAD { empty } else { &o.tr[q as usize][..] };
            left.clear();
            left.extend(tb.iter().map(|b| (b.0, b.1)));
            for a in ta {
                let mut rest = a.1;
                for (i, b) in tb.iter().enumerate() {
                    if a.0 != b.0 || rest == 0 {
                        continue;
                    }
                    let l = ls_and(rest, b.1);
                    if l != 0 {
                        rest = ls_diff(rest, l);
                        left[i].1 = ls_diff(left[i].1, l);
                        add(a.0, l, (a.2, b.2), &mut v);
                    }
                }
                if rest != 0 {
                    add(a.0, rest, (a.2, DEAD), &mut v);
                }
            }
            for (i, b) in tb.iter().enumerate() {
                if left[i].1 != 0 {
                    add(b.0, left[i].1, (DEAD, b.2), &mut v);
                }
            }
            tr.push(v);
        }
        minimize(acc, tr, 0)
    }
    /// The converse relation.
    pub fn swap(&self) -> Dfa {
        let mut n = self.nfa();
        for t in n.tr.iter_mut().flatten() {
            t.1 = ls_swap(t.1);
        }
        determinize(&n)
    }
    /// Relational composition (no markers).
    pub fn compose(&self, o: &Dfa) -> Dfa {
        if self.is_empty() || o.is_empty() {
            return Dfa::empty();
        }
        let mut memo: FxMap<(Ls, Ls), Ls> = Default::default();
        let mut ids: FxMap<(u32, u32), u32> = Default::default();
        let mut work = vec![(0u32, 0u32)];
        ids.insert((0, 0), 0);
        let mut n = Nfa { init: vec![0], acc: vec![], tr: vec![] };
        let mut k = 0;
        while k < work.len() {
            let (p, q) = work[k];
            k += 1;
            n.acc.push(self.acc[p as usize] && o.acc[q as usize]);
            let mut v = vec![];
            for x in &self.tr[p as usize] {
                for y in &o.tr[q as usize] {
                    let l = *memo.entry((x.1, y.1)).or_insert_with(|| ls_compose(x.1, y.1));
                    if l != 0 {
                        let m = ids.len() as u32;
                        let id = *ids.entry((x.2, y.2)).or_insert_with(|| {
                            work.push((x.2, y.2));
                            m
                        });
                        v.push((0, l, id));
                    }
                }
            }
            n.tr.push(v);
        }
        determinize(&n)
    }
    pub fn intersect(&self, o: &Dfa) -> Dfa {
        let _t = tm("intersect", self.len());
        if self.is_empty() || o.is_empty() {
            return Dfa::empty();
        }
        let mut ids: FxMap<(u32, u32), u32> = Default::default();
        let mut work = vec![(0u32, 0u32)];
        ids.insert((0, 0), 0);
        let (mut acc, mut tr) = (vec![], vec![]);
        let mut k = 0;
        while k < work.len() {
            let (p, q) = work[k];
            k += 1;
            acc.push(self.acc[p as usize] && o.acc[q as usize]);
            let mut v = vec![];
            for a in &self.tr[p as usize] {
                for b in &o.tr[q as usize] {
                    if a.0 != b.0 {
                        continue;
                    }
                    let l = ls_and(a.1, b.1);
                    if l != 0 {
                        let n = ids.len() as u32;
                        let id = *ids.entry((a.2, b.2)).or_insert_with(|| {
                            work.push((a.2, b.2));
                            n
                        });
                        v.push((a.0, l, id));
                    }
                }
            }
            tr.push(v);
        }
        minimize(acc, tr, 0)
    }
    /// Words of `self` not in `o` (same marker vocabulary).
    pub fn minus(&self, o: &Dfa) -> Dfa {
        let _t = tm("minus", self.len());
        if self.is_empty() || o.is_empty() {
            return self.clone();
        }
        const DEAD: u32 = u32::MAX;
        let mut ids: FxMap<(u32, u32), u32> = Default::default();
        let mut work = vec![(0u32, 0u32)];
        ids.insert((0, 0), 0);
        let (mut acc, mut tr) = (vec![], vec![]);
        let mut k = 0;
        while k < work.len() {
            let (p, q) = work[k];
            k += 1;
            acc.push(self.acc[p as usize] && !(q != DEAD && o.acc[q as usize]));
            let mut v = vec![];
            let mut add = |m: Marks, l: Ls, t: (u32, u32), v: &mut Vec<(Marks, Ls, u32)>| {
                let n = ids.len() as u32;
                let id = *ids.entry(t).or_insert_with(|| {
                    work.push(t);
                    n
                });
                v.push((m, l, id));
            };
            for a in &self.tr[p as usize] {
                let mut rest = a.1;
                if q != DEAD {
                    for b in &o.tr[q as usize] {
                        if a.0 != b.0 {
                            continue;
                        }
                        let l = ls_and(a.1, b.1);
                        if l != 0 {
                            rest = ls_diff(rest, b.1);
                            add(a.0, l, (a.2, b.2), &mut v);
                        }
                    }
                }
                if rest != 0 {
                    add(a.0, rest, (a.2, DEAD), &mut v);
                }
            }
            tr.push(v);
        }
        // `o` is padding-closed, hence complete on padding below accepting states; acceptance of
        // the difference is exact on sufficiently padded words only, so close it that way.
        minimize_strict(acc, tr)
    }
    /// A shortest annotated word of the language.
    pub fn witness(&self) -> Option<Vec<(Marks, Vec<Option<u8>>)>> {
        if self.is_empty() {
            return None;
        }
        let mut prev: Vec<Option<(u32, Marks, Ls)>> = vec![None; self.len()];
        let mut seen = vec![false; self.len()];
        seen[0] = true;
        let mut q = std::collections::VecDeque::from([0u32]);
        while let Some(s) = q.pop_front() {
            if self.acc[s as usize] {
                let mut w = vec![];
                let mut c = s;
                while let Some((p, m, l)) = prev[c as usize] {
                    w.push((m, ls_pick(l)));
                    c = p;
                    if c == 0 {
                        break;
                    }
                }
                w.reverse();
                return Some(w);
            }
            for t in &self.tr[s as usize] {
                if !seen[t.2 as usize] {
                    seen[t.2 as usize] = true;
                    prev[t.2 as usize] = Some((s, t.0, t.1));
                    q.push_back(t.2);
                }
            }
        }
        None
    }
    /// True if markers `a` and `b` are always at the same gap (or both absent).
    pub fn coincide(&self, a: Mk, b: Mk) -> bool {
        let (x, y) = (1u64 << a, 1u64 << b);
        self.tr.iter().flatten().all(|t| (t.0 & x != 0) == (t.0 & y != 0))
    }
}

pub fn word_of(w: &[(Marks, Vec<Option<u8>>)]) -> Vec<Vec<u8>> {
    (0..ntracks()).map(|t| w.iter().filter_map(|(_, l)| l[t]).collect()).collect()
}
/// Exactly these words.
pub fn words_dfa(ws: &[Vec<Vec<u8>>]) -> Dfa {
    let mut n = Nfa { init: vec![], acc: vec![], tr: vec![] };
    for w in ws {
        let len = w.iter().map(|b| b.len()).max().unwrap_or(0);
        n.init.push(n.acc.len() as u32);
        for i in 0..=len {
            let last = i == len;
            let l = (0..ntracks()).fold(full_ls(), |a, t| ls_and(a, byte_ls(t, w[t].get(i).copied())));
            let at = n.acc.len() as u32;
            n.acc.push(last);
            n.tr.push(vec![(0, l, if last { at } else { at + 1 })]);
        }
    }
    determinize(&n)
}
/// Words no longer than `k` in any track.
pub fn short_dfa(k: usize) -> Dfa {
    let mut d = Dfa { acc: vec![true; k + 1], tr: vec![] };
    for i in 0..k {
        d.tr.push(vec![(0, full_ls(), i as u32 + 1)]);
    }
    d.tr.push(vec![(0, pad_ls(), k as u32)]);
    minimize(d.acc, d.tr, 0)
}
unsafe extern "C" {
    fn clock() -> i64;
}
/// Processor seconds of this process.
pub fn cpu_secs() -> f64 {
    unsafe { clock() as f64 / 1e6 }
}

/// Shortest-word text for reports, one string per track.
pub fn show_witness(w: &[(Marks, Vec<Option<u8>>)]) -> Vec<String> {
    let k = ntracks();
    (0..k)
        .map(|t| {
            let b: Vec<u8> = w.iter().filter_map(|(_, l)| l[t]).collect();
            match std::str::from_utf8(&b) {
                Ok(s) if s.chars().all(|c| !c.is_control()) => format!("{s:?}"),
                _ => format!("b\"{}\"", b.escape_ascii()),
            }
        })
        .collect()
}

pub fn determinize(n: &Nfa) -> Dfa {
    let _t = tm("determinize", n.acc.len());
    let mut ids: FxMap<Vec<u32>, u32> = Default::default();
    let mut init = n.init.clone();
    init.sort_unstable();
    init.dedup();
    if init.is_empty() {
        return Dfa::empty();
    }
    let mut work = vec![init.clone()];
    ids.insert(init, 0);
    let (mut acc, mut tr) = (vec![], vec![]);
    let mut k = 0;
    while k < work.len() {
        let set = work[k].clone();
        k += 1;
        acc.push(set.iter().any(|&s| n.acc[s as usize]));
        let mut ts: Vec<(Marks, Ls, u32)> = set.iter().flat_map(|&s| n.tr[s as usize].iter().copied()).collect();
        ts.sort_unstable();
        ts.dedup();
        let mut v: Vec<(Marks, Ls, u32)> = vec![];
        let mut i = 0;
        while i < ts.len() {
            let m = ts[i].0;
            let mut j = i;
            // parts: disjoint letter sets with their target sets
            let mut parts: Vec<(Ls, Vec<u32>)> = vec![];
            while j < ts.len() && ts[j].0 == m {
                let (_, l, t) = ts[j];
                let mut rest = l;
                let mut np = vec![];
                for p in parts.iter_mut() {
                    if rest == 0 {
                        break;
                    }
                    let x = ls_and(p.0, rest);
                    if x == 0 {
                        continue;
                    }
                    rest = ls_diff(rest, x);
                    if x == p.0 {
                        if !p.1.contains(&t) {
                            p.1.push(t);
                        }
                    } else {
                        let mut q = p.1.clone();
                        if !q.contains(&t) {
                            q.push(t);
                        }
                        p.0 = ls_diff(p.0, x);
                        np.push((x, q));
                    }
                }
                parts.extend(np);
                if rest != 0 {
                    parts.push((rest, vec![t]));
                }
                j += 1;
            }
            for (l, mut s) in parts {
                s.sort_unstable();
                let n = ids.len() as u32;
                let id = *ids.entry(s.clone()).or_insert_with(|| {
                    work.push(s);
                    n
                });
                v.push((m, l, id));
            }
            i = j;
        }
        tr.push(v);
    }
    minimize(acc, tr, 0)
}

/// Acceptance decided only after arbitrarily long padding: backward closure does not add
/// acceptance, it *replaces* it by the limit behaviour along padding.
fn minimize_strict(acc: Vec<bool>, tr: Vec<Vec<(Marks, Ls, u32)>>) -> Dfa {
    let pad = pad_ls();
    let n = acc.len();
    let mut limit: Vec<Option<bool>> = vec![None; n];
    for s in 0..n {
        if limit[s].is_some() {
            continue;
        }
        let mut path = vec![];
        let mut on: FxMap<usize, ()> = Default::default();
        let mut c = s;
        let r = loop {
            if let Some(b) = limit[c] {
                break b;
            }
            if on.contains_key(&c) {
                break acc[c];
            }
            on.insert(c, ());
            path.push(c);
            match tr[c].iter().find(|t| t.0 == 0 && ls_and(t.1, pad) != 0) {
                Some(t) => c = t.2 as usize,
                None => break acc[c],
            }
        };
        for p in path {
            limit[p] = Some(r);
        }
    }
    minimize(limit.into_iter().map(|x| x.unwrap()).collect(), tr, 0)
}

/// Canonical form: padding closure, trim, partition refinement, breadth-first numbering.
pub fn minimize(mut acc: Vec<bool>, mut tr: Vec<Vec<(Marks, Ls, u32)>>, init: u32) -> Dfa {
    let _t = tm("minimize", acc.len());
    let pad = pad_ls();
    let n = acc.len();
    if n == 0 {
        return Dfa::empty();
    }
    // padding edges
    let mut padnext: Vec<Option<u32>> = vec![None; n];
    let mut padprev: Vec<Vec<u32>> = vec![vec![]; n];
    for s in 0..n {
        for t in &tr[s] {
            if t.0 == 0 && ls_and(t.1, pad) != 0 {
                padnext[s] = Some(t.2);
                padprev[t.2 as usize].push(s as u32);
            }
        }
    }
    let mut st: Vec<u32> = (0..n as u32).filter(|&s| acc[s as usize]).collect();
    while let Some(s) = st.pop() {
        if let Some(t) = padnext[s as usize]
            && !acc[t as usize]
        {
            acc[t as usize] = true;
            st.push(t);
        }
        for &p in &padprev[s as usize] {
            if !acc[p as usize] {
                acc[p as usize] = true;
                st.push(p);
            }
        }
    }
    let padstate = n as u32;
    let mut used = false;
    for s in 0..n {
        if acc[s] && padnext[s].is_none() {
            tr[s].push((0, pad, padstate));
            used = true;
        }
    }
    if used {
        acc.push(true);
        tr.push(vec![(0, pad, padstate)]);
    }
    let n = acc.len();
    // reachable
    let mut reach = vec![false; n];
    let mut st = vec![init];
    reach[init as usize] = true;
    while let Some(s) = st.pop() {
        for t in &tr[s as usize] {
            if !reach[t.2 as usize] {
                reach[t.2 as usize] = true;
                st.push(t.2);
            }
        }
    }
    // co-reachable
    let mut rev: Vec<Vec<u32>> = vec![vec![]; n];
    for s in 0..n {
        if reach[s] {
            for t in &tr[s] {
                rev[t.2 as usize].push(s as u32);
            }
        }
    }
    let mut co = vec![false; n];
    let mut st: Vec<u32> = (0..n as u32).filter(|&s| acc[s as usize] && reach[s as usize]).collect();
    for &s in &st {
        co[s as usize] = true;
    }
    while let Some(s) = st.pop() {
        for &p in &rev[s as usize] {
            if !co[p as usize] {
                co[p as usize] = true;
                st.push(p);
            }
        }
    }
    if !co[init as usize] {
        return Dfa::empty();
    }
    let live: Vec<u32> = (0..n as u32).filter(|&s| reach[s as usize] && co[s as usize]).collect();
    // partition refinement: only classes with a member whose successors moved are looked at again
    let mut cls = vec![u32::MAX; n];
    let mut members: Vec<Vec<u32>> = vec![vec![], vec![]];
    for &s in &live {
        members[acc[s as usize] as usize].push(s);
    }
    members.retain(|m| !m.is_empty());
    for (i, m) in members.iter().enumerate() {
        for &s in m {
            cls[s as usize] = i as u32;
        }
    }
    let mut queue: Vec<u32> = (0..members.len() as u32).collect();
    let mut queued: Vec<bool> = vec![true; members.len()];
    let mut raw: Vec<(Marks, u32, Ls)> = vec![];
    while let Some(c) = queue.pop() {
        queued[c as usize] = false;
        if members[c as usize].len() < 2 {
            continue;
        }
        let mut map: FxMap<Vec<(Marks, u32, Ls)>, u32> = Default::default();
        let mut groups: Vec<Vec<u32>> = vec![];
        for &s in &members[c as usize] {
            raw.clear();
            raw.extend(tr[s as usize].iter().filter(|t| co[t.2 as usize]).map(|t| (t.0, cls[t.2 as usize], t.1)));
            raw.sort_unstable();
            let mut k = 0;
            for r in 0..raw.len() {
                if k > 0 && raw[k - 1].0 == raw[r].0 && raw[k - 1].1 == raw[r].1 {
                    raw[k - 1].2 = ls_or(raw[k - 1].2, raw[r].2);
                } else {
                    raw[k] = raw[r];
                    k += 1;
                }
            }
            match map.get(&raw[..k]) {
                Some(&g) => groups[g as usize].push(s),
                None => {
                    map.insert(raw[..k].to_vec(), groups.len() as u32);
                    groups.push(vec![s]);
                }
            }
        }
        if groups.len() > 1 {
            let first = members.len();
            let big = (0..groups.len()).max_by_key(|&g| groups[g].len()).unwrap();
            for (g, m) in groups.into_iter().enumerate() {
                if g == big {
                    members[c as usize] = m;
                    continue;
                }
                let id = members.len() as u32;
                for &s in &m {
                    cls[s as usize] = id;
                }
                members.push(m);
                queued.push(false);
            }
            // predecessors of the states that moved
            for m in &members[first..] {
                for &s in m {
                    for &p in &rev[s as usize] {
                        let pc = cls[p as usize];
                        if pc != u32::MAX && !queued[pc as usize] && members[pc as usize].len() > 1 {
                            queued[pc as usize] = true;
                            queue.push(pc);
                        }
                    }
                }
            }
        }
    }
    let nc = members.len();
    // representative per class and breadth-first numbering
    let mut rep = vec![u32::MAX; nc];
    for &s in &live {
        if rep[cls[s as usize] as usize] == u32::MAX {
            rep[cls[s as usize] as usize] = s;
        }
    }
    let mut num = vec![u32::MAX; nc];
    let mut order = vec![cls[init as usize]];
    num[cls[init as usize] as usize] = 0;
    let (mut oacc, mut otr): (Vec<bool>, Vec<Vec<(Marks, Ls, u32)>>) = (vec![], vec![]);
    let mut k = 0;
    while k < order.len() {
        let s = rep[order[k] as usize];
        k += 1;
        oacc.push(acc[s as usize]);
        let mut m: FxMap<(Marks, u32), Ls> = Default::default();
        for t in &tr[s as usize] {
            if co[t.2 as usize] {
                let e = m.entry((t.0, cls[t.2 as usize])).or_insert(0);
                *e = ls_or(*e, t.1);
            }
        }
        let mut v: Vec<(Marks, Ls, u32)> = m.into_iter().map(|((a, c), l)| (a, l, c)).collect();
        v.sort_unstable_by_key(|t| (t.0, t.1));
        for t in v.iter_mut() {
            if num[t.2 as usize] == u32::MAX {
                num[t.2 as usize] = order.len() as u32;
                order.push(t.2);
            }
            t.2 = num[t.2 as usize];
        }
        otr.push(v);
    }
    Dfa { acc: oacc, tr: otr }
}

// ---------------------------------------------------------------------------------------------
// Observers: deterministic machines run along the words of an automaton.

pub trait Obs {
    type S: Clone + Eq + Hash;
    fn init(&self) -> Self::S;
    /// Consumes one gap (its markers) and the letters following it.
    fn step(&self, s: &Self::S, marks: Marks, ls: Ls, out: &mut Vec<(Marks, Ls, Self::S)>);
    /// Outcome, once decided.
    fn outcome(&self, s: &Self::S) -> Option<usize>;
}

/// Splits `a` according to the outcomes of `o` (re-annotated with the markers it outputs).
pub fn transform<O: Obs>(a: &Dfa, o: &O, outcomes: usize) -> Vec<Dfa> {
    let _t = tm(std::any::type_name::<O>(), a.len());
    if a.is_empty() {
        return vec![Dfa::empty(); outcomes];
    }
    let mut ids: FxMap<(u32, O::S), u32> = Default::default();
    let i = (0u32, o.init());
    let mut work = vec![i.clone()];
    ids.insert(i, 0);
    let mut tr: Vec<Vec<(Marks, Ls, u32)>> = vec![];
    let mut buf = vec![];
    let mut k = 0;
    while k < work.len() {
        let (q, s) = work[k].clone();
        k += 1;
        let mut v = vec![];
        for t in &a.tr[q as usize] {
            buf.clear();
            o.step(&s, t.0, t.1, &mut buf);
            for (m, l, s2) in buf.drain(..) {
                if l == 0 {
                    continue;
                }
                let n = ids.len() as u32;
                let id = *ids.entry((t.2, s2)).or_insert_with_key(|key| {
                    work.push(key.clone());
                    n
                });
                v.push((m, l, id));
            }
        }
        tr.push(v);
        assert!(work.len() < 2_000_000, "automaton blow-up");
    }
    (0..outcomes)
        .map(|x| {
            let acc: Vec<bool> =
                work.iter().map(|(q, s)| a.acc[*q as usize] && o.outcome(s) == Some(x)).collect();
            if !acc.iter().any(|b| *b) {
                return Dfa::empty();
            }
            minimize(acc, tr.clone(), 0)
        })
        .collect()
}

pub const ORIGIN: Mk = 255;

/// A position: a marker (or the origin) plus a non-negative offset.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct P {
    pub m: Mk,
    pub k: u32,
}
const NOTSEEN: u32 = u32::MAX;
const PAST: u32 = u32::MAX - 1;
/// Delay line: returns (is this gap the position?, next state).
fn pt_init(p: P) -> u32 {
    if p.m == ORIGIN { p.k } else { NOTSEEN }
}
fn pt_step(p: P, st: u32, marks: Marks) -> (bool, u32) {
    let st = if st == NOTSEEN && p.m != ORIGIN && marks >> p.m & 1 == 1 { p.k } else { st };
    match st {
        NOTSEEN | PAST => (false, st),
        0 => (true, PAST),
        r => (false, r - 1),
    }
}

/// Three-way comparison of two positions: outcomes 0 (<), 1 (=), 2 (>).
pub struct CmpObs(pub P, pub P);
impl Obs for CmpObs {
    type S = (u32, u32, u8);
    fn init(&self) -> Self::S {
        (pt_init(self.0), pt_init(self.1), 3)
    }
    fn step(&self, s: &Self::S, m: Marks, l: Ls, out: &mut Vec<(Marks, Ls, Self::S)>) {
        if s.2 != 3 {
            out.push((m, l, (0, 0, s.2)));
            return;
        }
        let (a, x) = pt_step(self.0, s.0, m);
        let (b, y) = pt_step(self.1, s.1, m);
        let d = match (a, b) {
            (true, true) => 1,
            (true, false) => 0,
            (false, true) => 2,
            _ => 3,
        };
        out.push((m, l, if d == 3 { (x, y, 3) } else { (0, 0, d) }));
    }
    fn outcome(&self, s: &Self::S) -> Option<usize> {
        (s.2 != 3).then_some(s.2 as usize)
    }
}

/// Adds marker `x` at `p + k` (`k` may be negative).
pub struct AddObs {
    pub x: Mk,
    pub m: Mk,
    pub k: i64,
}
impl Obs for AddObs {
    /// (positive: delay line; negative: 0 = not placed, n = gaps since placed, MAX = done)
    type S = u32;
    fn init(&self) -> u32 {
        if self.k >= 0 { pt_init(P { m: self.m, k: self.k as u32 }) } else { 0 }
    }
    fn step(&self, s: &u32, m: Marks, l: Ls, out: &mut Vec<(Marks, Ls, u32)>) {
        let xb = 1u64 << self.x;
        if self.k >= 0 {
            let (now, n) = pt_step(P { m: self.m, k: self.k as u32 }, *s, m);
            out.push((if now { m | xb } else { m }, l, n));
        } else {
            let need = (-self.k) as u32;
            let here = m >> self.m & 1 == 1;
            if *s == u32::MAX {
                out.push((m, l, u32::MAX));
            } else if *s == 0 {
                if !here {
                    out.push((m, l, 0));
                    out.push((m | xb, l, 1));
                }
            } else if *s == need {
                if here {
                    out.push((m, l, u32::MAX));
                }
            } else if !here {
                out.push((m, l, s + 1));
            }
        }
    }
    fn outcome(&self, s: &u32) -> Option<usize> {
        if self.k >= 0 { (*s == PAST).then_some(0) } else { (*s == u32::MAX).then_some(0) }
    }
}

/// Does marker occur at all? outcome 0 = yes, 1 = no.
pub struct OccursObs(pub Mk);
impl Obs for OccursObs {
    type S = bool;
    fn init(&self) -> bool {
        false
    }
    fn step(&self, s: &bool, m: Marks, l: Ls, out: &mut Vec<(Marks, Ls, bool)>) {
        out.push((m, l, *s || m >> self.0 & 1 == 1));
    }
    fn outcome(&self, s: &bool) -> Option<usize> {
        Some(if *s { 0 } else { 1 })
    }
}

/// A language of byte strings, as a complete deterministic table (0 = initial).
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Lang {
    pub name: String,
    pub next: Vec<[u16; 256]>,
    pub acc: Vec<bool>,
}
impl Lang {
    /// Per (state, track): letter set → next state.
    pub fn compile(&self, track: usize) -> Vec<Vec<(Ls, u16)>> {
        self.next
            .iter()
            .map(|row| {
                let mut m: std::collections::BTreeMap<u16, Vec<u8>> = Default::default();
                for b in 0..256usize {
                    m.entry(row[b]).or_default().push(b as u8);
                }
                m.into_iter()
                    .map(|(t, bs)| {
                        let mut set = [false; 256];
                        for b in bs {
                            set[b as usize] = true;
                        }
                        (cyl_ls(track, |o| o.is_some_and(|b| set[b as usize])), t)
                    })
                    .filter(|x| x.0 != 0)
                    .collect()
            })
            .collect()
    }
}

/// Is the text between `lo` and `hi` on a track in the language? 0 = yes, 1 = no, 2 = hi < lo.
pub struct InLangObs<'a> {
    pub lo: P,
    pub hi: P,
    pub track: usize,
    pub lang: &'a Lang,
    pub comp: &'a [Vec<(Ls, u16)>],
}
impl Obs for InLangObs<'_> {
    /// lo state, hi state, dfa state (MAX: not started, MAX-1-o: decided)
    type S = (u32, u32, u16);
    fn init(&self) -> Self::S {
        (pt_init(self.lo), pt_init(self.hi), u16::MAX)
    }
    fn step(&self, s: &Self::S, m: Marks, l: Ls, out: &mut Vec<(Marks, Ls, Self::S)>) {
        const D: u16 = u16::MAX - 1;
        if s.2 <= D && s.2 >= D - 2 {
            out.push((m, l, *s));
            return;
        }
        let (a, x) = pt_step(self.lo, s.0, m);
        let (b, y) = pt_step(self.hi, s.1, m);
        let q = if a { 0 } else { s.2 };
        if b {
            let o = if q == u16::MAX {
                2
            } else if self.lang.acc[q as usize] {
                0
            } else {
                1
            };
            out.push((m, l, (PAST, PAST, D - o)));
            return;
        }
        if q == u16::MAX {
            out.push((m, l, (x, y, q)));
            return;
        }
        let mut rest = l;
        for (c, t) in &self.comp[q as usize] {
            let i = ls_and(l, *c);
            if i != 0 {
                rest = ls_diff(rest, i);
                out.push((m, i, (x, y, *t)));
            }
        }
        // reading past the end of the track: not a slice of it
        if rest != 0 {
            out.push((m, rest, (PAST, PAST, D - 2)));
        }
    }
    fn outcome(&self, s: &Self::S) -> Option<usize> {
        const D: u16 = u16::MAX - 1;
        (s.2 <= D && s.2 >= D - 2).then(|| (D - s.2) as usize)
    }
}

/// Reads letters at several positions and decides from their values.
/// `terms[i]`: position, track, table from byte to a value index (MAX = unexpected letter).
pub struct ReadObs<'a> {
    pub terms: Vec<(P, usize)>,
    /// per term: (letter set, value id)
    pub classes: Vec<Vec<(Ls, u16)>>,
    pub decide: &'a dyn Fn(&[u16]) -> usize,
}
impl Obs for ReadObs<'_> {
    type S = (Vec<(u32, u16)>, u32);
    fn init(&self) -> Self::S {
        (self.terms.iter().map(|t| (pt_init(t.0), u16::MAX)).collect(), u32::MAX)
    }
    fn step(&self, s: &Self::S, m: Marks, l: Ls, out: &mut Vec<(Marks, Ls, Self::S)>) {
        if s.1 != u32::MAX {
            out.push((m, l, s.clone()));
            return;
        }
        let mut parts: Vec<(Ls, Vec<(u32, u16)>)> = vec![(l, s.0.clone())];
        for (i, t) in self.terms.iter().enumerate() {
            let (now, n) = pt_step(t.0, s.0[i].0, m);
            if !now {
                for p in parts.iter_mut() {
                    p.1[i].0 = n;
                }
                continue;
            }
            let mut np = vec![];
            for (pl, pv) in parts {
                let mut rest = pl;
                for (c, v) in &self.classes[i] {
                    let x = ls_and(pl, *c);
                    if x != 0 {
                        rest = ls_diff(rest, x);
                        let mut w = pv.clone();
                        w[i] = (PAST, *v);
                        np.push((x, w));
                    }
                }
                if rest != 0 {
                    let mut w = pv.clone();
                    w[i] = (PAST, u16::MAX - 1);
                    np.push((rest, w));
                }
            }
            parts = np;
        }
        for (pl, pv) in parts {
            if pv.iter().all(|x| x.1 != u16::MAX) {
                let vals: Vec<u16> = pv.iter().map(|x| x.1).collect();
                let o = (self.decide)(&vals);
                out.push((m, pl, (vec![], o as u32)));
            } else {
                out.push((m, pl, (pv, u32::MAX)));
            }
        }
    }
    fn outcome(&self, s: &Self::S) -> Option<usize> {
        (s.1 != u32::MAX).then_some(s.1 as usize)
    }
}

/// Letterwise comparison of two slices starting at the same gap on two tracks (or the same one):
/// outcome 0 = same length and all pairs of letters in `rel`, 1 = not, 2 = not aligned.
pub struct PairObs {
    pub a: (P, P),
    pub b: (P, P),
    /// joint letters whose letters on the two tracks are related
    pub rel: Ls,
}
impl Obs for PairObs {
    type S = ([u32; 4], u8);
    fn init(&self) -> Self::S {
        ([pt_init(self.a.0), pt_init(self.a.1), pt_init(self.b.0), pt_init(self.b.1)], 10)
    }
    fn step(&self, s: &Self::S, m: Marks, l: Ls, out: &mut Vec<(Marks, Ls, Self::S)>) {
        if s.1 < 3 {
            out.push((m, l, s.clone()));
            return;
        }
        let (a0, x0) = pt_step(self.a.0, s.0[0], m);
        let (a1, x1) = pt_step(self.a.1, s.0[1], m);
        let (b0, y0) = pt_step(self.b.0, s.0[2], m);
        let (b1, y1) = pt_step(self.b.1, s.0[3], m);
        let done = |o: u8| ([PAST; 4], o);
        let mut ph = s.1;
        if ph == 10 {
            match (a0, b0) {
                (false, false) => {}
                (true, true) => ph = 11,
                _ => {
                    // both may still be empty
                    ph = if (a0 && a1) || (b0 && b1) { 12 } else { 2 };
                }
            }
            if ph == 2 {
                out.push((m, l, done(2)));
                return;
            }
            if ph == 12 {
                out.push((m, l, ([x0, x1, y0, y1], 12)));
                return;
            }
        } else if ph == 12 {
            // one side was empty; the other starts now or later
            let (s0, s1) = if s.0[0] == PAST { (b0, b1) } else { (a0, a1) };
            if s0 {
                out.push((m, l, done(if s1 { 0 } else { 1 })));
            } else {
                out.push((m, l, ([x0, x1, y0, y1], 12)));
            }
            return;
        }
        if ph == 11 {
            match (a1, b1) {
                (true, true) => {
                    out.push((m, l, done(0)));
                    return;
                }
                (true, false) | (false, true) => {
                    out.push((m, l, done(1)));
                    return;
                }
                _ => {}
            }
            let g = ls_and(l, self.rel);
            let b = ls_diff(l, self.rel);
            if g != 0 {
                out.push((m, g, ([x0, x1, y0, y1], 11)));
            }
            if b != 0 {
                out.push((m, b, done(1)));
            }
            return;
        }
        out.push((m, l, ([x0, x1, y0, y1], ph)));
    }
    fn outcome(&self, s: &Self::S) -> Option<usize> {
        (s.1 < 3).then_some(s.1 as usize)
    }
}

/// Fixed distance between two markers, if it is the same in all words (|d| <= cap).
pub fn const_distance(a: &Dfa, x: Mk, y: Mk, cap: u32) -> Option<i64> {
    // run along words tracking gaps since the first of the two was seen
    let mut seen: FxMap<(u32, u32), ()> = Default::default();
    let mut st = vec![(0u32, 0u32)];
    let mut res: Option<i64> = None;
    // code: 0 none, 2r+1: x seen r+1.. ago, 2r+2: y seen, MAX done
    while let Some((q, c)) = st.pop() {
        if seen.insert((q, c), ()).is_some() {
            continue;
        }
        for t in &a.tr[q as usize] {
            let mut hx = t.0 >> x & 1 == 1;
            let hy = if y == ORIGIN { q == 0 && c == 0 } else { t.0 >> y & 1 == 1 };
            if x == ORIGIN {
                hx = q == 0 && c == 0;
            }
            let n;
            if c == u32::MAX {
                n = c;
            } else {
                let d: Option<i64> = if c == 0 {
                    if hx && hy { Some(0) } else { None }
                } else if c % 2 == 1 {
                    if hy { Some(((c - 1) / 2 + 1) as i64) } else { None }
                } else if hx {
                    Some(-(((c - 2) / 2 + 1) as i64))
                } else {
                    None
                };
                if let Some(d) = d {
                    match res {
                        None => res = Some(d),
                        Some(r) if r != d => return None,
                        _ => {}
                    }
                    n = u32::MAX;
                } else if c == 0 {
                    n = if hx { 1 } else if hy { 2 } else { 0 };
                } else {
                    n = c + 2;
                    if n / 2 > cap {
                        return None;
                    }
                }
            }
            st.push((t.2, n));
        }
    }
    res
}

/// Widening: quotient by a deterministic label. The label of a state is the pair of states of the
/// tracker automata reached by the same prefix (restricted to the markers `keep[i]`), the set of
/// markers passed and the distance (capped) to the last marker.
pub fn quotient(a: &Dfa, trackers: &[(&Dfa, Marks)], cap: u32, window: usize) -> Dfa {
    if a.is_empty() {
        return a.clone();
    }
    const DEAD: u32 = u32::MAX;
    type L = (Vec<u32>, Marks, u32, Vec<u8>);
    // the letters the automaton tells apart
    let mut atoms: Vec<Ls> = vec![];
    if window > 0 {
        let mut seen: Vec<Ls> = a.tr.iter().flatten().map(|t| t.1).collect();
        seen.sort();
        seen.dedup();
        for l in seen {
            let mut rest = l;
            let mut n = vec![];
            for x in &atoms {
                let y = ls_and(*x, l);
                if y != 0 && y != *x {
                    n.push(y);
                    n.push(ls_diff(*x, y));
                } else {
                    n.push(*x);
                }
                rest = ls_diff(rest, y);
            }
            if rest != 0 {
                n.push(rest);
            }
            atoms = n;
            if atoms.len() > 64 {
                break;
            }
        }
        if atoms.len() > 64 {
            atoms.clear();
        }
    }
    let mut lab: FxMap<L, u32> = Default::default();
    let mut seen: FxMap<(u32, u32), ()> = Default::default();
    let mut labs: Vec<L> = vec![];
    let i: L = (vec![0; trackers.len()], 0, cap, vec![]);
    lab.insert(i.clone(), 0);
    labs.push(i);
    let mut st = vec![(0u32, 0u32)];
    let mut tr: Vec<Vec<(Marks, Ls, u32)>> = vec![vec![]];
    let mut acc = vec![false];
    while let Some((q, li)) = st.pop() {
        if seen.insert((q, li), ()).is_some() {
            continue;
        }
        if a.acc[q as usize] {
            acc[li as usize] = true;
        }
        let cur = labs[li as usize].clone();
        for t in &a.tr[q as usize] {
            // split the letters by tracker moves
            let mut parts: Vec<(Ls, Vec<u32>)> = vec![(t.1, vec![])];
            let parts3: Vec<(Ls, Vec<u32>, u8)>;
            for (k, (d, keep)) in trackers.iter().enumerate() {
                let s = cur.0[k];
                let m = t.0 & keep;
                let mut np = vec![];
                for (l, v) in parts {
                    let mut rest = l;
                    if s != DEAD && !d.is_empty() {
                        for x in &d.tr[s as usize] {
                            if x.0 == m {
                                let y = ls_and(rest, x.1);
                                if y != 0 {
                                    rest = ls_diff(rest, y);
                                    let mut w = v.clone();
                                    w.push(x.2);
                                    np.push((y, w));
                                }
                            }
                        }
                    }
                    if rest != 0 {
                        let mut w = v.clone();
                        w.push(DEAD);
                        np.push((rest, w));
                    }
                }
                parts = np;
            }
            if !atoms.is_empty() {
                let mut np = vec![];
                for (l, v) in parts {
                    for (ai, x) in atoms.iter().enumerate() {
                        let y = ls_and(l, *x);
                        if y != 0 {
                            np.push((y, v.clone(), ai as u8));
                        }
                    }
                }
                parts3 = np;
            } else {
                parts3 = parts.into_iter().map(|(l, v)| (l, v, 0)).collect();
            }
            for (l, v, ai) in parts3 {
                let passed = cur.1 | t.0;
                let dist = if t.0 != 0 { 0 } else { (cur.2 + 1).min(cap) };
                let mut w = cur.3.clone();
                if !atoms.is_empty() {
                    w.push(ai);
                    if w.len() > window {
                        w.remove(0);
                    }
                }
                let nl: L = (v, passed, dist, w);
                let n = labs.len() as u32;
                let id = *lab.entry(nl.clone()).or_insert_with(|| {
                    labs.push(nl);
                    tr.push(vec![]);
                    acc.push(false);
                    n
                });
                let v = &mut tr[li as usize];
                match v.iter_mut().find(|x| x.0 == t.0 && x.2 == id) {
                    Some(x) => x.1 = ls_or(x.1, l),
                    None => v.push((t.0, l, id)),
                }
                st.push((t.2, id));
            }
        }
    }
    minimize(acc, tr, 0)
}
