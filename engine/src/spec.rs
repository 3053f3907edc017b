//! RFC 5646 productions (with component captures), as specification languages.
//! Written from the RFC text; independent of the crate's own grammar file.
use crate::auto::*;
use std::rc::Rc;

#[derive(Clone)]
pub enum Re {
    Set(Rc<[bool; 256]>),
    Cat(Vec<Re>),
    Alt(Vec<Re>),
    Rep(Box<Re>, usize, Option<usize>),
    Cap(&'static str, Box<Re>),
}
use Re::*;

pub fn set(f: impl Fn(u8) -> bool) -> Re {
    let mut a = [false; 256];
    for b in 0..=255u8 {
        a[b as usize] = f(b);
    }
    Set(Rc::new(a))
}
pub fn alpha() -> Re {
    set(|b| b.is_ascii_alphabetic())
}
pub fn digit() -> Re {
    set(|b| b.is_ascii_digit())
}
pub fn alnum() -> Re {
    set(|b| b.is_ascii_alphanumeric())
}
pub fn any() -> Re {
    set(|_| true)
}
pub fn ci(s: &str) -> Re {
    Cat(s.bytes().map(|c| set(move |b| b.eq_ignore_ascii_case(&c))).collect())
}
pub fn exact(s: &[u8]) -> Re {
    Cat(s.iter().map(|&c| set(move |b| b == c)).collect())
}
pub fn rep(r: Re, a: usize, b: usize) -> Re {
    Rep(Box::new(r), a, Some(b))
}
pub fn star(r: Re) -> Re {
    Rep(Box::new(r), 0, None)
}
pub fn plus(r: Re) -> Re {
    Rep(Box::new(r), 1, None)
}
pub fn opt(r: Re) -> Re {
    Rep(Box::new(r), 0, Some(1))
}
pub fn cat(v: Vec<Re>) -> Re {
    Cat(v)
}
pub fn alt(v: Vec<Re>) -> Re {
    Alt(v)
}
pub fn cap(n: &'static str, r: Re) -> Re {
    Cap(n, Box::new(r))
}
fn dash(r: Re) -> Re {
    cat(vec![ci("-"), r])
}

pub const IRREGULAR: [&str; 17] = [
    "en-GB-oed", "i-ami", "i-bnn", "i-default", "i-enochian", "i-hak", "i-klingon", "i-lux",
    "i-mingo", "i-navajo", "i-pwn", "i-tao", "i-tay", "i-tsu", "sgn-BE-FR", "sgn-BE-NL",
    "sgn-CH-DE",
];
pub const REGULAR: [&str; 9] = [
    "art-lojban", "cel-gaulish", "no-bok", "no-nyn", "zh-guoyu", "zh-hakka", "zh-min",
    "zh-min-nan", "zh-xiang",
];

fn extlang() -> Re {
    cat(vec![rep(alpha(), 3, 3), rep(dash(rep(alpha(), 3, 3)), 0, 2)])
}
fn language() -> Re {
    alt(vec![
        cat(vec![cap("primary", rep(alpha(), 2, 3)), opt(dash(cap("extlang", extlang())))]),
        cap("primary", rep(alpha(), 4, 4)),
        cap("primary", rep(alpha(), 5, 8)),
    ])
}
fn script() -> Re {
    rep(alpha(), 4, 4)
}
fn region() -> Re {
    alt(vec![rep(alpha(), 2, 2), rep(digit(), 3, 3)])
}
fn variant() -> Re {
    alt(vec![rep(alnum(), 5, 8), cat(vec![digit(), rep(alnum(), 3, 3)])])
}
fn singleton() -> Re {
    set(|b| b.is_ascii_alphanumeric() && b != b'x' && b != b'X')
}
fn extension() -> Re {
    cat(vec![singleton(), plus(dash(rep(alnum(), 2, 8)))])
}
fn privateuse() -> Re {
    cat(vec![ci("x"), plus(dash(rep(alnum(), 1, 8)))])
}
fn list(r: Re) -> Re {
    cat(vec![r.clone(), star(dash(r))])
}
fn langtag() -> Re {
    cat(vec![
        cap("language", language()),
        opt(dash(cap("script", script()))),
        opt(dash(cap("region", region()))),
        opt(dash(cap("variants", list(variant())))),
        opt(dash(cap("extensions", list(extension())))),
        opt(dash(cap("private", privateuse()))),
    ])
}
fn utf8() -> Re {
    let t = || set(|b| (0x80..=0xbf).contains(&b));
    let r = |a: u8, b: u8| set(move |c| c >= a && c <= b);
    star(alt(vec![
        r(0, 0x7f),
        cat(vec![r(0xc2, 0xdf), t()]),
        cat(vec![r(0xe0, 0xe0), r(0xa0, 0xbf), t()]),
        cat(vec![r(0xe1, 0xec), t(), t()]),
        cat(vec![r(0xed, 0xed), r(0x80, 0x9f), t()]),
        cat(vec![r(0xee, 0xef), t(), t()]),
        cat(vec![r(0xf0, 0xf0), r(0x90, 0xbf), t(), t()]),
        cat(vec![r(0xf1, 0xf3), t(), t(), t()]),
        cat(vec![r(0xf4, 0xf4), r(0x80, 0x8f), t(), t()]),
    ]))
}
/// Contains an overlong UTF-8 encoding of some character.
fn overlong() -> Re {
    let t = || set(|b| (0x80..=0xbf).contains(&b));
    let r = |a: u8, b: u8| set(move |c| c >= a && c <= b);
    cat(vec![
        star(any()),
        alt(vec![
            cat(vec![r(0xc0, 0xc1), t()]),
            cat(vec![r(0xe0, 0xe0), r(0x80, 0x9f), t()]),
            cat(vec![r(0xf0, 0xf0), r(0x80, 0x8f), t(), t()]),
        ]),
        star(any()),
    ])
}

/// Specification of a named language.
pub fn re(name: &str) -> Option<Re> {
    Some(match name {
        "LangTag" => {
            let mut v = vec![cap("normal", langtag()), cap("privateuse", privateuse())];
            v.push(cap("irregular", alt(IRREGULAR.iter().map(|s| ci(s)).collect())));
            alt(v)
        }
        "NormalLangTag" => langtag(),
        "PrivateUse" => privateuse(),
        "PrivateUseSubtag" => rep(alnum(), 1, 8),
        "Language" => language(),
        "PrimaryLanguage" => rep(alpha(), 2, 8),
        "LanguageExtension" => extlang(),
        "ExtendedLangTag" => rep(alpha(), 3, 3),
        "Script" => script(),
        "Region" => region(),
        "Variant" => variant(),
        "Variants" => opt(list(variant())),
        "Extension" => extension(),
        "Extensions" => opt(list(extension())),
        "ExtensionSubtag" => rep(alnum(), 2, 8),
        "Grandfathered" => alt(IRREGULAR.iter().chain(&REGULAR).map(|s| ci(s)).collect()),
        "Singleton" => singleton(),
        "Utf8" => utf8(),
        "Overlong" => overlong(),
        "Any" => star(any()),
        "Byte" => any(),
        "Empty" => cat(vec![]),
        "Ascii" => star(set(|b| b < 128)),
        // any text over the characters tags are made of
        "TagText" => star(set(|b| b.is_ascii_alphanumeric() || b == b'-')),
        // exactly one character, UTF-8 encoded
        "Char" => match utf8() {
            Rep(r, _, _) => *r,
            _ => unreachable!(),
        },
        "Alnum1" => alnum(),
        _ => return None,
    })
}
/// Is every word of the language made of ASCII letters, digits and hyphens?
pub fn is_tag_text(name: &str) -> bool {
    !matches!(name, "Ascii" | "Utf8" | "Overlong" | "Any" | "Byte" | "Char")
}
pub const TYPES: [&str; 15] = [
    "LangTag", "NormalLangTag", "PrivateUse", "PrivateUseSubtag", "Language", "PrimaryLanguage",
    "LanguageExtension", "ExtendedLangTag", "Script", "Region", "Variant", "Variants", "Extension",
    "Extensions", "ExtensionSubtag",
];

// -- compilation ------------------------------------------------------------------------------

#[derive(Default)]
struct Raw {
    /// epsilon edges, with an optional marker output
    eps: Vec<Vec<(Option<Mk>, usize)>>,
    let_: Vec<Vec<(Rc<[bool; 256]>, usize)>>,
}
impl Raw {
    fn node(&mut self) -> usize {
        self.eps.push(vec![]);
        self.let_.push(vec![]);
        self.eps.len() - 1
    }
    fn build(&mut self, r: &Re, from: usize, caps: &dyn Fn(&str) -> Option<(Mk, Mk)>) -> usize {
        match r {
            Set(s) => {
                let n = self.node();
                self.let_[from].push((s.clone(), n));
                n
            }
            Cat(v) => v.iter().fold(from, |f, r| self.build(r, f, caps)),
            Alt(v) => {
                let out = self.node();
                for r in v {
                    let s = self.node();
                    self.eps[from].push((None, s));
                    let e = self.build(r, s, caps);
                    self.eps[e].push((None, out));
                }
                out
            }
            Rep(r, a, b) => {
                let mut f = from;
                for _ in 0..*a {
                    f = self.build(r, f, caps);
                }
                match b {
                    None => {
                        let h = self.node();
                        self.eps[f].push((None, h));
                        let e = self.build(r, h, caps);
                        self.eps[e].push((None, h));
                        let o = self.node();
                        self.eps[h].push((None, o));
                        o
                    }
                    Some(b) => {
                        let o = self.node();
                        self.eps[f].push((None, o));
                        for _ in *a..*b {
                            f = self.build(r, f, caps);
                            self.eps[f].push((None, o));
                        }
                        o
                    }
                }
            }
            Cap(n, r) => match caps(n) {
                None => self.build(r, from, caps),
                Some((x, y)) => {
                    let s = self.node();
                    self.eps[from].push((Some(x), s));
                    let e = self.build(r, s, caps);
                    let o = self.node();
                    self.eps[e].push((Some(y), o));
                    o
                }
            },
        }
    }
    fn closure(&self, s: usize) -> Vec<(Marks, usize)> {
        let mut seen = vec![(0, s)];
        let mut k = 0;
        while k < seen.len() {
            let (m, q) = seen[k];
            k += 1;
            for (x, t) in &self.eps[q] {
                let n = (m | x.map_or(0, |x| 1 << x), *t);
                if !seen.contains(&n) {
                    seen.push(n);
                }
            }
        }
        seen
    }
}

/// Automaton of a language on track `t`, with END marker `t` and the requested captures.
pub fn track_dfa(r: &Re, t: usize, caps: &dyn Fn(&str) -> Option<(Mk, Mk)>) -> Dfa {
    let mut raw = Raw::default();
    let s = raw.node();
    let e = raw.build(r, s, caps);
    let n = raw.eps.len();
    let padt = byte_ls(t, None);
    let mut nfa = Nfa { init: vec![s as u32], acc: vec![false; n + 1], tr: vec![vec![]; n + 1] };
    nfa.acc[n] = true;
    nfa.tr[n].push((0, padt, n as u32));
    for q in 0..n {
        for (m, p) in raw.closure(q) {
            for (set, to) in &raw.let_[p] {
                let l = cyl_ls(t, |o| o.is_some_and(|b| set[b as usize]));
                if l != EMPTY_LS {
                    nfa.tr[q].push((m, l, *to as u32));
                }
            }
            if p == e {
                nfa.tr[q].push((m | 1 << t, padt, n as u32));
            }
        }
    }
    determinize(&nfa)
}

/// Synchronous product of automata over different tracks.
pub fn sync_product(a: &Dfa, b: &Dfa) -> Dfa {
    if a.is_empty() || b.is_empty() {
        return Dfa::empty();
    }
    let mut ids: FxMap<(u32, u32), u32> = Default::default();
    let mut work = vec![(0u32, 0u32)];
    ids.insert((0, 0), 0);
    let (mut acc, mut tr) = (vec![], vec![]);
    let mut k = 0;
    while k < work.len() {
        let (p, q) = work[k];
        k += 1;
        acc.push(a.acc[p as usize] && b.acc[q as usize]);
        let mut v = vec![];
        for x in &a.tr[p as usize] {
            for y in &b.tr[q as usize] {
                let l = ls_and(x.1, y.1);
                if l != 0 {
                    let n = ids.len() as u32;
                    let id = *ids.entry((x.2, y.2)).or_insert_with(|| {
                        work.push((x.2, y.2));
                        n
                    });
                    v.push((x.0 | y.0, l, id));
                }
            }
        }
        tr.push(v);
    }
    minimize(acc, tr, 0)
}

/// Deterministic byte table of a language.
pub fn lang(name: &str, r: &Re) -> Lang {
    let mut raw = Raw::default();
    let s = raw.node();
    let e = raw.build(r, s, &|_| None);
    let clo = |v: &[usize]| -> Vec<usize> {
        let mut o: Vec<usize> = v.iter().flat_map(|&q| raw.closure(q).into_iter().map(|x| x.1)).collect();
        o.sort_unstable();
        o.dedup();
        o
    };
    let mut ids: FxMap<Vec<usize>, u16> = Default::default();
    let i = clo(&[s]);
    ids.insert(i.clone(), 0);
    let mut work = vec![i];
    let (mut next, mut acc) = (vec![], vec![]);
    let mut k = 0;
    while k < work.len() {
        let set = work[k].clone();
        k += 1;
        acc.push(set.contains(&e));
        let mut row = [0u16; 256];
        for b in 0..256usize {
            let mut t: Vec<usize> =
                set.iter().flat_map(|&q| raw.let_[q].iter().filter(|x| x.0[b]).map(|x| x.1)).collect();
            t.sort_unstable();
            t.dedup();
            let t = clo(&t);
            let n = ids.len() as u16;
            row[b] = *ids.entry(t.clone()).or_insert_with(|| {
                work.push(t);
                n
            });
        }
        next.push(row);
    }
    min_lang(Lang { name: name.to_string(), next, acc })
}

pub fn min_lang(l: Lang) -> Lang {
    let n = l.acc.len();
    let mut cls: Vec<u32> = l.acc.iter().map(|&b| b as u32).collect();
    let mut nc = 0;
    loop {
        let mut m: FxMap<(u32, Vec<u32>), u32> = Default::default();
        let new: Vec<u32> = (0..n)
            .map(|s| {
                let sig = (cls[s], l.next[s].iter().map(|&t| cls[t as usize]).collect::<Vec<_>>());
                let k = m.len() as u32;
                *m.entry(sig).or_insert(k)
            })
            .collect();
        let k = m.len();
        cls = new;
        if k == nc {
            break;
        }
        nc = k;
    }
    // breadth-first numbering from the initial class
    let mut num = vec![u16::MAX; nc];
    let mut rep = vec![usize::MAX; nc];
    for s in (0..n).rev() {
        rep[cls[s] as usize] = s;
    }
    let mut order = vec![cls[0]];
    num[cls[0] as usize] = 0;
    let (mut next, mut acc) = (vec![], vec![]);
    let mut k = 0;
    while k < order.len() {
        let s = rep[order[k] as usize];
        k += 1;
        acc.push(l.acc[s]);
        let mut row = [0u16; 256];
        for b in 0..256 {
            let c = cls[l.next[s][b] as usize];
            if num[c as usize] == u16::MAX {
                num[c as usize] = order.len() as u16;
                order.push(c);
            }
            row[b] = num[c as usize];
        }
        next.push(row);
    }
    Lang { name: l.name, next, acc }
}

/// Shortest word on which two languages disagree, with whether the first accepts it;
/// words of `except` are disregarded.
pub fn lang_diff(a: &Lang, b: &Lang, except: Option<&Lang>) -> Option<(Vec<u8>, bool)> {
    let e0 = 0u16;
    let mut seen: FxMap<(u16, u16, u16), ()> = Default::default();
    let mut q = std::collections::VecDeque::new();
    q.push_back(((0u16, 0u16, e0), vec![]));
    seen.insert((0, 0, e0), ());
    let order: Vec<u8> = (b'a'..=b'z').chain(b'0'..=b'9').chain([b'-']).chain(b'A'..=b'Z').chain(0..=255).collect();
    while let Some(((x, y, z), w)) = q.pop_front() {
        let ex = except.is_some_and(|e| e.acc[z as usize]);
        if a.acc[x as usize] != b.acc[y as usize] && !ex {
            return Some((w, a.acc[x as usize]));
        }
        for &c in &order {
            let n = (
                a.next[x as usize][c as usize],
                b.next[y as usize][c as usize],
                except.map_or(0, |e| e.next[z as usize][c as usize]),
            );
            if seen.insert(n, ()).is_none() {
                let mut w2: Vec<u8> = w.clone();
                w2.push(c);
                q.push_back((n, w2));
            }
        }
    }
    None
}
