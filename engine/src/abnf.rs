//! RFC 5234 grammars, as languages of texts.
use crate::spec::{self, Re};
use std::collections::BTreeMap;

/// Letters and digits of a name, in lower case: `extlang-tag` and `ExtlangTag` agree.
pub fn plain(n: &str) -> String {
    n.chars().filter(|c| c.is_ascii_alphanumeric()).map(|c| c.to_ascii_lowercase()).collect()
}

#[derive(Clone)]
enum T {
    Alt(Vec<T>),
    Cat(Vec<T>),
    Rep(Box<T>, usize, Option<usize>),
    Rule(String),
    Text(String, bool),
    Range(u32, u32),
}

/// Definitions by plain name.
pub struct Grammar(BTreeMap<String, T>);

impl Grammar {
    pub fn parse(src: &str) -> Result<Grammar, String> {
        // one string per rule
        let mut rules: Vec<String> = vec![];
        for l in src.lines() {
            let mut s = String::new();
            let mut quoted = false;
            for c in l.chars() {
                match c {
                    '"' => quoted = !quoted,
                    ';' if !quoted => break,
                    _ => {}
                }
                s.push(c);
            }
            if s.trim().is_empty() {
                continue;
            }
            if s.starts_with([' ', '\t']) {
                let r = rules.last_mut().ok_or("continuation of nothing")?;
                r.push(' ');
                r.push_str(s.trim());
            } else {
                rules.push(s.trim().to_string());
            }
        }
        let mut g = BTreeMap::new();
        for r in rules {
            let i = r.find('=').ok_or(format!("no definition in {r}"))?;
            let n = plain(&r[..i]);
            let more = r[i + 1..].starts_with('/');
            let body: Vec<char> = r[i + 1 + more as usize..].chars().collect();
            let mut at = 0;
            let t = alternation(&body, &mut at)?;
            space(&body, &mut at);
            if at != body.len() {
                return Err(format!("cannot read the definition of {n} after {}", body[..at].iter().collect::<String>()));
            }
            match (g.remove(&n), more) {
                (Some(o), true) => g.insert(n, T::Alt(vec![o, t])),
                (None, false) => g.insert(n, t),
                (Some(_), false) => return Err(format!("{n} is defined twice")),
                (None, true) => return Err(format!("{n} is extended before it is defined")),
            };
        }
        Ok(Grammar(g))
    }
    pub fn names(&self) -> impl Iterator<Item = &String> {
        self.0.keys()
    }
    pub fn re(&self, name: &str) -> Result<Re, String> {
        self.rule(name, &mut vec![])
    }
    fn rule(&self, name: &str, stack: &mut Vec<String>) -> Result<Re, String> {
        let n = plain(name);
        if let Some(t) = self.0.get(&n) {
            if stack.contains(&n) {
                return Err(format!("{name} is recursive"));
            }
            stack.push(n);
            let r = self.term(t, stack)?;
            stack.pop();
            return Ok(r);
        }
        Ok(match &*n {
            "alpha" => spec::alpha(),
            "digit" => spec::digit(),
            "hexdig" => spec::set(|b| b.is_ascii_digit() || (b'A'..=b'F').contains(&b.to_ascii_uppercase())),
            "bit" => spec::set(|b| b == b'0' || b == b'1'),
            "char" => spec::set(|b| (1..=127).contains(&b)),
            "vchar" => spec::set(|b| (0x21..=0x7e).contains(&b)),
            "dquote" => spec::exact(b"\""),
            "sp" => spec::exact(b" "),
            "htab" => spec::exact(b"\t"),
            _ => return Err(format!("{name} is not defined")),
        })
    }
    fn term(&self, t: &T, st: &mut Vec<String>) -> Result<Re, String> {
        Ok(match t {
            T::Alt(v) => spec::alt(v.iter().map(|t| self.term(t, st)).collect::<Result<_, _>>()?),
            T::Cat(v) => spec::cat(v.iter().map(|t| self.term(t, st)).collect::<Result<_, _>>()?),
            T::Rep(t, a, b) => Re::Rep(Box::new(self.term(t, st)?), *a, *b),
            T::Rule(n) => self.rule(n, st)?,
            T::Text(s, true) => spec::ci(s),
            T::Text(s, false) => spec::exact(s.as_bytes()),
            T::Range(a, b) => {
                if *b > 127 {
                    return Err("character out of ASCII".into());
                }
                let (a, b) = (*a as u8, *b as u8);
                spec::set(move |c| a <= c && c <= b)
            }
        })
    }
}

fn space(s: &[char], at: &mut usize) {
    while *at < s.len() && s[*at].is_whitespace() {
        *at += 1;
    }
}
fn alternation(s: &[char], at: &mut usize) -> Result<T, String> {
    let mut v = vec![concatenation(s, at)?];
    loop {
        space(s, at);
        if s.get(*at) != Some(&'/') {
            break;
        }
        *at += 1;
        v.push(concatenation(s, at)?);
    }
    Ok(if v.len() == 1 { v.pop().unwrap() } else { T::Alt(v) })
}
fn concatenation(s: &[char], at: &mut usize) -> Result<T, String> {
    let mut v = vec![];
    loop {
        space(s, at);
        match s.get(*at) {
            None | Some('/' | ')' | ']') => break,
            _ => v.push(repetition(s, at)?),
        }
    }
    match v.len() {
        0 => Err("empty alternative".into()),
        1 => Ok(v.pop().unwrap()),
        _ => Ok(T::Cat(v)),
    }
}
fn number(s: &[char], at: &mut usize, radix: u32) -> Option<u32> {
    let i = *at;
    while s.get(*at).is_some_and(|c| c.is_digit(radix)) {
        *at += 1;
    }
    u32::from_str_radix(&s[i..*at].iter().collect::<String>(), radix).ok()
}
fn repetition(s: &[char], at: &mut usize) -> Result<T, String> {
    let a = number(s, at, 10);
    if s.get(*at) == Some(&'*') {
        *at += 1;
        let b = number(s, at, 10);
        let e = element(s, at)?;
        return Ok(T::Rep(Box::new(e), a.unwrap_or(0) as usize, b.map(|b| b as usize)));
    }
    let e = element(s, at)?;
    Ok(match a {
        Some(a) => T::Rep(Box::new(e), a as usize, Some(a as usize)),
        None => e,
    })
}
fn element(s: &[char], at: &mut usize) -> Result<T, String> {
    let c = *s.get(*at).ok_or("element expected")?;
    *at += 1;
    let quoted = |at: &mut usize| -> Result<String, String> {
        let i = *at;
        while *s.get(*at).ok_or("text without end")? != '"' {
            *at += 1;
        }
        *at += 1;
        Ok(s[i..*at - 1].iter().collect())
    };
    match c {
        '(' | '[' => {
            let t = alternation(s, at)?;
            space(s, at);
            if s.get(*at) != Some(if c == '(' { &')' } else { &']' }) {
                return Err("group without end".into());
            }
            *at += 1;
            Ok(if c == '(' { t } else { T::Rep(Box::new(t), 0, Some(1)) })
        }
        '"' => Ok(T::Text(quoted(at)?, true)),
        '%' => {
            let k = *s.get(*at).ok_or("number expected")?;
            *at += 1;
            let radix = match k {
                'x' | 'X' => 16,
                'd' | 'D' => 10,
                'b' | 'B' => 2,
                's' | 'S' | 'i' | 'I' => {
                    *at += 1;
                    return Ok(T::Text(quoted(at)?, k == 'i' || k == 'I'));
                }
                _ => return Err("number expected".into()),
            };
            let a = number(s, at, radix).ok_or("number expected")?;
            if s.get(*at) == Some(&'-') {
                *at += 1;
                return Ok(T::Range(a, number(s, at, radix).ok_or("number expected")?));
            }
            let mut v = vec![T::Range(a, a)];
            while s.get(*at) == Some(&'.') {
                *at += 1;
                let a = number(s, at, radix).ok_or("number expected")?;
                v.push(T::Range(a, a));
            }
            Ok(T::Cat(v))
        }
        c if c.is_ascii_alphabetic() => {
            let i = *at - 1;
            while s.get(*at).is_some_and(|c| c.is_ascii_alphanumeric() || *c == '-') {
                *at += 1;
            }
            Ok(T::Rule(s[i..*at].iter().collect()))
        }
        c => Err(format!("unexpected {c}")),
    }
}
