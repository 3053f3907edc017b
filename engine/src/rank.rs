//! Termination: every cycle of the abstract state graph makes some position advance (or retreat)
//! for good. Positions lie within a text that does not change, so this bounds every loop.
//!
//! Each abstract state on a cycle is stepped once more with its positions remembered; the order of
//! the remembered and the new positions, over all inputs of the state, gives one size-change graph
//! per step. The size-change principle is then decided by closing those graphs under composition.
use crate::auto::*;
use crate::interp::*;
use crate::val::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::rc::Rc;

/// Row i: the measures of the next state that are at most (ge) or below (gt) measure i.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Sc {
    ge: Vec<u64>,
    gt: Vec<u64>,
}
impl Sc {
    fn then(&self, o: &Sc) -> Sc {
        let n = self.ge.len();
        let mut r = Sc { ge: vec![0; n], gt: vec![0; n] };
        for i in 0..n {
            let mut b = self.ge[i];
            while b != 0 {
                let j = b.trailing_zeros() as usize;
                b &= b - 1;
                r.ge[i] |= o.ge[j];
                r.gt[i] |= o.gt[j];
                if self.gt[i] >> j & 1 == 1 {
                    r.gt[i] |= o.ge[j];
                }
            }
        }
        r
    }
    fn descends(&self) -> bool {
        (0..self.gt.len()).any(|i| self.gt[i] >> i & 1 == 1)
    }
}

fn sccs(n: usize, edges: &BTreeSet<(usize, usize)>) -> Vec<Vec<usize>> {
    let mut succ = vec![vec![]; n];
    for &(a, b) in edges {
        succ[a].push(b);
    }
    let (mut index, mut low, mut on) = (vec![usize::MAX; n], vec![0; n], vec![false; n]);
    let (mut stack, mut out, mut next) = (vec![], vec![], 0);
    for r in 0..n {
        if index[r] != usize::MAX {
            continue;
        }
        let mut call = vec![(r, 0)];
        index[r] = next;
        low[r] = next;
        next += 1;
        stack.push(r);
        on[r] = true;
        while let Some(&mut (v, ref mut i)) = call.last_mut() {
            if *i < succ[v].len() {
                let w = succ[v][*i];
                *i += 1;
                if index[w] == usize::MAX {
                    index[w] = next;
                    low[w] = next;
                    next += 1;
                    stack.push(w);
                    on[w] = true;
                    call.push((w, 0));
                } else if on[w] {
                    low[v] = low[v].min(index[w]);
                }
            } else {
                call.pop();
                if let Some(&(u, _)) = call.last() {
                    low[u] = low[u].min(low[v]);
                }
                if low[v] == index[v] {
                    let mut c = vec![];
                    loop {
                        let w = stack.pop().unwrap();
                        on[w] = false;
                        c.push(w);
                        if w == v {
                            break;
                        }
                    }
                    if c.len() > 1 || edges.contains(&(v, v)) {
                        out.push(c);
                    }
                }
            }
        }
    }
    out
}

impl<'g, 'tcx> Interp<'g, 'tcx> {
    /// A state reached while a loop is being ranked.
    pub fn step_to(&mut self, mut key: Key, a: Dfa) -> R<()> {
        let (n, lo) = (self.shadow as u8, (self.fixed - self.shadow) as u8);
        let lower = &mut |m: &mut Mk| {
            if *m != ORIGIN && *m >= lo + n {
                *m -= n;
            }
        };
        for v in key.ths.iter_mut().flatten().flat_map(|f| f.2.iter_mut()) {
            v.marks(lower);
        }
        for v in key.obs.iter_mut().flatten().map(|o| &mut o.1).chain(key.log.iter_mut()) {
            v.marks(lower);
        }
        let Some(&id) = self.entries.get(&key) else {
            return unsup("a loop whose states are not stable");
        };
        let mut map = [63u8; 64];
        let mut drop = 0;
        for i in 0..63u8 {
            map[i as usize] = if i < lo + n { i } else { i - n };
            if i >= lo && i < lo + n {
                drop |= 1 << i;
                map[i as usize] = 62;
            }
        }
        let plain = a.project(drop).rename(&map);
        if !plain.minus(&self.ent[id].a).is_empty() {
            return unsup("a loop whose states are not stable");
        }
        self.reached.as_mut().unwrap().push((id, a));
        Ok(())
    }

    fn marks_of(&self, id: usize) -> u32 {
        let k = &self.ent[id].key;
        let mut n = self.fixed;
        let mut see = |m: &mut Mk| {
            if *m != ORIGIN {
                n = n.max(*m as u32 + 1);
            }
        };
        for v in k.ths.iter().flatten().flat_map(|f| f.2.iter()) {
            v.clone().marks(&mut see);
        }
        for v in k.obs.iter().flatten().map(|o| &o.1).chain(k.log.iter()) {
            v.clone().marks(&mut see);
        }
        n - self.fixed
    }

    /// The steps from a state: what they reach, and how positions change.
    fn steps_from(&mut self, id: usize) -> Result<Vec<(usize, Sc)>, String> {
        let n = self.marks_of(id);
        let mut st = self.resume(id);
        self.src = None;
        let lo = self.fixed;
        if lo + 2 * n > 50 || n > 31 {
            return Err("too many positions".into());
        }
        st.each_val(&mut |v| {
            if v.has_marks() {
                v.marks(&mut |m| {
                    if *m != ORIGIN && *m as u32 >= lo {
                        *m += n as u8;
                    }
                });
            }
        });
        let (keep, all) = ((1u64 << lo) - 1, ((1u64 << n) - 1) << lo);
        let mut a = (*st.a).clone();
        for t in a.tr.iter_mut().flatten() {
            let x = t.0 & all;
            t.0 = t.0 & keep | x | x << n;
        }
        st.a = Rc::new(minimize(a.acc, a.tr, 0));
        st.fixed += n;
        self.fixed += n;
        self.shadow = n;
        self.reached = Some(vec![]);
        let (ev, ret, checks) = (self.events.len(), self.returns.len(), self.checks.clone());
        let r = self.explore(vec![st]);
        self.events.truncate(ev);
        self.returns.truncate(ret);
        self.checks = checks;
        self.fixed -= n;
        self.shadow = 0;
        let reached = self.reached.take().unwrap();
        match r {
            Ok(()) => {}
            Err(Stop::Unsupported(m)) => return Err(m),
            Err(_) => return Err("internal".into()),
        }
        let mut out = vec![];
        for (to, a) in reached {
            let k = self.marks_of(to);
            let mut g = Sc { ge: vec![0; 64], gt: vec![0; 64] };
            for i in 0..n {
                for j in 0..k {
                    // measure 2i: what lies after position i; 2i + 1: what lies before it
                    let p = P { m: (lo + i) as Mk, k: 0 };
                    let q = P { m: (lo + n + j) as Mk, k: 0 };
                    let v = transform(&a, &CmpObs(p, q), 3);
                    let (lt, eq, gt) = (v[0].is_empty(), v[1].is_empty(), v[2].is_empty());
                    if gt {
                        g.ge[2 * i as usize] |= 1 << (2 * j);
                        if eq {
                            g.gt[2 * i as usize] |= 1 << (2 * j);
                        }
                    }
                    if lt {
                        g.ge[2 * i as usize + 1] |= 1 << (2 * j + 1);
                        if eq {
                            g.gt[2 * i as usize + 1] |= 1 << (2 * j + 1);
                        }
                    }
                }
            }
            out.push((to, g));
        }
        Ok(out)
    }

    fn entry_where(&mut self, id: usize) -> String {
        let st = self.resume(id);
        self.src = None;
        self.where_(&st)
    }

    /// A loop that is still being run on some of these inputs: its function, that function's name
    /// and the place.
    pub fn stuck(&mut self, bad: &Dfa) -> (String, String, String) {
        for c in sccs(self.ent.len(), &self.edges) {
            for v in c {
                if self.ent[v].a.project(!0).intersect(bad).is_empty() {
                    continue;
                }
                let st = self.resume(v);
                self.src = None;
                let f = st.ths[st.cur].iter().rev().find(|f| f.b.local_crate).cloned();
                let at = self.span_str(self.span_of(&st));
                let name = st.frame().b.name.clone();
                return (name.clone(), f.map_or(name, |f| f.b.name.clone()), at);
            }
        }
        Default::default()
    }

    /// Shows that every loop of the analysed program ends; returns where the loops are.
    pub fn rank(&mut self) -> Result<Vec<String>, String> {
        let mut steps: BTreeMap<usize, Vec<(usize, Sc)>> = Default::default();
        loop {
            let comps = sccs(self.ent.len(), &self.edges);
            let todo: Vec<usize> = comps.iter().flatten().copied().filter(|v| !steps.contains_key(v)).collect();
            if todo.is_empty() {
                break;
            }
            for v in todo {
                let s = self.steps_from(v).map_err(|e| format!("{e} (in the loop at {})", self.entry_where(v)))?;
                for (to, _) in &s {
                    self.edges.insert((v, *to));
                }
                steps.insert(v, s);
            }
        }
        let mut out = vec![];
        for c in sccs(self.ent.len(), &self.edges) {
            let inside: BTreeSet<usize> = c.iter().copied().collect();
            let mut g: BTreeSet<(usize, usize, Sc)> = BTreeSet::new();
            for v in &c {
                for (to, s) in &steps[v] {
                    if inside.contains(to) {
                        g.insert((*v, *to, s.clone()));
                    }
                }
            }
            if let Some(v) = descends(g)? {
                return Err(format!("no position was found to advance in the loop at {}", self.entry_where(v)));
            }
            for v in c {
                let k = &self.ent[v].key;
                let f = k.ths[k.cur].len() - 1;
                if self.ent[v].frames[k.cur][f].head[k.ths[k.cur][f].1 as usize] {
                    out.push(self.entry_where(v));
                }
            }
        }
        out.sort();
        out.dedup();
        Ok(out)
    }
}

/// None if no infinite path is possible, otherwise a state on one that could not be excluded.
fn descends(mut g: BTreeSet<(usize, usize, Sc)>) -> Result<Option<usize>, String> {
    // states that are just passed through
    loop {
        let nodes: BTreeSet<usize> = g.iter().flat_map(|e| [e.0, e.1]).collect();
        let mut best: Option<(usize, usize)> = None;
        for v in nodes {
            if g.iter().any(|e| e.0 == v && e.1 == v) {
                continue;
            }
            let (i, o) = (g.iter().filter(|e| e.1 == v).count(), g.iter().filter(|e| e.0 == v).count());
            if i * o <= i + o + 2 && best.is_none_or(|b| i * o < b.0) {
                best = Some((i * o, v));
            }
        }
        let Some((_, v)) = best else { break };
        let ins: Vec<_> = g.iter().filter(|e| e.1 == v).cloned().collect();
        let outs: Vec<_> = g.iter().filter(|e| e.0 == v).cloned().collect();
        g.retain(|e| e.0 != v && e.1 != v);
        for a in &ins {
            for b in &outs {
                g.insert((a.0, b.1, a.2.then(&b.2)));
            }
        }
    }
    let base: Vec<_> = g.iter().cloned().collect();
    let mut seen: HashSet<(usize, usize, Sc)> = base.iter().cloned().collect();
    let mut work = base.clone();
    while let Some((a, b, s)) = work.pop() {
        if a == b && s.then(&s) == s && !s.descends() {
            return Ok(Some(a));
        }
        for e in base.iter().filter(|e| e.0 == b) {
            let n = (a, e.1, s.then(&e.2));
            if seen.insert(n.clone()) {
                work.push(n);
            }
        }
        if seen.len() > 200_000 {
            return Err("too many ways round the loops".into());
        }
    }
    Ok(None)
}
