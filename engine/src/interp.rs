//! Abstract interpreter of MIR over sets of annotated words.
use crate::auto::*;
use crate::spec;
use crate::val::*;
use rustc_data_structures::fx::FxHashMap;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_mir_dataflow::Analysis;
use rustc_span::Span;
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::rc::Rc;

pub enum Stop {
    /// Re-execute the current statement under each refinement (automaton, extra choice).
    Fork(Vec<(Dfa, Option<usize>)>),
    /// The path is infeasible or has ended.
    Dead,
    Unsupported(String),
}
pub type R<T> = Result<T, Stop>;

pub fn unsup<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Unsupported(s.into()))
}

pub struct BodyInfo<'tcx> {
    pub id: u32,
    pub inst: Instance<'tcx>,
    pub body: Body<'tcx>,
    pub name: String,
    pub order: Vec<u32>,
    pub head: Vec<bool>,
    pub join: Vec<bool>,
    pub live: Vec<Vec<bool>>,
    pub borrowed: Vec<bool>,
    pub varying: Vec<Option<Vec<bool>>>,
    pub branching: bool,
    pub local_crate: bool,
}

/// Facts shared by all analyses of one compiler run.
pub struct Global<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub bodies: RefCell<FxHashMap<Instance<'tcx>, &'tcx BodyInfo<'tcx>>>,
    pub tys: RefCell<Vec<Ty<'tcx>>>,
    pub fns: RefCell<Vec<Instance<'tcx>>>,
    pub names: RefCell<FxHashMap<DefId, Rc<str>>>,
    pub langs: RefCell<HashMap<String, Rc<Lang>>>,
    pub summaries: RefCell<FxHashMap<Instance<'tcx>, Rc<Summary>>>,
    pub statics: HashMap<String, Val>,
    pub shims: HashMap<String, DefId>,
    pub analysed: RefCell<BTreeSet<String>>,
    pub calls: RefCell<u64>,
    pub verbose: bool,
}

/// Languages on which a recogniser may return true / false.
pub struct Summary {
    pub t: Rc<Lang>,
    pub f: Rc<Lang>,
    pub events: Vec<Event>,
    pub err: Option<String>,
    pub exact: bool,
    pub nstates: usize,
    /// why the recogniser may not end on some text
    pub endless: Option<String>,
}

#[derive(Clone, Debug)]
pub struct Event {
    pub kind: String,
    pub detail: String,
    pub func: String,
    pub span: String,
    pub stack: Vec<String>,
    pub witness: Vec<String>,
    /// "overlong" when only inputs containing overlong UTF-8 are concerned
    pub class: String,
    /// the offending input, per track (none: not about one input)
    pub word: Vec<Vec<u8>>,
}

#[derive(Clone)]
pub struct Frame<'tcx> {
    pub b: &'tcx BodyInfo<'tcx>,
    pub bb: u32,
    pub si: u32,
    pub locals: Vec<Val>,
}

#[derive(Clone)]
pub struct State<'tcx> {
    pub ths: Vec<Vec<Rc<Frame<'tcx>>>>,
    pub cur: usize,
    pub obs: Vec<Option<(i128, Val)>>,
    pub log: Vec<Val>,
    pub a: Rc<Dfa>,
    pub choices: Vec<usize>,
    pub chpos: usize,
    /// the first markers have a meaning of their own
    pub fixed: u32,
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Key {
    pub ths: Vec<Vec<(u32, u32, Vec<Val>)>>,
    pub cur: usize,
    pub obs: Vec<Option<(i128, Val)>>,
    pub log: Vec<Val>,
}

pub struct Entry<'tcx> {
    pub frames: Vec<Vec<&'tcx BodyInfo<'tcx>>>,
    pub key: Key,
    pub a: Rc<Dfa>,
    visits: u32,
}

pub struct TrackCfg {
    pub name: String,
    pub bytes: Vec<u8>,
    /// language the track is known to belong to (used to discard spurious reports)
    pub valid: Option<Rc<Lang>>,
    pub ascii: bool,
}

#[derive(Clone)]
pub struct Opts {
    pub const_thr: usize,
    /// constants are not related to distances between markers
    pub unrelated: bool,
    pub widen_after: u32,
    pub cap: u32,
    pub step_limit: u64,
    pub rank: bool,
    /// widening keeps what a loop cannot change
    pub invariants: bool,
    pub inv_growth: u32,
    /// widening keeps the last letters apart
    pub window: usize,
    /// finitely many inputs, no longer than this: nothing is generalised
    pub exact: Option<usize>,
    /// processor seconds
    pub cpu: f64,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { const_thr: 2, unrelated: false, widen_after: 2, cap: 1, step_limit: 3_000_000, rank: false, invariants: true, inv_growth: 40, window: 1, exact: None, cpu: 1e9 }
    }
}

pub struct Interp<'g, 'tcx> {
    pub g: &'g Global<'tcx>,
    pub tcx: TyCtxt<'tcx>,
    pub opts: Opts,
    pub tracks: Vec<TrackCfg>,
    pub ghosts: Vec<(String, Mk, Mk)>,
    pub fixed: u32,
    pub a0: Rc<Dfa>,
    pub trackers: Vec<Rc<Dfa>>,
    pub entries: FxMap<Key, usize>,
    pub ent: Vec<Entry<'tcx>>,
    queue: BTreeSet<(Vec<u32>, usize)>,
    entry_tr: HashMap<Vec<(u32, u32)>, Dfa>,
    inv_tr: FxMap<(Vec<(u32, u32)>, Vec<Val>), (Dfa, u32)>,
    skels: FxMap<Key, Skel>,
    pub events: Vec<Event>,
    pub checks: std::collections::BTreeMap<String, u64>,
    pub returns: Vec<(Val, Rc<Dfa>)>,
    pub steps: u64,
    pub joins: u64,
    pub obligations: u64,
    pub imprecise: BTreeSet<String>,
    comp: FxMap<(usize, usize), Rc<Vec<Vec<(Ls, u16)>>>>,
    comp_keep: Vec<Rc<Lang>>,
    /// which state a state was reached from
    pub src: Option<usize>,
    pub edges: BTreeSet<(usize, usize)>,
    /// while loops are ranked: the number of markers that keep the positions at the loop head, and
    /// the states reached
    pub shadow: u32,
    pub reached: Option<Vec<(usize, Dfa)>>,
    /// why some loop may not end
    pub endless: Option<String>,
    /// inputs on which a failure has been reported
    pub lost: Dfa,
    /// Stream mode: states at a loop head that depend on a single moving position are handed
    /// back instead of being explored.
    pub stream: Option<Vec<(Start<'tcx>, Dfa)>>,
    born: f64,
}

/// A program state to start from.
#[derive(Clone)]
pub struct Start<'tcx> {
    pub key: Key,
    pub frames: Vec<Vec<&'tcx BodyInfo<'tcx>>>,
}

/// Visits of a loop head by states that differ in constants only.
struct Skel {
    seen: BTreeSet<Vec<i64>>,
    mat: Vec<bool>,
    /// per constant: its first value, whether it varied, and the (p, m, k) such that it was
    /// pos(p) - pos(m) - k on every visit so far
    /// (the other constants being the same)
    rel: HashMap<(usize, Vec<i64>), (i64, bool, Vec<(Mk, Mk, i64)>)>,
    /// constants found to follow a position
    follows: Vec<bool>,
}

pub fn env<'tcx>() -> TypingEnv<'tcx> {
    TypingEnv::fully_monomorphized()
}

impl<'tcx> Global<'tcx> {
    pub fn name_of(&self, d: DefId) -> Rc<str> {
        if let Some(n) = self.names.borrow().get(&d) {
            return n.clone();
        }
        let s = rustc_middle::ty::print::with_no_trimmed_paths!(
            rustc_middle::ty::print::with_no_visible_paths!(rustc_middle::ty::print::with_crate_prefix!(
                self.tcx.def_path_str(d)
            ))
        );
        let s: Rc<str> = if d.is_local() {
            s.replace("crate::", &format!("{}::", self.tcx.crate_name(d.krate))).into()
        } else {
            s.into()
        };
        self.names.borrow_mut().insert(d, s.clone());
        s
    }
    pub fn lang(&self, name: &str) -> Option<Rc<Lang>> {
        if let Some(l) = self.langs.borrow().get(name) {
            return Some(l.clone());
        }
        let r = spec::re(name)?;
        let l = Rc::new(spec::lang(name, &r));
        self.langs.borrow_mut().insert(name.to_string(), l.clone());
        Some(l)
    }
    pub fn lang_exact(&self, b: &[u8], fold: bool) -> Rc<Lang> {
        let name = format!("{}{}", if fold { "fold:" } else { "text:" }, b.escape_ascii());
        if let Some(l) = self.langs.borrow().get(&name) {
            return l.clone();
        }
        let r = if fold {
            spec::cat(b.iter().map(|&c| spec::set(move |x| x.eq_ignore_ascii_case(&c))).collect())
        } else {
            spec::exact(b)
        };
        let l = Rc::new(spec::lang(&name, &r));
        self.langs.borrow_mut().insert(name, l.clone());
        l
    }
    pub fn is_subject(&self, d: DefId) -> bool {
        self.tcx.crate_name(d.krate).as_str() == "langtag"
    }
    pub fn body(&self, inst: Instance<'tcx>) -> R<&'tcx BodyInfo<'tcx>> {
        if let Some(b) = self.bodies.borrow().get(&inst) {
            return Ok(b);
        }
        let tcx = self.tcx;
        let did = inst.def_id();
        if let ty::InstanceKind::Item(d) = inst.def {
            let ok = match tcx.def_kind(d) {
                rustc_hir::def::DefKind::Ctor(..) => true,
                _ => tcx.is_mir_available(d),
            };
            if !ok {
                return unsup(format!("no MIR for `{}`", self.name_of(d)));
            }
        }
        let raw = tcx.instance_mir(inst.def).clone();
        let body: Body<'tcx> = inst.instantiate_mir_and_normalize_erasing_regions(
            tcx,
            env(),
            ty::EarlyBinder::bind(tcx, raw),
        );
        let n = body.basic_blocks.len();
        let succ: Vec<Vec<usize>> = body
            .basic_blocks
            .iter()
            .map(|b| {
                let t = b.terminator();
                match &t.kind {
                    TerminatorKind::Call { target, .. } => target.iter().map(|t| t.index()).collect(),
                    TerminatorKind::Drop { target, .. } => vec![target.index()],
                    TerminatorKind::Assert { target, .. } => vec![target.index()],
                    TerminatorKind::FalseEdge { real_target, .. }
                    | TerminatorKind::FalseUnwind { real_target, .. } => vec![real_target.index()],
                    TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => vec![],
                    _ => t.successors().map(|s| s.index()).collect(),
                }
            })
            .collect();
        let (order, head, end) = wto(n, &succ);
        let mut preds = vec![0; n];
        for v in &succ {
            for &s in v {
                preds[s] += 1;
            }
        }
        let join: Vec<bool> = (0..n).map(|i| preds[i] > 1 || head[i]).collect();
        let nl = body.local_decls.len();
        let mut live = vec![vec![false; nl]; n];
        {
            let mut cur = rustc_mir_dataflow::impls::MaybeLiveLocals
                .iterate_to_fixpoint(tcx, &body, None)
                .into_results_cursor(&body);
            for bb in body.basic_blocks.indices() {
                cur.seek_to_block_start(bb);
                for l in cur.get().iter() {
                    live[bb.index()][l.index()] = true;
                }
            }
        }
        let mut borrowed = vec![false; nl];
        for b in body.basic_blocks.iter() {
            for s in &b.statements {
                if let StatementKind::Assign(a) = &s.kind
                    && let Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) | Rvalue::Reborrow(_, _, p) = &a.1
                    && !p.is_indirect()
                {
                    borrowed[p.local.index()] = true;
                }
            }
        }
        // per loop head, the locals the loop may change
        let mut by_ref = vec![false; nl];
        for b in body.basic_blocks.iter() {
            for s in &b.statements {
                if let StatementKind::Assign(a) = &s.kind {
                    let p = match &a.1 {
                        Rvalue::Ref(_, k, p) if matches!(k, BorrowKind::Mut { .. }) => p,
                        Rvalue::RawPtr(_, p) | Rvalue::Reborrow(_, _, p) => p,
                        _ => continue,
                    };
                    if !p.is_indirect() {
                        by_ref[p.local.index()] = true;
                    }
                }
            }
        }
        let varying: Vec<Option<Vec<bool>>> = (0..n)
            .map(|h| {
                if !head[h] {
                    return None;
                }
                let mut v = by_ref.clone();
                for (i, b) in body.basic_blocks.iter().enumerate() {
                    if order[i] == u32::MAX || order[i] < order[h] || order[i] >= end[h] {
                        continue;
                    }
                    for s in &b.statements {
                        match &s.kind {
                            StatementKind::Assign(a) => v[a.0.local.index()] |= !a.0.is_indirect(),
                            StatementKind::SetDiscriminant { place, .. } => v[place.local.index()] |= !place.is_indirect(),
                            StatementKind::StorageLive(l) | StatementKind::StorageDead(l) => v[l.index()] = true,
                            _ => {}
                        }
                    }
                    if let TerminatorKind::Call { destination, .. } = &b.terminator().kind {
                        v[destination.local.index()] |= !destination.is_indirect();
                    }
                }
                Some(v)
            })
            .collect();
        let branching = body
            .basic_blocks
            .iter()
            .any(|b| matches!(b.terminator().kind, TerminatorKind::SwitchInt { .. }));
        let id = self.bodies.borrow().len() as u32;
        let name = self.name_of(did).to_string();
        let info: &'tcx BodyInfo<'tcx> = Box::leak(Box::new(BodyInfo {
            id,
            inst,
            body,
            name: name.clone(),
            order,
            head,
            join,
            live,
            borrowed,
            varying,
            branching,
            local_crate: self.is_subject(did),
        }));
        self.bodies.borrow_mut().insert(inst, info);
        self.analysed.borrow_mut().insert(name);
        Ok(info)
    }
    pub fn intern_fn(&self, i: Instance<'tcx>) -> u32 {
        let mut f = self.fns.borrow_mut();
        if let Some(k) = f.iter().position(|x| *x == i) {
            return k as u32;
        }
        f.push(i);
        f.len() as u32 - 1
    }
    pub fn intern_ty(&self, t: Ty<'tcx>) -> u32 {
        let mut f = self.tys.borrow_mut();
        if let Some(k) = f.iter().position(|x| *x == t) {
            return k as u32;
        }
        f.push(t);
        f.len() as u32 - 1
    }
    /// Name of a validated borrowed text type (unsized newtype over `str` in the subject crate).
    pub fn newtype(&self, t: Ty<'tcx>) -> Option<String> {
        let ty::Adt(def, _) = t.kind() else { return None };
        if !self.is_subject(def.did()) || !def.is_struct() {
            return None;
        }
        let v = def.non_enum_variant();
        if v.fields.len() != 1 {
            return None;
        }
        let ft = self.tcx.type_of(v.fields[rustc_abi::FieldIdx::from_u32(0)].did).instantiate_identity().skip_norm_wip();
        ft.is_str().then(|| self.tcx.item_name(def.did()).to_string())
    }
    /// Name of the borrowed form of a validated owned text type.
    pub fn owned_newtype(&self, t: Ty<'tcx>) -> Option<String> {
        let ty::Adt(def, _) = t.kind() else { return None };
        if !self.is_subject(def.did()) || !def.is_struct() {
            return None;
        }
        let n = self.tcx.item_name(def.did()).to_string();
        let b = n.strip_suffix("Buf")?;
        let v = def.non_enum_variant();
        if v.fields.len() != 1 {
            return None;
        }
        Some(b.to_string())
    }
    pub fn is_singleton(&self, t: Ty<'tcx>) -> bool {
        let ty::Adt(def, _) = t.kind() else { return false };
        self.is_subject(def.did()) && self.tcx.item_name(def.did()).as_str() == "Singleton"
    }
    pub fn ity(&self, t: Ty<'tcx>) -> Option<Ity> {
        Some(match t.kind() {
            ty::Bool => Ity::Bool,
            ty::Char => Ity::Char,
            ty::Int(i) => match i.bit_width() {
                None => Ity::Isize,
                Some(b) => Ity::I(b as u16),
            },
            ty::Uint(i) => match i.bit_width() {
                None => Ity::Usize,
                Some(b) => Ity::U(b as u16),
            },
            _ => return None,
        })
    }
    pub fn is_text_ptr(&self, t: Ty<'tcx>) -> bool {
        let p = match t.kind() {
            ty::Ref(_, p, _) => *p,
            ty::RawPtr(p, _) => *p,
            _ => return false,
        };
        self.is_text(p)
    }
    pub fn is_text(&self, p: Ty<'tcx>) -> bool {
        match p.kind() {
            ty::Str => true,
            ty::Slice(_) => true,
            _ => self.newtype(p).is_some(),
        }
    }
}

/// Bourdoncle weak topological order, flattened: position of each block, and component heads.
fn wto(n: usize, succ: &[Vec<usize>]) -> (Vec<u32>, Vec<bool>, Vec<u32>) {
    enum El {
        V(usize),
        C(usize, Vec<El>),
    }
    struct S<'a> {
        dfn: Vec<usize>,
        num: usize,
        stack: Vec<usize>,
        succ: &'a [Vec<usize>],
    }
    fn component(s: &mut S, v: usize) -> El {
        let mut part = vec![];
        for &w in &s.succ[v].to_vec() {
            if s.dfn[w] == 0 {
                visit(s, w, &mut part);
            }
        }
        part.reverse();
        El::C(v, part)
    }
    fn visit(s: &mut S, v: usize, part: &mut Vec<El>) -> usize {
        s.stack.push(v);
        s.num += 1;
        s.dfn[v] = s.num;
        let mut head = s.num;
        let mut lp = false;
        for &w in &s.succ[v].to_vec() {
            let m = if s.dfn[w] == 0 { visit(s, w, part) } else { s.dfn[w] };
            if m <= head {
                head = m;
                lp = true;
            }
        }
        if head == s.dfn[v] {
            s.dfn[v] = usize::MAX;
            let mut e = s.stack.pop().unwrap();
            if lp {
                while e != v {
                    s.dfn[e] = 0;
                    e = s.stack.pop().unwrap();
                }
                let c = component(s, v);
                part.push(c);
            } else {
                part.push(El::V(v));
            }
        }
        head
    }
    let mut s = S { dfn: vec![0; n], num: 0, stack: vec![], succ };
    let mut part = vec![];
    visit(&mut s, 0, &mut part);
    part.reverse();
    let mut order = vec![u32::MAX; n];
    let mut head = vec![false; n];
    let mut end = vec![0; n];
    fn flat(p: &[El], order: &mut Vec<u32>, head: &mut Vec<bool>, end: &mut Vec<u32>, k: &mut u32) {
        for e in p {
            match e {
                El::V(v) => {
                    order[*v] = *k;
                    *k += 1;
                }
                El::C(v, q) => {
                    order[*v] = *k;
                    *k += 1;
                    head[*v] = true;
                    flat(q, order, head, end, k);
                    end[*v] = *k;
                }
            }
        }
    }
    let mut k = 0;
    flat(&part, &mut order, &mut head, &mut end, &mut k);
    (order, head, end)
}

/// Where a MIR place leads.
pub enum Loc {
    Mem(Pl),
    Val(Val),
    /// the unsized target of a text pointer
    Text(Val),
}

impl<'tcx> State<'tcx> {
    pub fn frame(&self) -> &Frame<'tcx> {
        self.ths[self.cur].last().unwrap()
    }
    pub fn frame_mut(&mut self) -> &mut Frame<'tcx> {
        Rc::make_mut(self.ths[self.cur].last_mut().unwrap())
    }
    pub fn read_mem(&self, p: &Pl) -> Val {
        let mut v = &self.ths[p.th as usize][p.fr as usize].locals[p.local as usize];
        for &f in &p.path {
            match v {
                Val::Adt(_, fs) => match fs.get(f as usize) {
                    Some(x) => v = x,
                    None => return Val::Undef,
                },
                Val::Opaque => return Val::Opaque,
                // single-field wrappers of text are transparent
                Val::Sl(_) => {}
                _ => return Val::Undef,
            }
        }
        v.clone()
    }
    pub fn write_mem(&mut self, p: &Pl, x: Val) {
        let fr = Rc::make_mut(&mut self.ths[p.th as usize][p.fr as usize]);
        let mut v = &mut fr.locals[p.local as usize];
        for &f in &p.path {
            if matches!(v, Val::Undef) {
                *v = Val::adt(0, vec![]);
            }
            match v {
                Val::Adt(_, fs) => {
                    let fs = Rc::make_mut(fs);
                    while fs.len() <= f as usize {
                        fs.push(Val::Undef);
                    }
                    v = &mut fs[f as usize];
                }
                _ => return,
            }
        }
        *v = x;
    }
    pub fn reset_choices(&mut self) {
        self.choices.clear();
        self.chpos = 0;
    }
    /// Nondeterministic choice among `n`.
    pub fn choose(&mut self, n: usize) -> R<usize> {
        if self.chpos < self.choices.len() {
            self.chpos += 1;
            return Ok(self.choices[self.chpos - 1]);
        }
        if n == 1 {
            return Ok(0);
        }
        Err(Stop::Fork((0..n).map(|i| ((*self.a).clone(), Some(i))).collect()))
    }
    /// Deterministic case split.
    pub fn decide(&mut self, parts: Vec<Dfa>) -> R<usize> {
        let ne: Vec<usize> = (0..parts.len()).filter(|&i| !parts[i].is_empty()).collect();
        match ne.len() {
            0 => Err(Stop::Dead),
            1 => Ok(ne[0]),
            _ => Err(Stop::Fork(parts.into_iter().filter(|p| !p.is_empty()).map(|p| (p, None)).collect())),
        }
    }
    pub fn free_mark(&self) -> Mk {
        let mut used = self.a.used_marks() | ((1 << self.fixed) - 1);
        let mut see = |m: &mut Mk| {
            if *m < 64 {
                used |= 1 << *m;
            }
        };
        for t in &self.ths {
            for f in t {
                for v in &f.locals {
                    if v.has_marks() {
                        v.clone().marks(&mut see);
                    }
                }
            }
        }
        let m = (!used).trailing_zeros();
        assert!(m < 60, "too many markers");
        m as Mk
    }
    /// Makes sure the position is a marker with a non-negative offset.
    pub fn norm(&mut self, p: Pe) -> P {
        if p.k >= 0 {
            return P { m: p.m, k: p.k as u32 };
        }
        P { m: self.mat(p), k: 0 }
    }
    /// Materialises a position as a marker.
    pub fn mat(&mut self, p: Pe) -> Mk {
        if p.k == 0 && p.m != ORIGIN {
            return p.m;
        }
        if p.m == ORIGIN && p.k < 0 {
            return ORIGIN;
        }
        let x = self.free_mark();
        let d = transform(&self.a, &AddObs { x, m: p.m, k: p.k }, 1).pop().unwrap();
        self.a = Rc::new(d);
        x
    }
    pub fn cmp_pos(&mut self, a: Pe, b: Pe) -> Vec<Dfa> {
        if a.m == b.m {
            let mut v = vec![Dfa::empty(), Dfa::empty(), Dfa::empty()];
            v[match a.k.cmp(&b.k) {
                std::cmp::Ordering::Less => 0,
                std::cmp::Ordering::Equal => 1,
                std::cmp::Ordering::Greater => 2,
            }] = (*self.a).clone();
            return v;
        }
        let s = (-a.k.min(b.k)).max(0);
        transform(
            &self.a,
            &CmpObs(P { m: a.m, k: (a.k + s) as u32 }, P { m: b.m, k: (b.k + s) as u32 }),
            3,
        )
    }
    /// Compares two positions, forking as needed: 0 <, 1 =, 2 >.
    pub fn order(&mut self, a: Pe, b: Pe) -> R<usize> {
        let v = self.cmp_pos(a, b);
        self.decide(v)
    }
    pub fn const_pos(&self, p: Pe) -> Option<i64> {
        if p.m == ORIGIN {
            return Some(p.k);
        }
        const_distance(&self.a, ORIGIN, p.m, 80).map(|d| d + p.k)
    }
    /// The position as a number below `n`, forking over the possibilities; Err(None) if not below.
    pub fn concretize(&mut self, p: Pe, n: i64) -> R<Option<i64>> {
        if let Some(c) = self.const_pos(p) {
            return Ok(if c >= 0 && c < n { Some(c) } else { None });
        }
        if n > 4096 {
            return unsup("cannot concretise");
        }
        let mut parts = vec![];
        let mut rest = (*self.a).clone();
        for c in 0..n {
            let mut t = self.clone();
            t.a = Rc::new(rest.clone());
            let v = t.cmp_pos(p, Pe::c(c));
            if !v[1].is_empty() {
                parts.push(v[1].clone());
            }
            rest = v[0].union(&v[2]);
            if rest.is_empty() {
                break;
            }
        }
        if parts.is_empty() {
            return Ok(None);
        }
        if !rest.is_empty() {
            parts.push(rest);
        } else if parts.len() == 1 {
            return unsup("concretise: undetected constant");
        }
        self.decide(parts)?;
        // decided by retry only
        unsup("concretise")
    }
    pub fn key(&self) -> Key {
        Key {
            ths: self
                .ths
                .iter()
                .map(|t| t.iter().map(|f| (f.b.id, f.bb, f.locals.clone())).collect())
                .collect(),
            cur: self.cur,
            obs: self.obs.clone(),
            log: self.log.clone(),
        }
    }
    /// The values the loop at the current head cannot change, and their markers in order.
    fn invariants(&self, fixed: u32) -> (Vec<Val>, Vec<Mk>) {
        let th = &self.ths[0];
        let n = th.len();
        let top = &th[n - 1];
        let mut out: Vec<Val> = vec![];
        let mut shared: Vec<(u16, u32)> = vec![];
        for (l, v) in top.locals.iter().enumerate() {
            if let Val::Ref(p) = v
                && top.b.body.local_decls[Local::from_usize(l)].ty.ref_mutability() != Some(Mutability::Not)
            {
                shared.push((p.fr, p.local));
            }
        }
        let var = top.b.varying[top.bb as usize].as_ref();
        for (fi, f) in th.iter().enumerate() {
            for (l, v) in f.locals.iter().enumerate() {
                if *v == Val::Undef || shared.contains(&(fi as u16, l as u32)) {
                    continue;
                }
                if fi + 1 == n && var.is_none_or(|w| w[l]) {
                    continue;
                }
                out.push(v.clone());
            }
        }
        let mut marks: Vec<Mk> = vec![];
        for v in out.iter_mut() {
            if v.has_marks() {
                v.marks(&mut |m| {
                    if *m == ORIGIN || (*m as u32) < fixed {
                        return;
                    }
                    let i = match marks.iter().position(|x| x == m) {
                        Some(i) => i,
                        None => {
                            marks.push(*m);
                            marks.len() - 1
                        }
                    };
                    *m = (fixed as usize + i) as Mk;
                });
            }
        }
        (out, marks)
    }
    /// Per frame, the start of the text its locals refer to.
    fn slot_bases(&self) -> Vec<Pe> {
        let mut out = vec![];
        for t in &self.ths {
            for f in t.iter() {
                let b = f.locals.iter().find_map(|v| match v {
                    Val::Ref(p) => start_of(&self.read_mem(p)),
                    v => start_of(v),
                });
                out.push(b.unwrap_or(Pe::c(0)));
            }
        }
        out
    }
    /// The values of each frame in turn, then everything else.
    fn each_frame(&mut self, f: &mut dyn FnMut(Vec<&mut Val>)) {
        for t in self.ths.iter_mut() {
            for fr in t.iter_mut() {
                f(Rc::make_mut(fr).locals.iter_mut().collect());
            }
        }
        f(self.obs.iter_mut().flatten().map(|o| &mut o.1).chain(self.log.iter_mut()).collect());
    }
    pub fn each_val(&mut self, f: &mut dyn FnMut(&mut Val)) {
        for t in self.ths.iter_mut() {
            for fr in t.iter_mut() {
                let fr = Rc::make_mut(fr);
                for v in fr.locals.iter_mut() {
                    f(v);
                }
            }
        }
        for o in self.obs.iter_mut().flatten() {
            f(&mut o.1);
        }
        for v in self.log.iter_mut() {
            f(v);
        }
    }
}

enum Slot<'a> {
    Int(&'a mut Int),
    Pe(&'a mut Pe),
}

/// The start of the (first) text a value refers to.
fn start_of(v: &Val) -> Option<Pe> {
    match v {
        Val::Sl(Sl { src: Src::Track(_) | Src::Map(..), lo, .. }) => Some(*lo),
        Val::Adt(_, fs) => fs.iter().find_map(start_of),
        Val::RefV(v) | Val::Dyn(v, _) => start_of(v),
        _ => None,
    }
}

/// Where an iterator that counts its steps started: the count and the text left, side by side.
fn moving(fs: &[Val]) -> Option<Pe> {
    let (c, lo) = match fs {
        [Val::Int(Int::C(c), t), i @ Val::Adt(..)] if t.is_pos() => (*c as i64, start_of(i)?),
        [i, Val::Int(Int::C(c), t)] if t.is_pos() => (*c as i64, start_of(i).filter(|p| p.k >= *c as i64)?),
        _ => return None,
    };
    (c > 0).then(|| lo.add(-c))
}

/// Constant positions that may have to be generalised at a loop head.
fn slots(v: &mut Val, own: Option<Pe>, f: &mut dyn FnMut(Option<Pe>, Slot)) {
    match v {
        Val::Int(i @ Int::C(_), t) if t.is_pos() => f(own, Slot::Int(i)),
        Val::Int(Int::L { t, .. }, _) => {
            if t.iter().any(|t| t.p.m == ORIGIN) {
                for t in Rc::make_mut(t) {
                    if t.p.m == ORIGIN {
                        f(own, Slot::Pe(&mut t.p));
                    }
                }
            }
        }
        Val::RefV(r) if matches!(**r, Val::Int(Int::L { .. }, _)) => slots(Rc::make_mut(r), own, f),
        Val::Sl(s) => {
            if s.src.track().is_some() {
                if s.lo.m == ORIGIN {
                    f(own, Slot::Pe(&mut s.lo));
                }
                if s.hi.m == ORIGIN {
                    f(own, Slot::Pe(&mut s.hi));
                }
            }
        }
        Val::Adt(_, fs) => {
            let cst = |v: Option<&Val>| matches!(v, Some(Val::Int(Int::C(_), t)) if t.is_pos());
            let range = cst(fs.first()) && cst(fs.get(1));
            let need = fs.iter().any(|v| matches!(v, Val::Int(Int::C(_) | Int::L { .. }, _) | Val::Sl(_) | Val::Adt(..) | Val::RefV(_)));
            if need {
                let own = match moving(fs) {
                    Some(b) => Some(b),
                    None => fs.iter().find_map(start_of).or(own),
                };
                for (i, v) in Rc::make_mut(fs).iter_mut().enumerate() {
                    if !(range && i < 2) {
                        slots(v, own, f);
                    }
                }
            }
        }
        _ => {}
    }
}

/// Positions with an offset, to be materialised at a loop head.
fn offsets(v: &mut Val, f: &mut dyn FnMut(&mut Pe)) {
    match v {
        Val::Int(Int::D { p, m, k }, _) => {
            if *k != 0 && *p != ORIGIN {
                let mut e = Pe { m: *p, k: *k };
                f(&mut e);
                *p = e.m;
                *k = e.k;
            } else if *k != 0 && *p == ORIGIN && *m != ORIGIN {
                // k - pos(m): leave
            }
        }
        Val::Sl(s) => {
            if s.lo.m != ORIGIN && s.lo.k != 0 {
                f(&mut s.lo);
            }
            if s.hi.m != ORIGIN && s.hi.k != 0 {
                f(&mut s.hi);
            }
        }
        Val::Int(Int::L { t, .. }, _) => {
            if t.iter().any(|t| t.p.m != ORIGIN && t.p.k != 0) {
                for t in Rc::make_mut(t) {
                    if t.p.m != ORIGIN && t.p.k != 0 {
                        f(&mut t.p);
                    }
                }
            }
        }
        Val::Adt(_, fs) => {
            if fs.iter().any(|v| v.has_marks()) {
                for v in Rc::make_mut(fs) {
                    offsets(v, f);
                }
            }
        }
        Val::RefV(r) => {
            if r.has_marks() {
                offsets(Rc::make_mut(r), f);
            }
        }
        _ => {}
    }
}

pub enum Flow {
    Cont,
    /// moved to the start of a block; true if states should be merged there
    Goto(bool),
    End,
}

/// A string literal of the entry points that stands for an arbitrary one.
pub const ANY_LITERAL: &str = "\u{1}any literal\u{1}";

impl<'g, 'tcx> Interp<'g, 'tcx> {
    pub fn new(g: &'g Global<'tcx>, tracks: Vec<TrackCfg>) -> Self {
        Interp {
            g,
            tcx: g.tcx,
            opts: Opts::default(),
            fixed: tracks.len() as u32,
            tracks,
            ghosts: vec![],
            a0: Rc::new(Dfa::empty()),
            trackers: vec![],
            entries: Default::default(),
            ent: vec![],
            queue: Default::default(),
            entry_tr: Default::default(),
            inv_tr: Default::default(),
            skels: Default::default(),
            events: vec![],
            checks: Default::default(),
            returns: vec![],
            steps: 0,
            joins: 0,
            obligations: 0,
            imprecise: Default::default(),
            comp: Default::default(),
            comp_keep: vec![],
            src: None,
            edges: Default::default(),
            shadow: 0,
            reached: None,
            endless: None,
            lost: Dfa::empty(),
            stream: None,
            born: cpu_secs(),
        }
    }

    pub fn run(&mut self, inst: Instance<'tcx>, args: Vec<Val>) -> R<()> {
        let b = self.g.body(inst)?;
        let mut locals = vec![Val::Undef; b.body.local_decls.len()];
        for (i, a) in args.into_iter().enumerate() {
            locals[i + 1] = a;
        }
        let st = State {
            ths: vec![vec![Rc::new(Frame { b, bb: 0, si: 0, locals })]],
            cur: 0,
            obs: vec![],
            log: vec![],
            a: self.a0.clone(),
            choices: vec![],
            chpos: 0, fixed: self.fixed,
        };
        self.explore(vec![st])
    }
    /// Resumes from a loop head.
    pub fn run_from(&mut self, s: &Start<'tcx>) -> R<()> {
        let st = State {
            ths: s
                .key
                .ths
                .iter()
                .zip(&s.frames)
                .map(|(t, bs)| {
                    let n = t.len();
                    t.iter()
                        .zip(bs)
                        .enumerate()
                        .map(|(i, (f, b))| {
                            Rc::new(Frame {
                                b,
                                bb: f.1,
                                si: if i + 1 == n { 0 } else { u32::MAX },
                                locals: f.2.clone(),
                            })
                        })
                        .collect()
                })
                .collect(),
            cur: s.key.cur,
            obs: s.key.obs.clone(),
            log: s.key.log.clone(),
            a: self.a0.clone(),
            choices: vec![],
            chpos: 0, fixed: self.fixed,
        };
        self.explore(vec![st])
    }
    pub fn explore(&mut self, mut work: Vec<State<'tcx>>) -> R<()> {
        loop {
            while let Some(st) = work.pop() {
                self.exec(st, &mut work)?;
            }
            let Some((_, id)) = self.queue.pop_first() else { break };
            work.push(self.resume(id));
        }
        Ok(())
    }
    /// The state of an entry.
    pub fn resume(&mut self, id: usize) -> State<'tcx> {
        self.src = Some(id);
        let e = &self.ent[id];
        let mut st = State {
            ths: e
                .key
                .ths
                .iter()
                .zip(&e.frames)
                .map(|(t, bs)| {
                    t.iter()
                        .zip(bs)
                        .map(|(f, b)| {
                            Rc::new(Frame { b, bb: f.1, si: u32::MAX, locals: f.2.clone() })
                        })
                        .collect()
                })
                .collect(),
            cur: e.key.cur,
            obs: e.key.obs.clone(),
            log: e.key.log.clone(),
            a: e.a.clone(),
            choices: vec![],
            chpos: 0, fixed: self.fixed,
        };
        // only the running frames restart at the beginning of their block
        for (i, t) in st.ths.iter_mut().enumerate() {
            let _ = i;
            if let Some(f) = t.last_mut() {
                Rc::make_mut(f).si = 0;
            }
        }
        st
    }

    fn exec(&mut self, mut st: State<'tcx>, work: &mut Vec<State<'tcx>>) -> R<()> {
        loop {
            self.steps += 1;
            if self.steps > self.opts.step_limit {
                return unsup(format!("analysis budget exhausted in {}", self.where_(&st)));
            }
            if self.steps % 64 == 0 && cpu_secs() - self.born > self.opts.cpu {
                return unsup(format!("analysis time exhausted in {}", self.where_(&st)));
            }
            if st.a.is_empty() {
                return Ok(());
            }
            let fr = st.frame();
            let blk = &fr.b.body.basic_blocks[BasicBlock::from_u32(fr.bb)];
            let term = fr.si as usize >= blk.statements.len();
            let snap = if term { Some(st.clone()) } else { None };
            let r = if term { self.terminator(&mut st, work) } else { self.statement(&mut st) };
            match r {
                Ok(Flow::Cont) => {}
                Ok(Flow::Goto(join)) => {
                    let fr = st.frame();
                    if join || fr.b.join[fr.bb as usize] {
                        self.arrive(st)?;
                        return Ok(());
                    }
                }
                Ok(Flow::End) => return Ok(()),
                Err(Stop::Dead) => return Ok(()),
                Err(Stop::Fork(v)) => {
                    let base = snap.unwrap_or(st);
                    for (a, c) in v {
                        let mut s = base.clone();
                        s.a = Rc::new(a);
                        s.chpos = 0;
                        if let Some(c) = c {
                            s.choices.push(c);
                        }
                        work.push(s);
                    }
                    return Ok(());
                }
                Err(Stop::Unsupported(m)) => {
                    let s = snap.unwrap_or(st);
                    if self.g.verbose && std::env::var("LT_MIR").is_ok() {
                        let f = s.frame();
                        eprintln!("at bb{} stmt {}", f.bb, f.si);
                        for (i, b) in f.b.body.basic_blocks.iter().enumerate() {
                            eprintln!("bb{i}:");
                            for s in &b.statements {
                                eprintln!("    {s:?}");
                            }
                            eprintln!("    {:?}", b.terminator().kind);
                        }
                        for (i, l) in f.locals.iter().enumerate() {
                            eprintln!("  _{i}: {} = {l:?}", f.b.body.local_decls[Local::from_usize(i)].ty);
                        }
                    }
                    return unsup(format!("{m} at {}", self.where_(&s)));
                }
            }
        }
    }

    pub fn span_of(&self, st: &State<'tcx>) -> Span {
        let f = st.frame();
        let blk = &f.b.body.basic_blocks[BasicBlock::from_u32(f.bb)];
        let si = f.si as usize;
        if si < blk.statements.len() {
            blk.statements[si].source_info.span
        } else {
            blk.terminator().source_info.span
        }
    }
    pub fn span_str(&self, s: Span) -> String {
        let s = self.tcx.sess.source_map().span_to_diagnostic_string(s);
        s
    }
    pub fn where_(&self, st: &State<'tcx>) -> String {
        format!("{} ({}) [{}]", st.frame().b.name, self.span_str(self.span_of(st)), self.stack_names(st).join(" < "))
    }
    fn stack_names(&self, st: &State<'tcx>) -> Vec<String> {
        st.ths[st.cur].iter().rev().map(|f| f.b.name.clone()).collect()
    }

    /// Reports the words of `bad` as offending.
    pub fn event(&mut self, st: &State<'tcx>, kind: &str, detail: &str, bad: &Dfa) {
        if self.reached.is_some() {
            return;
        }
        let mut bad = bad.clone();
        if self.opts.rank && !matches!(kind, "invalid") {
            self.lost = self.lost.union(&bad.project(!0));
        }
        for t in 0..self.tracks.len() {
            if let Some(l) = self.tracks[t].valid.clone() {
                let v = self.in_lang_parts(&bad, t, Pe::c(0), Pe { m: t as Mk, k: 0 }, &l);
                bad = v[0].clone();
            }
        }
        if bad.is_empty() {
            return;
        }
        let mut classes = vec![];
        if self.tracks.iter().any(|t| !t.ascii) {
            let l = self.g.lang("Overlong").unwrap();
            let mut rest = bad;
            let mut over = Dfa::empty();
            for t in 0..self.tracks.len() {
                if !self.tracks[t].ascii {
                    let v = self.in_lang_parts(&rest, t, Pe::c(0), Pe { m: t as Mk, k: 0 }, &l);
                    over = over.union(&v[0]);
                    rest = v[1].clone();
                }
            }
            classes.push((rest, ""));
            classes.push((over, "overlong"));
        } else {
            classes.push((bad, ""));
        }
        // nearest frame of the subject crate
        let fr = st.ths[st.cur]
            .iter()
            .rev()
            .find(|f| f.b.local_crate)
            .unwrap_or_else(|| st.ths[st.cur].last().unwrap());
        let func = fr.b.name.clone();
        let span = {
            let blk = &fr.b.body.basic_blocks[BasicBlock::from_u32(fr.bb)];
            let sp = blk
                .statements
                .get(fr.si as usize)
                .map(|s| s.source_info.span)
                .unwrap_or(blk.terminator().source_info.span);
            self.span_str(sp)
        };
        for (b, class) in classes {
            let Some(w) = b.witness() else { continue };
            if let Some(e) = self.events.iter_mut().find(|e| {
                e.kind == kind && e.detail == detail && e.func == func && e.class == class
            }) {
                let word = word_of(&w);
                let w = show_witness(&w);
                if w.iter().map(|s| s.len()).sum::<usize>() < e.witness.iter().map(|s| s.len()).sum() {
                    e.witness = w;
                    e.word = word;
                }
                continue;
            }
            self.events.push(Event {
                kind: kind.into(),
                detail: detail.into(),
                func: func.clone(),
                span: span.clone(),
                stack: self.stack_names(st),
                witness: show_witness(&w),
                class: class.into(),
                word: word_of(&w),
            });
        }
    }

    // -- queries ------------------------------------------------------------------------------

    pub fn compiled(&mut self, l: &Rc<Lang>, track: usize) -> Rc<Vec<Vec<(Ls, u16)>>> {
        let k = (Rc::as_ptr(l) as usize, track);
        if let Some(c) = self.comp.get(&k) {
            return c.clone();
        }
        let c = Rc::new(l.compile(track));
        self.comp_keep.push(l.clone());
        self.comp.insert(k, c.clone());
        c
    }
    /// [in language, not in language, malformed slice]
    pub fn in_lang_parts(&mut self, a: &Dfa, track: usize, lo: Pe, hi: Pe, l: &Rc<Lang>) -> Vec<Dfa> {
        assert!(lo.k >= 0 && hi.k >= 0);
        let comp = self.compiled(l, track);
        transform(
            a,
            &InLangObs {
                lo: P { m: lo.m, k: lo.k as u32 },
                hi: P { m: hi.m, k: hi.k as u32 },
                track,
                lang: l,
                comp: &comp,
            },
            3,
        )
    }
    /// Partition of the state by membership of a slice: [in, out, malformed].
    pub fn slice_in(&mut self, st: &mut State<'tcx>, s: &Sl, l: &Rc<Lang>) -> R<Vec<Dfa>> {
        match &s.src {
            Src::Track(t) | Src::Map(t, _) => {
                let lo = st.norm(s.lo);
                let hi = st.norm(s.hi);
                let a = st.a.clone();
                let mapped = match &s.src {
                    Src::Map(_, m) => Rc::new(Lang {
                        name: format!("{} (mapped)", l.name),
                        next: l.next.iter().map(|n| std::array::from_fn(|b| n[m[b] as usize])).collect(),
                        acc: l.acc.clone(),
                    }),
                    _ => l.clone(),
                };
                let l = &mapped;
                Ok(self.in_lang_parts(
                    &a,
                    *t as usize,
                    Pe { m: lo.m, k: lo.k as i64 },
                    Pe { m: hi.m, k: hi.k as i64 },
                    l,
                ))
            }
            Src::Bytes(b) => {
                let (lo, hi) = self.const_range(st, s, b.len())?;
                let mut q = 0u16;
                for &c in &b[lo..hi] {
                    q = l.next[q as usize][c as usize];
                }
                let a = (*st.a).clone();
                Ok(if l.acc[q as usize] {
                    vec![a, Dfa::empty(), Dfa::empty()]
                } else {
                    vec![Dfa::empty(), a, Dfa::empty()]
                })
            }
            Src::Vals(v) => {
                // a short sequence of individually known bytes
                let (lo, hi) = self.const_range(st, s, v.len())?;
                let mut parts: Vec<(u16, Dfa)> = vec![(0, (*st.a).clone())];
                for x in &v[lo..hi] {
                    let Val::Int(i, _) = x else { return unsup("text of non-bytes") };
                    let mut np: Vec<(u16, Dfa)> = vec![];
                    for (q, a) in parts {
                        match i {
                            Int::C(c) => np.push((l.next[q as usize][*c as usize & 255], a)),
                            Int::L { k, t } if t.len() == 1 => {
                                let t = &t[0];
                                let p = st.norm(t.p);
                                let mut by: HashMap<u16, Vec<u8>> = Default::default();
                                for b in 0..256usize {
                                    let v = (t.tab[b] + k) as usize & 255;
                                    by.entry(l.next[q as usize][v]).or_default().push(b as u8);
                                }
                                for (n, bs) in by {
                                    let ls = cyl_ls(t.track as usize, |o| o.is_some_and(|b| bs.contains(&b)));
                                    let d = transform(
                                        &a,
                                        &ReadObs {
                                            terms: vec![(p, t.track as usize)],
                                            classes: vec![vec![(ls, 0)]],
                                            decide: &|v| (v[0] != 0) as usize,
                                        },
                                        2,
                                    );
                                    if !d[0].is_empty() {
                                        np.push((n, d[0].clone()));
                                    }
                                }
                            }
                            _ => return unsup("text of unknown bytes"),
                        }
                    }
                    parts = np;
                }
                let (mut y, mut n) = (Dfa::empty(), Dfa::empty());
                for (q, a) in parts {
                    if l.acc[q as usize] {
                        y = y.union(&a);
                    } else {
                        n = n.union(&a);
                    }
                }
                Ok(vec![y, n, Dfa::empty()])
            }
        }
    }
    pub fn const_range(&mut self, st: &mut State<'tcx>, s: &Sl, n: usize) -> R<(usize, usize)> {
        let lo = st.concretize(s.lo, n as i64 + 1)?;
        let hi = st.concretize(s.hi, n as i64 + 1)?;
        match (lo, hi) {
            (Some(a), Some(b)) if a <= b => Ok((a as usize, b as usize)),
            _ => unsup("slice bounds outside constant"),
        }
    }
    /// Known constant contents of a slice.
    pub fn const_bytes(&mut self, st: &mut State<'tcx>, s: &Sl) -> R<Option<Vec<u8>>> {
        match &s.src {
            Src::Bytes(b) => {
                let b = b.clone();
                let (lo, hi) = self.const_range(st, s, b.len())?;
                Ok(Some(b[lo..hi].to_vec()))
            }
            Src::Vals(v) => {
                let v = v.clone();
                let (lo, hi) = self.const_range(st, s, v.len())?;
                let mut o = vec![];
                for x in &v[lo..hi] {
                    match x {
                        Val::Int(Int::C(c), _) => o.push(*c as u8),
                        _ => return Ok(None),
                    }
                }
                Ok(Some(o))
            }
            _ => Ok(None),
        }
    }

    /// Reads a sum of letters and classifies its value with a piecewise-constant function given by
    /// cut points: `cuts[i] = (start, outcome)`, sorted by start.
    pub fn classify(&mut self, st: &mut State<'tcx>, k: i128, terms: &[Term], cuts: &[(i128, usize)], n: usize) -> Vec<Dfa> {
        let over = |lo: i128, hi: i128| -> Option<usize> {
            let i = cuts.partition_point(|c| c.0 <= lo);
            let o = cuts[i - 1].1;
            let mut j = i;
            while j < cuts.len() && cuts[j].0 <= hi {
                if cuts[j].1 != o {
                    return None;
                }
                j += 1;
            }
            Some(o)
        };
        let ps: Vec<P> = terms.iter().map(|t| st.norm(t.p)).collect();
        let ranges: Vec<(i128, i128)> = terms
            .iter()
            .map(|t| {
                let bytes = track_bytes(t.track as usize);
                let v = || bytes.iter().map(|b| t.tab[*b as usize]);
                (v().min().unwrap_or(0), v().max().unwrap_or(0))
            })
            .collect();
        let rcuts = Rc::new(cuts.to_vec());
        let ids: Vec<u32> = terms.iter().map(|t| tab_id(&t.tab)).collect();
        const N: usize = 8;
        assert!(terms.len() <= N);
        struct SumObs<'a> {
            ps: Vec<P>,
            terms: &'a [Term],
            ids: Vec<u32>,
            ranges: Vec<(i128, i128)>,
            k: i128,
            cuts: Rc<Vec<(i128, usize)>>,
            over: &'a dyn Fn(i128, i128) -> Option<usize>,
            bad: usize,
        }
        const DONE: [u32; N] = [0; N];
        impl Obs for SumObs<'_> {
            /// delay states, pending mask, sum; or decided
            type S = ([u32; N], u32, i128, u32);
            fn init(&self) -> Self::S {
                let mut d = DONE;
                for (i, p) in self.ps.iter().enumerate() {
                    d[i] = if p.m == ORIGIN { p.k } else { u32::MAX };
                }
                (d, (1 << self.ps.len()) - 1, 0, u32::MAX)
            }
            fn step(&self, s: &Self::S, m: Marks, l: Ls, out: &mut Vec<(Marks, Ls, Self::S)>) {
                if s.3 != u32::MAX {
                    out.push((m, l, *s));
                    return;
                }
                let mut del = s.0;
                let mut now = 0u32;
                for i in 0..self.ps.len() {
                    let p = self.ps[i];
                    let mut d = del[i];
                    if d == u32::MAX && p.m != ORIGIN && m >> p.m & 1 == 1 {
                        d = p.k;
                    }
                    if d == 0 {
                        now |= 1 << i;
                    }
                    del[i] = match d {
                        u32::MAX => d,
                        0 => u32::MAX - 1,
                        x if x == u32::MAX - 1 => d,
                        x => x - 1,
                    };
                }
                if now == 0 {
                    out.push((m, l, (del, s.1, s.2, u32::MAX)));
                    return;
                }
                let mask = s.1 & !now;
                let mut rest = (self.k, self.k);
                let mut reads = vec![];
                let mut tabs = vec![];
                for i in 0..self.ps.len() {
                    if mask >> i & 1 == 1 {
                        rest.0 += self.ranges[i].0;
                        rest.1 += self.ranges[i].1;
                    }
                    if now >> i & 1 == 1 {
                        reads.push((self.terms[i].track as usize, self.ids[i]));
                        tabs.push(&*self.terms[i].tab);
                    }
                }
                let key = PartKey { now: reads, sum: s.2, rest, last: mask == 0, cuts: self.cuts.clone() };
                for (x, p) in letter_parts(&key, &tabs, self.over).iter() {
                    let x = ls_and(l, *x);
                    if x == 0 {
                        continue;
                    }
                    out.push((
                        m,
                        x,
                        match p {
                            Part::Bad => (DONE, 0, 0, self.bad as u32),
                            Part::Decided(o) => (DONE, 0, 0, *o),
                            Part::Sum(v) => (del, mask, *v, u32::MAX),
                        },
                    ));
                }
            }
            fn outcome(&self, s: &Self::S) -> Option<usize> {
                (s.3 != u32::MAX).then_some(s.3 as usize)
            }
        }
        let o = SumObs { ps, terms, ids, ranges, k, cuts: rcuts, over: &over, bad: n };
        let mut v = transform(&st.a, &o, n + 1);
        let bad = v.pop().unwrap();
        if !bad.is_empty() {
            self.event(&st.clone(), "out-of-bounds", "letter read past the end of its text", &bad);
        }
        v
    }

    /// Decides a comparison of two integers: 0 <, 1 =, 2 >.
    pub fn compare(&mut self, st: &mut State<'tcx>, a: &Int, b: &Int) -> R<usize> {
        let d = self.arith(st, BinOp::Sub, a, b)?;
        self.sign(st, &d)
    }
    /// Sign of an integer (0 negative, 1 zero, 2 positive).
    pub fn sign(&mut self, st: &mut State<'tcx>, d: &Int) -> R<usize> {
        match d {
            Int::C(c) => Ok(match c.cmp(&0) {
                std::cmp::Ordering::Less => 0,
                std::cmp::Ordering::Equal => 1,
                std::cmp::Ordering::Greater => 2,
            }),
            Int::D { p, m, k } => st.order(Pe { m: *p, k: *k }, Pe { m: *m, k: 0 }),
            Int::L { k, t } => {
                let v = self.classify(st, *k, t, &[(i128::MIN, 0), (0, 1), (1, 2)], 3);
                st.decide(v)
            }
            Int::Top => {
                self.note(st, "comparison of an unknown integer");
                st.choose(3)
            }
        }
    }
    pub fn note(&mut self, st: &State<'tcx>, m: &str) {
        if self.imprecise.len() < 50 {
            let w = self.where_(st);
            self.imprecise.insert(format!("{m} at {w}"));
        }
    }

    /// Exact integer arithmetic (no wrapping).
    pub fn arith(&mut self, st: &mut State<'tcx>, op: BinOp, a: &Int, b: &Int) -> R<Int> {
        use BinOp::*;
        let neg = matches!(op, Sub);
        if let (Int::C(x), Int::C(y)) = (a, b) {
            return Ok(match op {
                Add => Int::C(x + y),
                Sub => Int::C(x - y),
                Mul => x.checked_mul(*y).map(Int::C).unwrap_or(Int::Top),
                Div if *y != 0 => Int::C(x / y),
                Rem if *y != 0 => Int::C(x % y),
                BitAnd => Int::C(x & y),
                BitOr => Int::C(x | y),
                BitXor => Int::C(x ^ y),
                Shl if *y >= 0 && *y < 100 => Int::C(x << y),
                Shr if *y >= 0 && *y < 128 => Int::C(x >> y),
                _ => Int::Top,
            });
        }
        if matches!(a, Int::Top) || matches!(b, Int::Top) {
            return Ok(Int::Top);
        }
        // letters
        if let (Int::L { .. }, _) | (_, Int::L { .. }) = (a, b) {
            let lin = |i: &Int| -> Option<(i128, Vec<Term>)> {
                match i {
                    Int::C(c) => Some((*c, vec![])),
                    Int::L { k, t } => Some((*k, (**t).clone())),
                    _ => None,
                }
            };
            if let (Some((k1, mut t1)), Some((k2, t2))) = (lin(a), lin(b)) {
                match op {
                    Add | Sub => {
                        for t in t2 {
                            let t = if neg {
                                Term { tab: Rc::new(t.tab.iter().map(|v| -v).collect()), ..t }
                            } else {
                                t
                            };
                            if let Some(o) = t1.iter_mut().find(|o| o.p == t.p && o.track == t.track) {
                                o.tab = Rc::new(o.tab.iter().zip(t.tab.iter()).map(|(a, b)| a + b).collect());
                            } else {
                                t1.push(t);
                            }
                        }
                        return Ok(mk_l(if neg { k1 - k2 } else { k1 + k2 }, t1));
                    }
                    _ => {}
                }
                // same single letter: pointwise
                let f = |x: i128, y: i128| -> Option<i128> {
                    Some(match op {
                        Mul => x.checked_mul(y)?,
                        Div => x.checked_div(y)?,
                        Rem => x.checked_rem(y)?,
                        BitAnd => x & y,
                        BitOr => x | y,
                        BitXor => x ^ y,
                        Shl => {
                            if !(0..100).contains(&y) {
                                return None;
                            }
                            x << y
                        }
                        Shr => {
                            if !(0..128).contains(&y) {
                                return None;
                            }
                            x >> y
                        }
                        _ => return None,
                    })
                };
                let at = |t: &[Term], k: i128, b: usize| t.first().map_or(0, |t| t.tab[b]) + k;
                let same = t1.len() <= 1
                    && t2.len() <= 1
                    && (t1.is_empty() || t2.is_empty() || (t1[0].p == t2[0].p && t1[0].track == t2[0].track));
                if same {
                    let proto = t1.first().or(t2.first()).unwrap().clone();
                    let used = track_bytes(proto.track as usize);
                    let mut tab = vec![0; 256];
                    let mut ok = true;
                    for b in used {
                        match f(at(&t1, k1, b as usize), at(&t2, k2, b as usize)) {
                            Some(v) => tab[b as usize] = v,
                            None => ok = false,
                        }
                    }
                    if ok {
                        return Ok(mk_l(0, vec![Term { tab: Rc::new(tab), ..proto }]));
                    }
                }
                match op {
                    BitOr => {
                        // sum of bit-disjoint parts
                        let mask = |t: &[Term], k: i128| -> Option<i128> {
                            let mut m = k;
                            for x in t {
                                let w = track_bytes(x.track as usize).iter().fold(0, |a, b| a | x.tab[*b as usize]);
                                if m & w != 0 || w < 0 {
                                    return None;
                                }
                                m |= w;
                            }
                            Some(m)
                        };
                        if let (Some(m1), Some(m2)) = (mask(&t1, k1), mask(&t2, k2))
                            && m1 & m2 == 0
                        {
                            return self.arith(st, Add, a, b);
                        }
                    }
                    Shl | Mul => {
                        if t2.is_empty() {
                            let m = if op == Shl { 1i128 << k2.clamp(0, 100) } else { k2 };
                            let t = t1
                                .into_iter()
                                .map(|t| Term { tab: Rc::new(t.tab.iter().map(|v| v * m).collect()), ..t })
                                .collect();
                            return Ok(mk_l(k1 * m, t));
                        }
                    }
                    _ => {}
                }
            }
            // fall back on enumerating the letters
            let a2 = self.enumerate(st, a)?;
            let b2 = self.enumerate(st, b)?;
            return self.arith(st, op, &a2, &b2);
        }
        // positions
        if matches!(op, Add | Sub) {
            let lin = |i: &Int| -> (Mk, Mk, i64) {
                match i {
                    Int::C(c) => (ORIGIN, ORIGIN, *c as i64),
                    Int::D { p, m, k } => (*p, *m, *k),
                    _ => unreachable!(),
                }
            };
            let (p1, m1, k1) = lin(a);
            let (mut p2, mut m2, mut k2) = lin(b);
            if neg {
                std::mem::swap(&mut p2, &mut m2);
                k2 = -k2;
            }
            let mut k = k1 + k2;
            let mut ps: Vec<Mk> = [p1, p2].into_iter().filter(|m| *m != ORIGIN).collect();
            let mut ms: Vec<Mk> = [m1, m2].into_iter().filter(|m| *m != ORIGIN).collect();
            let mut i = 0;
            while i < ps.len() {
                if let Some(j) = ms.iter().position(|m| *m == ps[i]) {
                    ms.remove(j);
                    ps.remove(i);
                } else {
                    i += 1;
                }
            }
            if ps.len() > 1 || ms.len() > 1 {
                // cancel markers at a fixed distance, preferably at the same position
                let mut best: Option<(usize, usize, i64)> = None;
                for i in 0..ps.len() {
                    for j in 0..ms.len() {
                        if let Some(d) = const_distance(&st.a, ms[j], ps[i], 16)
                            && best.is_none_or(|b| b.2 != 0 && d == 0)
                        {
                            best = Some((i, j, d));
                        }
                    }
                }
                if let Some((i, j, d)) = best {
                    k += d;
                    ps.remove(i);
                    ms.remove(j);
                }
            }
            if ps.len() > 1 || ms.len() > 1 {
                // markers at a fixed distance from the origin
                ps.retain(|m| match const_distance(&st.a, ORIGIN, *m, 16) {
                    Some(d) => {
                        k += d;
                        false
                    }
                    None => true,
                });
                ms.retain(|m| match const_distance(&st.a, ORIGIN, *m, 16) {
                    Some(d) => {
                        k -= d;
                        false
                    }
                    None => true,
                });
            }
            if ps.len() > 1 || ms.len() > 1 {
                if self.opts.exact.is_some() {
                    let a = self.pin(st, a)?;
                    let b = self.pin(st, b)?;
                    return self.arith(st, op, &a, &b);
                }
                self.note(st, "arithmetic on unrelated positions");
                return Ok(Int::Top);
            }
            return Ok(mk_d(
                ps.first().copied().unwrap_or(ORIGIN),
                ms.first().copied().unwrap_or(ORIGIN),
                k,
            ));
        }
        // try constants
        if let (Some(x), Some(y)) = (self.as_const(st, a), self.as_const(st, b)) {
            return self.arith(st, op, &Int::C(x), &Int::C(y));
        }
        if self.opts.exact.is_some() && !matches!(a, Int::Top) && !matches!(b, Int::Top) {
            let a = self.pin(st, a)?;
            let b = self.pin(st, b)?;
            return self.arith(st, op, &a, &b);
        }
        self.note(st, &format!("{op:?} on positions"));
        Ok(Int::Top)
    }
    pub fn as_const(&mut self, st: &State<'tcx>, a: &Int) -> Option<i128> {
        match a {
            Int::C(c) => Some(*c),
            Int::D { p, m, k } => const_distance(&st.a, *m, *p, 80).map(|d| (d + k) as i128),
            _ => None,
        }
    }
    /// Splits on the positions an integer depends on until it is constant.
    pub fn pin(&mut self, st: &mut State<'tcx>, a: &Int) -> R<Int> {
        let Int::D { p, m, k } = a else { return Ok(a.clone()) };
        let n = self.opts.exact.unwrap_or(0) as i64 + 2;
        let mut v = *k;
        for (x, sign) in [(*p, 1), (*m, -1)] {
            if x != ORIGIN {
                match st.concretize(Pe { m: x, k: 0 }, n)? {
                    Some(c) => v += sign * c,
                    None => return unsup("position beyond the bound"),
                }
            }
        }
        Ok(Int::C(v as i128))
    }
    /// Splits on the value of a letter expression until it is constant.
    pub fn enumerate(&mut self, st: &mut State<'tcx>, a: &Int) -> R<Int> {
        let Int::L { k, t } = a else { return Ok(a.clone()) };
        let mut total = *k;
        for t in t.iter() {
            let p = st.norm(t.p);
            let mut vals: Vec<i128> =
                track_bytes(t.track as usize).iter().map(|b| t.tab[*b as usize]).collect();
            vals.sort_unstable();
            vals.dedup();
            let classes: Vec<(Ls, u16)> = vals
                .iter()
                .enumerate()
                .map(|(i, v)| {
                    let t = t.clone();
                    (cyl_ls(t.track as usize, |o| o.is_some_and(|b| t.tab[b as usize] == *v)), i as u16)
                })
                .collect();
            let n = vals.len();
            let parts = transform(
                &st.a,
                &ReadObs {
                    terms: vec![(p, t.track as usize)],
                    classes: vec![classes],
                    decide: &|v| v[0] as usize,
                },
                n,
            );
            let i = st.decide(parts)?;
            total += vals[i];
        }
        Ok(Int::C(total))
    }
    /// Fits an exact result into a machine type: (value, overflow?).
    pub fn fit(&mut self, st: &mut State<'tcx>, v: Int, t: Ity) -> R<(Int, bool)> {
        let (lo, hi) = t.range();
        match v {
            Int::C(c) => Ok((Int::C(t.wrap(c)), c < lo || c > hi)),
            Int::D { p, m, k } => {
                // positions never exceed isize::MAX; only underflow is possible
                if lo < 0 {
                    return Ok((Int::D { p, m, k }, false));
                }
                let o = st.order(Pe { m: p, k }, Pe { m, k: 0 })?;
                if o == 0 { Ok((Int::Top, true)) } else { Ok((Int::D { p, m, k }, false)) }
            }
            Int::L { k, t: tm } => {
                let (mut a, mut b) = (k, k);
                for x in tm.iter() {
                    let bytes = track_bytes(x.track as usize);
                    a += bytes.iter().map(|c| x.tab[*c as usize]).min().unwrap_or(0);
                    b += bytes.iter().map(|c| x.tab[*c as usize]).max().unwrap_or(0);
                }
                if a >= lo && b <= hi {
                    return Ok((Int::L { k, t: tm }, false));
                }
                let mut cuts = vec![(i128::MIN, 1), (lo, 0)];
                if hi < i128::MAX {
                    cuts.push((hi + 1, 1));
                }
                let v = self.classify(st, k, &tm, &cuts, 2);
                let o = st.decide(v)?;
                if o == 0 {
                    // within range on these words: clamp impossible entries
                    return Ok((Int::L { k, t: tm }, false));
                }
                if tm.len() == 1 {
                    let tab = tm[0].tab.iter().map(|v| t.wrap(v + k)).collect();
                    return Ok((mk_l(0, vec![Term { tab: Rc::new(tab), ..tm[0].clone() }]), true));
                }
                Ok((Int::Top, true))
            }
            Int::Top => Ok((Int::Top, false)),
        }
    }

    // -- text ---------------------------------------------------------------------------------

    pub fn len_of(&mut self, s: &Sl) -> Int {
        if s.lo.m == s.hi.m {
            return Int::C((s.hi.k - s.lo.k) as i128);
        }
        mk_d(s.hi.m, s.lo.m, s.hi.k - s.lo.k)
    }
    /// lo + i as a position.
    pub fn pos_add(&mut self, st: &mut State<'tcx>, lo: Pe, i: &Int) -> R<Pe> {
        match i {
            Int::C(c) => Ok(lo.add(*c as i64)),
            _ => {
                let l = mk_d(lo.m, ORIGIN, lo.k);
                match self.arith(st, BinOp::Add, &l, i)? {
                    Int::C(c) => Ok(Pe::c(c as i64)),
                    Int::D { p, m: ORIGIN, k } => Ok(Pe { m: p, k }),
                    _ => {
                        if let Some(c) = self.as_const(st, i) {
                            return Ok(lo.add(c as i64));
                        }
                        if self.opts.exact.is_some() && !matches!(i, Int::Top) {
                            let i = self.pin(st, i)?;
                            return self.pos_add(st, lo, &i);
                        }
                        // the distance is counted from elsewhere: at a known distance from here?
                        if let Int::D { p, m, k } = i {
                            for (a, b, s) in [(*m, lo.m, 1), (lo.m, *m, -1)] {
                                if let Some(d) = const_distance(&st.a, a, b, 16) {
                                    return Ok(Pe { m: *p, k: lo.k + k + s * d });
                                }
                            }
                        }
                        unsup(format!("position not expressible: {lo:?} + {i:?}"))
                    }
                }
            }
        }
    }
    /// Element at a position known to be in bounds.
    pub fn elem(&mut self, st: &mut State<'tcx>, s: &Sl, p: Pe) -> R<Val> {
        match &s.src {
            Src::Track(t) | Src::Map(t, _) => {
                let tab: Vec<i128> = (0..=255).map(|b| s.src.byte(b) as i128).collect();
                Ok(Val::Int(
                    Int::L { k: 0, t: Rc::new(vec![Term { p, track: *t, tab: Rc::new(tab) }]) },
                    Ity::U(8),
                ))
            }
            Src::Bytes(b) => match st.concretize(p, b.len() as i64)? {
                Some(i) => Ok(Val::c(b[i as usize] as i128, Ity::U(8))),
                None => unsup("index outside constant"),
            },
            Src::Vals(v) => match st.concretize(p, v.len() as i64)? {
                Some(i) => Ok(v[i as usize].clone()),
                None => unsup("index outside constant array"),
            },
        }
    }
    /// The element a thin pointer points to.
    pub fn first(&mut self, st: &mut State<'tcx>, s: &Sl) -> R<Val> {
        if st.order(s.lo, s.hi)? != 0 {
            let a = st.a.clone();
            self.event(&st.clone(), "out-of-bounds", "read past the end of a text", &a);
            return Err(Stop::Dead);
        }
        self.elem(st, s, s.lo)
    }
    pub fn index(&mut self, st: &mut State<'tcx>, s: &Sl, i: &Int) -> R<Val> {
        let p = self.pos_add(st, s.lo, i)?;
        self.elem(st, s, p)
    }

    // -- places -------------------------------------------------------------------------------

    pub fn local_pl(&self, st: &State<'tcx>, l: Local) -> Pl {
        Pl { th: st.cur as u8, fr: (st.ths[st.cur].len() - 1) as u16, local: l.as_u32(), path: vec![] }
    }
    pub fn load(&self, st: &State<'tcx>, l: &Loc) -> Val {
        match l {
            Loc::Mem(p) => st.read_mem(p),
            Loc::Val(v) => v.clone(),
            Loc::Text(v) => v.clone(),
        }
    }
    pub fn deref(&self, v: Val) -> R<Loc> {
        match v {
            Val::Ref(p) => Ok(Loc::Mem(p)),
            Val::RefV(v) => Ok(Loc::Val((*v).clone())),
            Val::Sl(_) => Ok(Loc::Text(v)),
            Val::Opaque => Ok(Loc::Val(Val::Opaque)),
            Val::Dyn(p, _) => self.deref((*p).clone()),
            v => unsup(format!("dereference of {v:?}")),
        }
    }
    pub fn place(&mut self, st: &mut State<'tcx>, p: &Place<'tcx>) -> R<Loc> {
        let mut loc = Loc::Mem(self.local_pl(st, p.local));
        let b = st.frame().b;
        for (n, e) in p.projection.iter().enumerate() {
            loc = match e {
                ProjectionElem::Deref => {
                    let v = self.load(st, &loc);
                    if let Val::Sl(s) = &v
                        && let t = Place::ty_from(p.local, &p.projection[..n], &b.body.local_decls, self.tcx).ty
                        && t.builtin_deref(true).is_some_and(|t| self.g.ity(t).is_some())
                    {
                        let s = s.clone();
                        Loc::Val(self.first(st, &s)?)
                    } else {
                        self.deref(v)?
                    }
                }
                ProjectionElem::Field(f, _) => match loc {
                    Loc::Mem(mut pl) => {
                        pl.path.push(f.as_u32());
                        Loc::Mem(pl)
                    }
                    Loc::Text(v) => Loc::Text(v),
                    Loc::Val(Val::Adt(_, fs)) => {
                        Loc::Val(fs.get(f.as_usize()).cloned().unwrap_or(Val::Undef))
                    }
                    Loc::Val(v @ (Val::Opaque | Val::Sl(_))) => Loc::Val(v),
                    Loc::Val(v) => return unsup(format!("field {f:?} of {v:?}")),
                },
                ProjectionElem::PhantomDeref | ProjectionElem::Downcast(..) | ProjectionElem::OpaqueCast(_) | ProjectionElem::UnwrapUnsafeBinder(_) => loc,
                ProjectionElem::Index(l) => {
                    let Val::Int(i, _) = st.frame().locals[l.index()].clone() else {
                        return unsup("index by non-integer");
                    };
                    self.index_loc(st, loc, &i)?
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let i = if from_end {
                        let n = self.loc_len(st, &loc)?;
                        self.arith(st, BinOp::Sub, &n, &Int::C(offset as i128))?
                    } else {
                        Int::C(offset as i128)
                    };
                    self.index_loc(st, loc, &i)?
                }
                ProjectionElem::Subslice { from, to, from_end } => match loc {
                    Loc::Text(Val::Sl(s)) => {
                        let lo = s.lo.add(from as i64);
                        let hi = if from_end { s.hi.add(-(to as i64)) } else { s.lo.add(to as i64) };
                        Loc::Text(Val::Sl(Sl { src: s.src, lo, hi }))
                    }
                    _ => return unsup("subslice of array"),
                },
            };
        }
        Ok(loc)
    }
    fn loc_len(&mut self, st: &State<'tcx>, loc: &Loc) -> R<Int> {
        match self.load(st, loc) {
            Val::Sl(s) => Ok(self.len_of(&s)),
            Val::Adt(_, f) => Ok(Int::C(f.len() as i128)),
            v => unsup(format!("length of {v:?}")),
        }
    }
    fn index_loc(&mut self, st: &mut State<'tcx>, loc: Loc, i: &Int) -> R<Loc> {
        match loc {
            Loc::Text(Val::Sl(s)) => Ok(Loc::Val(self.index(st, &s, i)?)),
            Loc::Mem(mut p) => {
                let n = match st.read_mem(&p) {
                    Val::Adt(_, f) => {
                        if let Some(v) = table_at(&f, i) {
                            return Ok(Loc::Val(v));
                        }
                        f.len()
                    }
                    // an array copied out of a text
                    Val::Sl(s) => return Ok(Loc::Val(self.index(st, &s, i)?)),
                    v => return unsup(format!("index into {v:?}")),
                };
                let c = self.small_index(st, i, n)?;
                p.path.push(c as u32);
                Ok(Loc::Mem(p))
            }
            Loc::Val(Val::Adt(_, f)) => {
                if let Some(v) = table_at(&f, i) {
                    return Ok(Loc::Val(v));
                }
                let c = self.small_index(st, i, f.len())?;
                Ok(Loc::Val(f[c].clone()))
            }
            _ => unsup("index"),
        }
    }
    /// A constant value of an integer known to be in 0..n, forking over the possibilities.
    pub fn small_index(&mut self, st: &mut State<'tcx>, i: &Int, n: usize) -> R<usize> {
        match i {
            Int::C(c) if *c >= 0 && (*c as usize) < n => Ok(*c as usize),
            Int::D { .. } => {
                let p = self.pos_add(st, Pe::c(0), i)?;
                match st.concretize(p, n as i64)? {
                    Some(c) => Ok(c as usize),
                    None => unsup("array index out of range"),
                }
            }
            Int::L { .. } => {
                let j = self.enumerate(st, i)?;
                self.small_index(st, &j, n)
            }
            Int::Top => st.choose(n),
            _ => unsup("array index out of range"),
        }
    }

    // -- operands and constants ---------------------------------------------------------------

    pub fn operand(&mut self, st: &mut State<'tcx>, o: &Operand<'tcx>) -> R<Val> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => {
                let l = self.place(st, p)?;
                Ok(self.load(st, &l))
            }
            Operand::Constant(c) => {
                let v = self.constant(&c.const_, c.span)?;
                if let Some(p) = c.const_.ty().builtin_deref(true)
                    && let Some(n) = self.g.newtype(p)
                    && let Val::Sl(s) = &v
                {
                    self.must_be(st, s, &n, &format!("constant {n}"))?;
                }
                Ok(v)
            }
            Operand::RuntimeChecks(c) => Ok(Val::bool(matches!(c, RuntimeChecks::OverflowChecks))),
        }
    }
    pub fn constant(&mut self, c: &Const<'tcx>, span: Span) -> R<Val> {
        let ty = c.ty();
        // a constant of a provided method that the type overrides with one of its own
        if let rustc_middle::mir::Const::Unevaluated(u, _) = &c
            && let Some(p) = u.promoted
            && self.tcx.trait_of_assoc(u.def).is_some()
            && let Ok(Some(i)) = Instance::try_resolve(self.tcx, env(), u.def, u.args)
            && i.def_id() != u.def
        {
            if let Some(b) = self.tcx.promoted_mir(u.def).get(p) {
                for s in b.basic_blocks.iter().flat_map(|b| &b.statements) {
                    if let StatementKind::Assign(a) = &s.kind
                        && let Rvalue::Aggregate(k, f) = &a.1
                        && let rustc_middle::mir::AggregateKind::Adt(_, v, ..) = **k
                        && f.iter().all(|o| o.ty(&b.local_decls, self.tcx).is_unit())
                    {
                        return Ok(Val::RefV(Rc::new(Val::adt(v.as_u32(), f.iter().map(|_| Val::unit()).collect()))));
                    }
                }
            }
            return unsup(format!("constant of {}", self.tcx.def_path_str(u.def)));
        }
        let v = match c.eval(self.tcx, env(), span) {
            Ok(v) => v,
            Err(e) => return unsup(format!("constant {c:?}: {e:?}")),
        };
        self.const_val(v, ty)
    }
    pub fn const_val(&mut self, v: ConstValue, ty: Ty<'tcx>) -> R<Val> {
        let tcx = self.tcx;
        match v {
            ConstValue::ZeroSized => self.zst(ty),
            ConstValue::Scalar(s) => self.scalar(s, ty),
            ConstValue::Slice { alloc_id, meta } => {
                let a = tcx.global_alloc(alloc_id).unwrap_memory();
                let p = match ty.kind() {
                    ty::Ref(_, p, _) => *p,
                    ty::RawPtr(p, _) => *p,
                    _ => return unsup("slice constant"),
                };
                if let ty::Slice(e) = p.kind() {
                    if *e == tcx.types.u8 {
                        let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize);
                        return Ok(Val::Sl(Sl::bytes(b.to_vec())));
                    }
                    let lay = self.layout(*e)?;
                    let mut v = vec![];
                    for i in 0..meta {
                        v.push(self.read_alloc(a.inner(), lay.size * i, *e)?);
                    }
                    return Ok(Val::Sl(Sl::vals(v)));
                }
                let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize);
                if p.is_str() && b == ANY_LITERAL.as_bytes() {
                    // stands for every literal: the text of the first argument
                    return Ok(Val::Sl(Sl { src: Src::Track(0), lo: Pe::c(0), hi: Pe { m: 0, k: 0 } }));
                }
                Ok(Val::Sl(Sl::bytes(b.to_vec())))
            }
            ConstValue::Indirect { alloc_id, offset } => {
                let a = tcx.global_alloc(alloc_id).unwrap_memory();
                self.read_alloc(a.inner(), offset, ty)
            }
        }
    }
    fn zst(&mut self, ty: Ty<'tcx>) -> R<Val> {
        match ty.kind() {
            ty::Tuple(ts) => {
                let mut f = vec![];
                for t in ts.iter() {
                    f.push(self.zst(t)?);
                }
                Ok(Val::adt(0, f))
            }
            ty::Adt(d, args) if d.is_struct() => {
                let mut f = vec![];
                for fd in &d.non_enum_variant().fields {
                    let t = fd.ty(self.tcx, args);
                    let t = self.tcx.normalize_erasing_regions(env(), t);
                    f.push(self.zst(t)?);
                }
                Ok(Val::adt(0, f))
            }
            _ => Ok(Val::unit()),
        }
    }
    pub fn layout(&self, t: Ty<'tcx>) -> R<ty::layout::TyAndLayout<'tcx>> {
        self.tcx.layout_of(env().as_query_input(t)).map_err(|e| Stop::Unsupported(format!("layout {e:?}")))
    }
    fn scalar(&mut self, s: Scalar, ty: Ty<'tcx>) -> R<Val> {
        match s {
            Scalar::Int(i) => {
                if let Some(t) = self.g.ity(ty) {
                    let b = i.to_bits(i.size()) as i128;
                    return Ok(Val::c(t.wrap(b), t));
                }
                match ty.kind() {
                    ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => {
                        let v = ConstValue::Scalar(s);
                        self.destructure(v, ty)
                    }
                    _ => Ok(Val::Opaque),
                }
            }
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.into_raw_parts();
                match ty.kind() {
                    ty::Ref(_, t, _) | ty::RawPtr(t, _) => self.pointee(prov.alloc_id(), off, *t, None),
                    ty::FnPtr(..) => match self.tcx.global_alloc(prov.alloc_id()) {
                        GlobalAlloc::Function { instance } => Ok(Val::Fn(self.g.intern_fn(instance))),
                        _ => unsup("fn pointer constant"),
                    },
                    ty::Adt(..) => self.destructure(ConstValue::Scalar(s), ty),
                    _ => unsup(format!("pointer constant of type {ty}")),
                }
            }
        }
    }
    fn pointee(&mut self, id: rustc_middle::mir::interpret::AllocId, off: rustc_abi::Size, t: Ty<'tcx>, meta: Option<u64>) -> R<Val> {
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(a) => {
                if self.g.is_text(t) {
                    let n = meta.ok_or(Stop::Unsupported("thin text".into()))?;
                    if let ty::Slice(e) = t.kind()
                        && *e != self.tcx.types.u8
                    {
                        let lay = self.layout(*e)?;
                        let mut v = vec![];
                        for i in 0..n {
                            v.push(self.read_alloc(a.inner(), off + lay.size * i, *e)?);
                        }
                        return Ok(Val::Sl(Sl::vals(v)));
                    }
                    let b = a
                        .inner()
                        .inspect_with_uninit_and_ptr_outside_interpreter(off.bytes_usize()..off.bytes_usize() + n as usize);
                    return Ok(Val::Sl(Sl::bytes(b.to_vec())));
                }
                let v = self.read_alloc(a.inner(), off, t)?;
                Ok(Val::RefV(Rc::new(v)))
            }
            GlobalAlloc::Static(d) => {
                let n = self.tcx.def_path_str(d);
                if d.is_local() {
                    match self.tcx.eval_static_initializer(d) {
                        Ok(a) => {
                            let ty = self.tcx.type_of(d).instantiate_identity().skip_norm_wip();
                            let v = self.read_alloc(a.inner(), off, ty)?;
                            return Ok(Val::RefV(Rc::new(v)));
                        }
                        Err(_) => return unsup(format!("static {n}")),
                    }
                }
                let q = self.g.name_of(d);
                match self.g.statics.get(&*q) {
                    Some(v) => Ok(Val::RefV(Rc::new(v.clone()))),
                    None => unsup(format!("value of static {q}")),
                }
            }
            GlobalAlloc::Function { instance } => Ok(Val::Fn(self.g.intern_fn(instance))),
            _ => Ok(Val::Opaque),
        }
    }
    fn destructure(&mut self, v: ConstValue, ty: Ty<'tcx>) -> R<Val> {
        match self.tcx.try_destructure_mir_constant_for_user_output(v, ty) {
            Some(d) => {
                let mut f = vec![];
                for (c, t) in d.fields {
                    f.push(self.const_val(*c, *t)?);
                }
                Ok(Val::adt(d.variant.map_or(0, |v| v.as_u32()), f))
            }
            None => unsup(format!("constant of type {ty}")),
        }
    }
    pub fn read_alloc(&mut self, a: &rustc_middle::mir::interpret::Allocation, off: rustc_abi::Size, ty: Ty<'tcx>) -> R<Val> {
        let lay = self.layout(ty)?;
        let tcx = self.tcx;
        if let Some(t) = self.g.ity(ty) {
            let s = a
                .read_scalar(&tcx, AllocRange { start: off, size: lay.size }, false)
                .map_err(|e| Stop::Unsupported(format!("{e:?}")))?;
            return match s {
                Scalar::Int(i) => Ok(Val::c(t.wrap(i.to_bits(i.size()) as i128), t)),
                _ => unsup("pointer as integer"),
            };
        }
        match ty.kind() {
            ty::Ref(_, t, _) | ty::RawPtr(t, _) => {
                let ps = tcx.data_layout.pointer_size();
                let s = a
                    .read_scalar(&tcx, AllocRange { start: off, size: ps }, true)
                    .map_err(|e| Stop::Unsupported(format!("{e:?}")))?;
                let meta = if lay.size > ps {
                    let m = a
                        .read_scalar(&tcx, AllocRange { start: off + ps, size: ps }, false)
                        .map_err(|e| Stop::Unsupported(format!("{e:?}")))?;
                    match m {
                        Scalar::Int(i) => Some(i.to_bits(i.size()) as u64),
                        _ => return Ok(Val::Opaque),
                    }
                } else {
                    None
                };
                match s {
                    Scalar::Ptr(p, _) => {
                        let (prov, o) = p.into_raw_parts();
                        self.pointee(prov.alloc_id(), o, *t, meta)
                    }
                    Scalar::Int(_) => {
                        // dangling pointer to nothing
                        if meta == Some(0) {
                            return Ok(Val::Sl(Sl::bytes(vec![])));
                        }
                        Ok(Val::RefV(Rc::new(self.zst(*t)?)))
                    }
                }
            }
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(tcx).ok_or(Stop::Unsupported("array length".into()))?;
                let el = self.layout(*e)?;
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.read_alloc(a, off + el.size * i, *e)?);
                }
                Ok(Val::adt(0, v))
            }
            ty::Tuple(ts) => {
                let mut v = vec![];
                for (i, t) in ts.iter().enumerate() {
                    v.push(self.read_alloc(a, off + lay.fields.offset(i), t)?);
                }
                Ok(Val::adt(0, v))
            }
            ty::FnDef(..) | ty::Closure(..) => Ok(Val::unit()),
            ty::Adt(d, args) if d.is_struct() => {
                let mut v = vec![];
                for (i, fd) in d.non_enum_variant().fields.iter().enumerate() {
                    let t = tcx.normalize_erasing_regions(env(), fd.ty(tcx, args));
                    v.push(self.read_alloc(a, off + lay.fields.offset(i), t)?);
                }
                Ok(Val::adt(0, v))
            }
            ty::Adt(d, args) if d.is_enum() => {
                use rustc_abi::{TagEncoding, Variants};
                let vi = match &lay.variants {
                    Variants::Empty => return unsup("empty enum constant"),
                    Variants::Single { index } => *index,
                    Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                        let to = off + lay.fields.offset(tag_field.as_usize());
                        let ts = tag.size(&tcx);
                        let s = a
                            .read_scalar(&tcx, AllocRange { start: to, size: ts }, matches!(tag.primitive(), rustc_abi::Primitive::Pointer(_)))
                            .map_err(|e| Stop::Unsupported(format!("{e:?}")))?;
                        match tag_encoding {
                            TagEncoding::Direct => {
                                let Scalar::Int(i) = s else { return unsup("pointer tag") };
                                let b = i.to_bits(i.size());
                                match d.discriminants(tcx).find(|(_, x)| {
                                    x.val & (u128::MAX >> (128 - ts.bits())) == b
                                }) {
                                    Some((v, _)) => v,
                                    None => return unsup("bad tag"),
                                }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => match s {
                                Scalar::Ptr(..) => *untagged_variant,
                                Scalar::Int(i) => {
                                    let b = i.to_bits(i.size());
                                    let mask = u128::MAX >> (128 - ts.bits());
                                    let rel = b.wrapping_sub(*niche_start) & mask;
                                    let span = (niche_variants.last.as_u32() - niche_variants.start.as_u32()) as u128;
                                    if rel <= span {
                                        rustc_abi::VariantIdx::from_u32(niche_variants.start.as_u32() + rel as u32)
                                    } else {
                                        *untagged_variant
                                    }
                                }
                            },
                        }
                    }
                };
                let cx = ty::layout::LayoutCx::new(tcx, env());
                let vl = lay.for_variant(&cx, vi);
                let mut v = vec![];
                for (i, fd) in d.variant(vi).fields.iter().enumerate() {
                    let t = tcx.normalize_erasing_regions(env(), fd.ty(tcx, args));
                    v.push(self.read_alloc(a, off + vl.fields.offset(i), t)?);
                }
                Ok(Val::adt(vi.as_u32(), v))
            }
            _ => unsup(format!("constant of type {ty}")),
        }
    }

    // -- statements ---------------------------------------------------------------------------

    fn statement(&mut self, st: &mut State<'tcx>) -> R<Flow> {
        let b = st.frame().b;
        let (bb, si) = (st.frame().bb, st.frame().si as usize);
        let s = &b.body.basic_blocks[BasicBlock::from_u32(bb)].statements[si];
        match &s.kind {
            StatementKind::Assign(a) => {
                let (p, rv) = &**a;
                let v = self.rvalue(st, rv, p.ty(&b.body.local_decls, self.tcx).ty)?;
                self.assign(st, p, v)?;
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let l = self.place(st, place)?;
                let Loc::Mem(pl) = l else { return unsup("set discriminant") };
                let f = match st.read_mem(&pl) {
                    Val::Adt(_, f) => f,
                    _ => Rc::new(vec![]),
                };
                st.write_mem(&pl, Val::Adt(variant_index.as_u32(), f));
            }
            StatementKind::StorageLive(l) | StatementKind::StorageDead(l) => {
                let l = l.index();
                if st.frame().locals[l] != Val::Undef {
                    st.frame_mut().locals[l] = Val::Undef;
                }
            }
            StatementKind::Intrinsic(i) => match &**i {
                NonDivergingIntrinsic::Assume(_) => {}
                NonDivergingIntrinsic::CopyNonOverlapping(_) => return unsup("copy_nonoverlapping"),
            },
            _ => {}
        }
        st.reset_choices();
        st.frame_mut().si += 1;
        Ok(Flow::Cont)
    }

    /// Writes to a place, checking the invariant of validated types.
    pub fn assign(&mut self, st: &mut State<'tcx>, p: &Place<'tcx>, v: Val) -> R<()> {
        let l = self.place(st, p)?;
        match l {
            Loc::Mem(pl) => {
                // writing the field of a validated type
                if let Some((base, ProjectionElem::Field(..))) = p.as_ref().last_projection() {
                    let bt = base.ty(&st.frame().b.body.local_decls, self.tcx).ty;
                    self.invariant(st, bt, &[v.clone()], "assignment to a field")?;
                }
                st.write_mem(&pl, v);
                Ok(())
            }
            _ => unsup("assignment through an immutable reference"),
        }
    }

    /// Checks that the fields form a valid value of a validated type.
    pub fn invariant(&mut self, st: &mut State<'tcx>, t: Ty<'tcx>, f: &[Val], how: &str) -> R<()> {
        if let Some(n) = self.g.owned_newtype(t) {
            if let Val::Sl(s) = &f[0] {
                return self.must_be(st, s, &n, &format!("{how}: {n}Buf"));
            }
            return unsup(format!("invariant of {t}"));
        }
        if self.g.is_singleton(t) {
            self.obligations += 1;
            let Val::Int(i, _) = &f[0] else { return unsup("invariant of Singleton") };
            let ok = |v: i128| v >= 0 && v < 128 && (v as u8).is_ascii_alphanumeric() && v != 120 && v != 88;
            let mut cuts = vec![(i128::MIN, 1usize)];
            let mut last = 1;
            for v in 0..=300 {
                let o = if ok(v) { 0 } else { 1 };
                if o != last {
                    cuts.push((v, o));
                    last = o;
                }
            }
            let bad = match i {
                Int::C(c) => {
                    if ok(*c) {
                        return Ok(());
                    }
                    (*st.a).clone()
                }
                Int::L { k, t } => self.classify(st, *k, t, &cuts, 2)[1].clone(),
                _ => (*st.a).clone(),
            };
            if !bad.is_empty() {
                self.event(&st.clone(), "invalid", &format!("{how}: Singleton outside its alphabet"), &bad);
            }
        }
        Ok(())
    }
    /// Reports the inputs for which a text is not in the named language.
    pub fn must_be(&mut self, st: &mut State<'tcx>, s: &Sl, name: &str, what: &str) -> R<()> {
        self.obligations += 1;
        let Some(l) = self.g.lang(name) else { return unsup(format!("no specification for {name}")) };
        let v = self.slice_in(st, s, &l)?;
        let bad = v[1].union(&v[2]);
        if !bad.is_empty() {
            self.event(&st.clone(), "invalid", &format!("{what} built from text that is not a valid {name}"), &bad);
        }
        Ok(())
    }

    fn rvalue(&mut self, st: &mut State<'tcx>, rv: &Rvalue<'tcx>, ty: Ty<'tcx>) -> R<Val> {
        let b = st.frame().b;
        let decls = &b.body.local_decls;
        match rv {
            Rvalue::Use(o, ..) => self.operand(st, o),
            Rvalue::CopyForDeref(p) => {
                let l = self.place(st, p)?;
                Ok(self.load(st, &l))
            }
            Rvalue::Repeat(o, n) => {
                let v = self.operand(st, o)?;
                let n = n.try_to_target_usize(self.tcx).ok_or(Stop::Unsupported("repeat".into()))?;
                if n > 1024 {
                    return unsup("large array");
                }
                Ok(Val::adt(0, vec![v; n as usize]))
            }
            Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) | Rvalue::Reborrow(_, _, p) => {
                // another reference to a value of erased type keeps its type
                if let Some((ProjectionElem::Deref, rest)) = p.projection.split_last() {
                    let base = if rest.is_empty() {
                        match &st.frame().locals[p.local.index()] {
                            v @ Val::Dyn(..) => Some(v.clone()),
                            _ => None,
                        }
                    } else if p.ty(decls, self.tcx).ty.is_trait() {
                        let b = Place { local: p.local, projection: self.tcx.mk_place_elems(rest) };
                        let l = self.place(st, &b)?;
                        Some(self.load(st, &l)).filter(|v| matches!(v, Val::Dyn(..)))
                    } else {
                        None
                    };
                    if let Some(v) = base {
                        return Ok(v);
                    }
                }
                let l = self.place(st, p)?;
                match l {
                    Loc::Mem(pl) => Ok(Val::Ref(pl)),
                    Loc::Val(Val::Opaque) => Ok(Val::Opaque),
                    Loc::Val(v) => Ok(Val::RefV(Rc::new(v))),
                    Loc::Text(v) => Ok(v),
                }
            }
            Rvalue::ThreadLocalRef(_) => unsup("thread local"),
            Rvalue::Cast(k, o, to) => {
                let from = o.ty(decls, self.tcx);
                let v = self.operand(st, o)?;
                self.cast(st, *k, v, from, *to)
            }
            Rvalue::BinaryOp(op, ab) => {
                let ta = ab.0.ty(decls, self.tcx);
                let x = self.operand(st, &ab.0)?;
                let y = self.operand(st, &ab.1)?;
                self.binop(st, *op, x, y, ta)
            }
            Rvalue::UnaryOp(op, o) => {
                let v = self.operand(st, o)?;
                match op {
                    UnOp::Not => match v {
                        Val::Int(i, Ity::Bool) => match i {
                            Int::C(c) => Ok(Val::bool(c == 0)),
                            _ => Ok(Val::bool(st.choose(2)? == 1)),
                        },
                        Val::Int(Int::C(c), t) => Ok(Val::c(t.wrap(!c), t)),
                        Val::Int(i @ Int::L { .. }, t) => {
                            let e = self.arith(st, BinOp::Sub, &Int::C(-1), &i)?;
                            let e = match e {
                                Int::L { k, t: tm } if tm.len() == 1 => {
                                    let tab = tm[0].tab.iter().map(|v| t.wrap(v + k)).collect();
                                    mk_l(0, vec![Term { tab: Rc::new(tab), ..tm[0].clone() }])
                                }
                                _ => Int::Top,
                            };
                            Ok(Val::Int(e, t))
                        }
                        Val::Int(_, t) => Ok(Val::Int(Int::Top, t)),
                        v => unsup(format!("not {v:?}")),
                    },
                    UnOp::Neg => match v {
                        Val::Int(i, t) => {
                            let e = self.arith(st, BinOp::Sub, &Int::C(0), &i)?;
                            Ok(Val::Int(self.fit(st, e, t)?.0, t))
                        }
                        v => unsup(format!("neg {v:?}")),
                    },
                    UnOp::PtrMetadata => match v {
                        Val::Sl(s) => Ok(Val::Int(self.len_of(&s), Ity::Usize)),
                        Val::Ref(p) => match st.read_mem(&p) {
                            Val::Adt(_, f) if ty.is_integral() => Ok(Val::usize(f.len() as i128)),
                            _ => Ok(Val::unit()),
                        },
                        _ => Ok(Val::Opaque),
                    },
                }
            }
            Rvalue::Discriminant(p) => {
                let pt = p.ty(decls, self.tcx).ty;
                let l = self.place(st, p)?;
                let t = self.g.ity(ty).unwrap_or(Ity::Isize);
                match self.load(st, &l) {
                    Val::Adt(v, _) => {
                        let d = pt
                            .discriminant_for_variant(self.tcx, rustc_abi::VariantIdx::from_u32(v))
                            .map_or(v as u128, |d| d.val);
                        Ok(Val::c(t.wrap(d as i128), t))
                    }
                    Val::Opaque => Ok(Val::Int(Int::Top, t)),
                    Val::Undef if matches!(self.layout(pt)?.variants, rustc_abi::Variants::Single { .. }) => {
                        Ok(Val::Int(Int::Top, t))
                    }
                    v => unsup(format!("discriminant of {v:?}")),
                }
            }
            Rvalue::Aggregate(k, ops) => {
                let mut f = vec![];
                for o in ops.iter() {
                    f.push(self.operand(st, o)?);
                }
                match &**k {
                    AggregateKind::Adt(_, v, _, _, active) => {
                        if active.is_some() {
                            return unsup("union");
                        }
                        if f.len() == 3
                            && let ty::Adt(d, _) = ty.kind()
                            && &*self.g.name_of(d.did()) == "core::slice::iter::Iter"
                            && let (Val::Sl(p), Val::Sl(e)) = (peel(&f[0]), peel(&f[1]))
                        {
                            // (start pointer, end pointer): a slice iterator is its remaining text
                            return Ok(Val::Sl(Sl { src: p.src.clone(), lo: p.lo, hi: e.lo }));
                        }
                        if f.len() == 1 {
                            self.invariant(st, ty, &f, "constructor")?;
                        }
                        Ok(Val::adt(v.as_u32(), f))
                    }
                    AggregateKind::RawPtr(..) => {
                        // (data pointer, metadata)
                        match (&f[0], &f[1]) {
                            (Val::Sl(s), Val::Int(i, _)) => {
                                let s = s.clone();
                                let hi = self.pos_add(st, s.lo, i)?;
                                if st.order(s.lo, hi)? == 2 || st.order(hi, s.hi)? == 2 {
                                    let a = st.a.clone();
                                    self.event(&st.clone(), "out-of-bounds", "unchecked slice reaches past its text", &a);
                                    return Err(Stop::Dead);
                                }
                                Ok(Val::Sl(Sl { src: s.src, lo: s.lo, hi }))
                            }
                            (v, _) => Ok(v.clone()),
                        }
                    }
                    _ => Ok(Val::adt(0, f)),
                }
            }
            Rvalue::WrapUnsafeBinder(o, _) => self.operand(st, o),
        }
    }

    pub fn cast(&mut self, st: &mut State<'tcx>, k: CastKind, v: Val, from: Ty<'tcx>, to: Ty<'tcx>) -> R<Val> {
        use rustc_middle::ty::adjustment::PointerCoercion as PC;
        match k {
            CastKind::IntToInt => {
                let Some(t) = self.g.ity(to) else { return unsup("cast") };
                match v {
                    Val::Int(i, f) => Ok(Val::Int(self.cast_int(st, i, f, t)?, t)),
                    v => unsup(format!("cast of {v:?}")),
                }
            }
            CastKind::PointerCoercion(PC::Unsize, _) => self.unsize(st, v, from, to),
            CastKind::PointerCoercion(PC::ReifyFnPointer(_), _) => match from.kind() {
                ty::FnDef(d, args) => {
                    let args = self.tcx.normalize_erasing_regions(env(), ty::Unnormalized::new_wip(args.no_bound_vars().unwrap_or_else(|| args.skip_binder())));
                    match Instance::resolve_for_fn_ptr(self.tcx, env(), *d, args) {
                        Some(i) => Ok(Val::Fn(self.g.intern_fn(i))),
                        None => unsup("reify"),
                    }
                }
                _ => unsup("reify"),
            },
            CastKind::PointerCoercion(PC::ClosureFnPointer(_), _) => match from.kind() {
                ty::Closure(d, args) => {
                    let i = Instance::resolve_closure(self.tcx, *d, args, ty::ClosureKind::FnOnce);
                    Ok(Val::Fn(self.g.intern_fn(i)))
                }
                _ => unsup("closure pointer"),
            },
            CastKind::PointerCoercion(..) | CastKind::Subtype => Ok(v),
            CastKind::PtrToPtr | CastKind::Transmute | CastKind::BoxDerefTransmute => {
                if let (Some(f), Some(t)) = (self.g.ity(from), self.g.ity(to)) {
                    return match v {
                        Val::Int(i, _) => Ok(Val::Int(self.cast_int(st, i, f, t)?, t)),
                        v => unsup(format!("transmute of {v:?}")),
                    };
                }
                let pt = match to.kind() {
                    ty::Ref(_, p, _) => Some(*p),
                    ty::RawPtr(p, _) => Some(*p),
                    _ => None,
                };
                if let Some(p) = pt {
                    let v = if from.is_adt() { peel(&v).clone() } else { v };
                    if let Some(n) = self.g.newtype(p) {
                        let fp = match from.kind() {
                            ty::Ref(_, p, _) | ty::RawPtr(p, _) => Some(*p),
                            _ => None,
                        };
                        if fp.and_then(|p| self.g.newtype(p)).as_deref() != Some(&n) {
                            if let Val::Sl(s) = &v {
                                self.must_be(st, s, &n, &n.clone())?;
                            } else {
                                return unsup("conversion to a validated type");
                            }
                        }
                        return Ok(v);
                    }
                    if let Val::Sl(s) = &v
                        && p.is_str()
                        && !from.builtin_deref(true).is_some_and(|p| p.is_str() || self.g.newtype(p).is_some())
                    {
                        self.must_be(st, &s.clone(), "Utf8", "str")?;
                    }
                    return Ok(v);
                }
                if from == to {
                    return Ok(v);
                }
                // a number as an optional number that is not zero
                if let ty::Adt(o, a) = to.kind()
                    && self.g.name_of(o.did()).to_string() == "core::option::Option"
                    && a.type_at(0).to_string().starts_with("std::num::NonZero<")
                    && let Val::Int(i, t) = &v
                {
                    let zero = match i {
                        Int::C(c) => *c == 0,
                        Int::D { p, m, k } => st.order(Pe { m: *p, k: *k }, Pe { m: *m, k: 0 })? == 1,
                        _ => return unsup("NonZero of an unknown number"),
                    };
                    return Ok(if zero { Val::none() } else { Val::some(Val::adt(0, vec![Val::adt(0, vec![Val::Int(i.clone(), *t)])])) });
                }
                // wrappers around the same thing
                match (from.kind(), to.kind()) {
                    (ty::Adt(..), ty::Adt(..)) => {
                        self.invariant(st, to, &[match &v { Val::Adt(_, f) if f.len() == 1 => f[0].clone(), v => v.clone() }], "transmute")?;
                        Ok(v)
                    }
                    (_, ty::Adt(d, _)) if d.is_struct() && d.non_enum_variant().fields.len() == 1 => {
                        self.invariant(st, to, &[v.clone()], "transmute")?;
                        Ok(Val::adt(0, vec![v]))
                    }
                    (ty::Adt(d, _), _) if d.is_struct() => match v {
                        Val::Adt(_, f) if f.len() == 1 => {
                            let mut v = f[0].clone();
                            while self.g.ity(to).is_some() {
                                match &v {
                                    Val::Adt(_, f) if f.len() == 1 => v = f[0].clone(),
                                    _ => break,
                                }
                            }
                            Ok(v)
                        }
                        v => unsup(format!("transmute of {v:?} from {from} to {to}")),
                    },
                    _ => unsup(format!("transmute from {from} to {to}")),
                }
            }
            _ => unsup(format!("cast {k:?}")),
        }
    }
    pub fn cast_int(&mut self, st: &mut State<'tcx>, i: Int, f: Ity, t: Ity) -> R<Int> {
        let _ = f;
        Ok(match i {
            Int::C(c) => Int::C(t.wrap(c)),
            Int::D { .. } => {
                if t.bits() >= 32 {
                    i
                } else {
                    match self.as_const(st, &i) {
                        Some(c) => Int::C(t.wrap(c)),
                        None if self.opts.exact.is_some() => {
                            let i = self.pin(st, &i)?;
                            self.cast_int(st, i, f, t)?
                        }
                        None => Int::Top,
                    }
                }
            }
            Int::L { k, t: tm } => {
                if tm.len() == 1 {
                    let tab = tm[0].tab.iter().map(|v| t.wrap(v + k)).collect();
                    mk_l(0, vec![Term { tab: Rc::new(tab), ..tm[0].clone() }])
                } else {
                    let (r, o) = self.fit(st, Int::L { k, t: tm }, t)?;
                    if o { Int::Top } else { r }
                }
            }
            Int::Top => Int::Top,
        })
    }
    fn unsize(&mut self, st: &mut State<'tcx>, v: Val, from: Ty<'tcx>, to: Ty<'tcx>) -> R<Val> {
        let (Some(fp), Some(tp)) = (from.builtin_deref(true), to.builtin_deref(true)) else {
            return unsup(format!("unsize {from} to {to}"));
        };
        match tp.kind() {
            ty::Slice(_) => {
                let l = self.deref(v)?;
                match self.load(st, &l) {
                    Val::Adt(_, f) => {
                        if to.is_mutable_ptr() {
                            return unsup("mutable slice of an array");
                        }
                        if f.iter().all(|v| matches!(v, Val::Int(Int::C(_), Ity::U(8)))) && !f.is_empty() {
                            let b = f
                                .iter()
                                .map(|v| match v {
                                    Val::Int(Int::C(c), _) => *c as u8,
                                    _ => 0,
                                })
                                .collect();
                            return Ok(Val::Sl(Sl::bytes(b)));
                        }
                        let n = f.len() as i64;
                        Ok(Val::Sl(Sl { src: Src::Vals(f), lo: Pe::c(0), hi: Pe::c(n) }))
                    }
                    v => unsup(format!("unsize of {v:?}")),
                }
            }
            ty::Dynamic(..) => Ok(Val::Dyn(Rc::new(v), self.g.intern_ty(fp))),
            _ => Ok(v),
        }
    }

    pub fn binop(&mut self, st: &mut State<'tcx>, op: BinOp, x: Val, y: Val, ta: Ty<'tcx>) -> R<Val> {
        use BinOp::*;
        let (Val::Int(a, t), Val::Int(b, _)) = (&x, &y) else {
            // pointer comparison etc.
            return match op {
                Offset => match (&x, &y) {
                    (Val::Sl(s), Val::Int(i, _)) => {
                        let s = s.clone();
                        let lo = self.pos_add(st, s.lo, i)?;
                        if st.order(lo, s.hi)? == 2 || st.order(s.lo, lo)? == 2 {
                            let a = st.a.clone();
                            self.event(&st.clone(), "out-of-bounds", "pointer moved outside its text", &a);
                            return Err(Stop::Dead);
                        }
                        Ok(Val::Sl(Sl { src: s.src, lo, hi: s.hi }))
                    }
                    _ => unsup(format!("Offset on {x:?}, {y:?} ({ta})")),
                },
                Eq | Ne => {
                    if let (Val::Adt(..), Val::Adt(..)) = (&x, &y)
                        && x == y
                        && !x.has_marks()
                    {
                        return Ok(Val::bool(op == Eq));
                    }
                    self.note(st, "comparison of pointers");
                    Ok(Val::bool(st.choose(2)? == 1))
                }
                Lt | Le | Gt | Ge => {
                    self.note(st, "comparison of pointers");
                    Ok(Val::bool(st.choose(2)? == 1))
                }
                _ => unsup(format!("{op:?} on {x:?}, {y:?} ({ta})")),
            };
        };
        let t = *t;
        match op {
            Eq | Ne | Lt | Le | Gt | Ge => {
                if matches!(op, Eq | Ne) && t == Ity::Bool
                    && (matches!(a, Int::Top) || matches!(b, Int::Top)) {
                        return Ok(Val::bool(st.choose(2)? == 1));
                    }
                let o = self.compare(st, a, b)?;
                Ok(Val::bool(match op {
                    Eq => o == 1,
                    Ne => o != 1,
                    Lt => o == 0,
                    Le => o <= 1,
                    Gt => o == 2,
                    _ => o >= 1,
                }))
            }
            Cmp => {
                let o = self.compare(st, a, b)?;
                Ok(Val::adt(o as u32, vec![]))
            }
            AddWithOverflow | SubWithOverflow | MulWithOverflow => {
                let o = match op {
                    AddWithOverflow => Add,
                    SubWithOverflow => Sub,
                    _ => Mul,
                };
                let e = self.arith(st, o, a, b)?;
                if matches!(e, Int::Top) {
                    return Ok(Val::adt(0, vec![Val::Int(Int::Top, t), Val::bool(false)]));
                }
                let (v, ov) = self.fit(st, e, t)?;
                Ok(Val::adt(0, vec![Val::Int(v, t), Val::bool(ov)]))
            }
            BitAnd | BitOr | BitXor if t == Ity::Bool => {
                let f = |i: &Int, st: &mut State<'tcx>| -> R<bool> {
                    match i {
                        Int::C(c) => Ok(*c != 0),
                        _ => Ok(st.choose(2)? == 1),
                    }
                };
                let p = f(a, st)?;
                let q = f(b, st)?;
                Ok(Val::bool(match op {
                    BitAnd => p & q,
                    BitOr => p | q,
                    _ => p ^ q,
                }))
            }
            _ => {
                let o = match op {
                    AddUnchecked => Add,
                    SubUnchecked => Sub,
                    MulUnchecked => Mul,
                    ShlUnchecked => Shl,
                    ShrUnchecked => Shr,
                    o => o,
                };
                let e = self.arith(st, o, a, b)?;
                Ok(Val::Int(self.fit(st, e, t)?.0, t))
            }
        }
    }

    // -- control flow -------------------------------------------------------------------------

    pub fn goto(&self, st: &mut State<'tcx>, bb: BasicBlock) -> Flow {
        st.reset_choices();
        let f = st.frame_mut();
        f.bb = bb.as_u32();
        f.si = 0;
        Flow::Goto(false)
    }

    fn terminator(&mut self, st: &mut State<'tcx>, work: &mut Vec<State<'tcx>>) -> R<Flow> {
        let b = st.frame().b;
        let t = b.body.basic_blocks[BasicBlock::from_u32(st.frame().bb)].terminator();
        match &t.kind {
            TerminatorKind::Goto { target, .. } => Ok(self.goto(st, *target)),
            TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                Ok(self.goto(st, *real_target))
            }
            TerminatorKind::Drop { place, target, .. } => {
                let pt = place.ty(&b.body.local_decls, self.tcx).ty;
                if let ty::Adt(d, _) = pt.kind()
                    && self.g.is_subject(d.did())
                    && self.tcx.adt_destructor(d.did()).is_some()
                {
                    return unsup("user destructor");
                }
                Ok(self.goto(st, *target))
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let v = self.operand(st, cond)?;
                let ok = match v {
                    Val::Int(Int::C(c), _) => (c != 0) == *expected,
                    _ => (st.choose(2)? == 1) == *expected,
                };
                if ok {
                    Ok(self.goto(st, *target))
                } else {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "index out of bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("arithmetic overflow ({op:?})"),
                        k => format!("{k:?}").split('(').next().unwrap_or("").to_string(),
                    };
                    let a = st.a.clone();
                    self.event(st, "panic", &m, &a);
                    Ok(Flow::End)
                }
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                let v = self.operand(st, discr)?;
                match v {
                    Val::Int(Int::C(c), t) => {
                        let u = if t.bits() < 128 { c & ((1i128 << t.bits()) - 1) } else { c };
                        let tg = targets.target_for_value(u as u128);
                        Ok(self.goto(st, tg))
                    }
                    Val::Int(i, t) => {
                        let mut ts: Vec<(i128, BasicBlock)> =
                            targets.iter().map(|(v, b)| (t.wrap(v as i128), b)).collect();
                        ts.sort();
                        let n = ts.len();
                        match &i {
                            Int::L { k, t: tm } => {
                                let mut cuts = vec![(i128::MIN, n)];
                                for (j, (v, _)) in ts.iter().enumerate() {
                                    if cuts.last().unwrap().0 == *v {
                                        cuts.pop();
                                    }
                                    cuts.push((*v, j));
                                    cuts.push((*v + 1, n));
                                }
                                let parts = self.classify(st, *k, tm, &cuts, n + 1);
                                for (j, d) in parts.into_iter().enumerate() {
                                    if d.is_empty() {
                                        continue;
                                    }
                                    let tg = if j == n { targets.otherwise() } else { ts[j].1 };
                                    let mut s = st.clone();
                                    s.a = Rc::new(d);
                                    self.moved(s, tg, work)?;
                                }
                                Ok(Flow::End)
                            }
                            Int::D { .. } => {
                                for (v, tg) in &ts {
                                    if self.compare(st, &i, &Int::C(*v))? == 1 {
                                        return Ok(self.goto(st, *tg));
                                    }
                                }
                                Ok(self.goto(st, targets.otherwise()))
                            }
                            _ => {
                                if t != Ity::Bool {
                                    self.note(st, "switch on an unknown integer");
                                }
                                let c = st.choose(n + 1)?;
                                let tg = if c == n { targets.otherwise() } else { ts[c].1 };
                                Ok(self.goto(st, tg))
                            }
                        }
                    }
                    v => unsup(format!("switch on {v:?}")),
                }
            }
            TerminatorKind::Return => {
                let v = st.frame().locals[0].clone();
                self.ret(st, v)
            }
            TerminatorKind::Unreachable => {
                let a = st.a.clone();
                self.event(st, "unreachable", "unreachable code reached", &a);
                Ok(Flow::End)
            }
            TerminatorKind::Call { func, args, fn_span, .. } => {
                let ft = func.ty(&b.body.local_decls, self.tcx);
                let mut av = vec![];
                for a in args.iter() {
                    av.push(self.operand(st, &a.node)?);
                }
                *self.g.calls.borrow_mut() += 1;
                match ft.kind() {
                    ty::FnDef(d, ga) => {
                        let ga = ga.no_bound_vars().unwrap_or_else(|| ga.skip_binder());
                        let ga = self.tcx.normalize_erasing_regions(env(), ty::Unnormalized::new_wip(ga));
                        let inst = match Instance::try_resolve(self.tcx, env(), *d, ga) {
                            Ok(Some(i)) => i,
                            _ => return unsup(format!("unresolved call to {}", self.g.name_of(*d))),
                        };
                        self.call(st, inst, av, *fn_span)
                    }
                    ty::FnPtr(..) => {
                        let f = self.operand(st, func)?;
                        let Val::Fn(k) = f else { return unsup("call of unknown function pointer") };
                        let i = self.g.fns.borrow()[k as usize];
                        if self.tcx.is_closure_like(i.def_id()) {
                            av = vec![Val::unit(), Val::adt(0, av)];
                        }
                        self.call(st, i, av, *fn_span)
                    }
                    _ => unsup("call"),
                }
            }
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => Ok(Flow::End),
            k => unsup(format!("terminator {k:?}")),
        }
    }
    fn moved(&mut self, mut s: State<'tcx>, tg: BasicBlock, work: &mut Vec<State<'tcx>>) -> R<()> {
        self.goto(&mut s, tg);
        let f = s.frame();
        if f.b.join[f.bb as usize] {
            self.arrive(s)
        } else {
            work.push(s);
            Ok(())
        }
    }
    /// Delivers the result of the current call terminator.
    pub fn finish_call(&mut self, st: &mut State<'tcx>, v: Val, join: bool) -> R<Flow> {
        let b = st.frame().b;
        let t = b.body.basic_blocks[BasicBlock::from_u32(st.frame().bb)].terminator();
        let TerminatorKind::Call { destination, target, .. } = &t.kind else {
            return unsup("return to a non-call");
        };
        let Some(target) = target else { return Ok(Flow::End) };
        self.assign(st, destination, v)?;
        self.goto(st, *target);
        Ok(Flow::Goto(join))
    }
    fn ret(&mut self, st: &mut State<'tcx>, v: Val) -> R<Flow> {
        let cur = st.cur;
        let fr = st.ths[cur].pop().unwrap();
        if st.ths[cur].is_empty() {
            if cur == 0 {
                self.returns.push((v, st.a.clone()));
                return Ok(Flow::End);
            }
            return self.lockstep_end(st);
        }
        self.finish_call(st, v, fr.b.branching)
    }
    fn lockstep_end(&mut self, st: &mut State<'tcx>) -> R<Flow> {
        let cur = st.cur;
        st.obs[cur - 1] = Some((-1, Val::unit()));
        self.switch(st)
    }

    pub fn push_frame(&mut self, st: &mut State<'tcx>, inst: Instance<'tcx>, mut args: Vec<Val>) -> R<Flow> {
        let b = self.g.body(inst)?;
        if st.ths[st.cur].len() > 60 {
            return unsup("call depth (recursion?)");
        }
        let n = b.body.arg_count;
        let untuple = |args: &mut Vec<Val>| -> R<()> {
            match args.pop() {
                Some(Val::Adt(0, f)) => args.extend(f.iter().cloned()),
                v => return unsup(format!("untupling {v:?}")),
            }
            Ok(())
        };
        let closure = matches!(inst.def, ty::InstanceKind::Item(d) if self.tcx.is_closure_like(d));
        if closure {
            untuple(&mut args)?;
        } else if let Some(sp) = b.body.spread_arg {
            if args.len() != n {
                let k = sp.index() - 1;
                let rest: Vec<Val> = args.split_off(k);
                args.push(Val::adt(0, rest));
            }
        } else if args.len() != n && !args.is_empty() {
            // "rust-call" to an ordinary function
            untuple(&mut args)?;
        }
        if args.len() != n {
            return unsup(format!("call arity of {}", b.name));
        }
        let mut locals = vec![Val::Undef; b.body.local_decls.len()];
        for (i, a) in args.into_iter().enumerate() {
            locals[i + 1] = a;
        }
        st.reset_choices();
        st.ths[st.cur].push(Rc::new(Frame { b, bb: 0, si: 0, locals }));
        Ok(Flow::Goto(false))
    }

    // -- joins --------------------------------------------------------------------------------

    fn arrive(&mut self, mut st: State<'tcx>) -> R<()> {
        self.joins += 1;
        st.reset_choices();
        // 1. forget dead locals
        let multi = st.ths.len() > 1;
        for (ti, th) in st.ths.iter_mut().enumerate() {
            let n = th.len();
            for (i, f) in th.iter_mut().enumerate() {
                let b = f.b;
                // the main thread waits in a call while others run
                let bb = if i + 1 == n && !(ti == 0 && multi) {
                    f.bb as usize
                } else {
                    let t = b.body.basic_blocks[BasicBlock::from_u32(f.bb)].terminator();
                    match &t.kind {
                        TerminatorKind::Call { target: Some(t), .. } => t.index(),
                        _ => f.bb as usize,
                    }
                };
                let kill: Vec<usize> = (0..f.locals.len())
                    .filter(|&l| f.locals[l] != Val::Undef && !b.live[bb][l] && !b.borrowed[l])
                    .collect();
                if !kill.is_empty() {
                    let f = Rc::make_mut(f);
                    for l in kill {
                        f.locals[l] = Val::Undef;
                    }
                }
            }
        }
        let top = st.frame();
        let head = top.b.head[top.bb as usize];
        if head {
            self.generalise(&mut st)?;
        }
        // 2. canonical markers
        let mut map = [255u8; 64];
        for i in 0..self.fixed as usize {
            map[i] = i as u8;
        }
        let mut next = self.fixed as u8;
        let mut used: Marks = (1 << self.fixed) - 1;
        {
            let mut see = |m: &mut Mk| {
                if *m == ORIGIN {
                    return;
                }
                used |= 1 << *m;
                if map[*m as usize] == 255 {
                    map[*m as usize] = next;
                    next += 1;
                }
                *m = map[*m as usize];
            };
            st.each_val(&mut |v| {
                if v.has_marks() {
                    v.marks(&mut see);
                }
            });
        }
        let all = st.a.used_marks();
        let drop = all & !used;
        let mut a = if drop != 0 { st.a.project(drop) } else { (*st.a).clone() };
        let ident = (0..64).all(|i| all >> i & 1 == 0 || used >> i & 1 == 0 || map[i] == i as u8);
        if !ident {
            for (i, m) in map.iter_mut().enumerate() {
                if *m == 255 {
                    *m = if i < 63 { 63 } else { 62 };
                }
            }
            a = a.rename(&map);
        }
        let key = st.key();
        let frames: Vec<Vec<&'tcx BodyInfo<'tcx>>> =
            st.ths.iter().map(|t| t.iter().map(|f| f.b).collect()).collect();
        let sig: Vec<(u32, u32)> = st.ths.iter().flat_map(|t| t.iter().map(|f| (f.b.id, f.bb))).collect();
        let fixed_marks: Marks = (1 << self.fixed) - 1;
        if head && std::env::var("LT_DBG").is_ok() {
            eprintln!("HEAD next {next} cur {} {:?}", key.cur, key.ths);
        }
        if let Some(out) = &mut self.stream
            && head
            && key.ths.len() == 1
            && next as u32 == self.fixed + 1
        {
            if self.reached.is_none() {
                out.push((Start { key, frames }, a));
            }
            return Ok(());
        }
        if self.reached.is_some() {
            return self.step_to(key, a);
        }
        if head {
            let proj = a.project(!fixed_marks);
            let e = self.entry_tr.entry(sig.clone()).or_insert_with(Dfa::empty);
            if e.is_empty() {
                *e = proj;
            } else {
                let u = e.union(&proj);
                if u != *e {
                    *e = u;
                }
            }
        }
        // what the loop does not change, with the markers it mentions
        let mut inv: Option<((Vec<(u32, u32)>, Vec<Val>), Vec<Mk>)> = None;
        if head && self.opts.invariants && key.ths.len() == 1 {
            let (vals, marks) = st.invariants(self.fixed);
            let ik = (sig.clone(), vals);
            let mut keep = fixed_marks;
            let mut map = [63u8; 64];
            for i in 0..self.fixed as usize {
                map[i] = i as u8;
            }
            for (i, m) in marks.iter().enumerate() {
                keep |= 1 << *m;
                map[*m as usize] = self.fixed as u8 + i as u8;
            }
            let e = self.inv_tr.entry(ik.clone()).or_insert_with(|| (Dfa::empty(), 0));
            if e.1 <= self.opts.inv_growth {
                let proj = a.project(!keep).rename(&map);
                let u = if e.0.is_empty() { proj } else { e.0.union(&proj) };
                if u != e.0 {
                    e.0 = u;
                    e.1 += 1;
                }
            }
            inv = Some((ik, marks));
        }
        let id = match self.entries.get(&key) {
            Some(&id) => {
                if let Some(s) = self.src {
                    self.edges.insert((s, id));
                }
                let e = &self.ent[id];
                let mut u = e.a.union(&a);
                if u == *e.a {
                    return Ok(());
                }
                if head && self.opts.exact.is_none() && e.visits >= self.opts.widen_after {
                    let tr = &self.entry_tr[&sig];
                    let a0 = self.a0.clone();
                    let mut trs: Vec<(&Dfa, Marks)> = vec![(&*a0, fixed_marks), (tr, fixed_marks)];
                    let renamed: Dfa;
                    if let Some((ik, marks)) = &inv
                        && let Some((d, n)) = self.inv_tr.get(ik)
                        && *n <= self.opts.inv_growth
                    {
                        let mut map = [63u8; 64];
                        let mut keep = fixed_marks;
                        for i in 0..self.fixed as usize {
                            map[i] = i as u8;
                        }
                        for (i, m) in marks.iter().enumerate() {
                            map[self.fixed as usize + i] = *m;
                            keep |= 1 << *m;
                        }
                        renamed = d.rename(&map);
                        trs.push((&renamed, keep));
                    }
                    let extra = self.trackers.clone();
                    for t in &extra {
                        trs.push((t, fixed_marks));
                    }
                    let q = quotient(&u, &trs, self.opts.cap, self.opts.window);
                    u = q;
                }
                let e = &mut self.ent[id];
                if u == *e.a {
                    return Ok(());
                }
                e.a = Rc::new(u);
                e.visits += 1;
                id
            }
            None => {
                let id = self.ent.len();
                if let Some(s) = self.src {
                    self.edges.insert((s, id));
                }
                self.entries.insert(key.clone(), id);
                self.ent.push(Entry { frames, key, a: Rc::new(a), visits: 0 });
                id
            }
        };
        if self.ent.len() > 200_000 {
            return unsup("too many abstract states");
        }
        if self.g.verbose && self.joins % 500 == 0 {
            eprintln!(
                "  joins {} entries {} queue {} steps {} |a|={} at {}",
                self.joins,
                self.ent.len(),
                self.queue.len(),
                self.steps,
                self.ent[id].a.len(),
                self.where_(&st)
            );
        }
        let prio: Vec<u32> = st
            .ths
            .iter()
            .flat_map(|t| t.iter().map(|f| f.b.order[f.bb as usize]))
            .collect();
        self.queue.insert((prio, id));
        Ok(())
    }

    /// Loop head: positions with offsets become markers; varying constants too.
    fn generalise(&mut self, st: &mut State<'tcx>) -> R<()> {
        // offsets
        let mut pend: Vec<Pe> = vec![];
        st.each_val(&mut |v| {
            if v.has_marks() {
                offsets(v, &mut |p| {
                    if !pend.contains(p) {
                        pend.push(*p);
                    }
                });
            }
        });
        if !pend.is_empty() {
            let mut to = vec![];
            for p in &pend {
                to.push(st.mat(*p));
            }
            st.each_val(&mut |v| {
                if v.has_marks() {
                    offsets(v, &mut |p| {
                        if let Some(i) = pend.iter().position(|q| q == p) {
                            *p = Pe { m: to[i], k: 0 };
                        }
                    });
                }
            });
        }
        // constants; an index is taken relative to the one text its frame works on
        let bases: Vec<Pe> = st.slot_bases();
        let mut vals: Vec<i64> = vec![];
        let mut abs: Vec<Pe> = vec![];
        let mut is_int: Vec<bool> = vec![];
        let mut sk = st.clone();
        {
            let mut fi = 0;
            sk.each_frame(&mut |vs| {
                let base = bases.get(fi).copied().unwrap_or(Pe::c(0));
                fi += 1;
                for v in vs {
                    // a count kept by a closure that is called for each element of the text left
                    let count = matches!(v, Val::Adt(..));
                    slots(v, None, &mut |own, s| match s {
                        Slot::Int(i) => {
                            if let Int::C(c) = i {
                                vals.push(*c as i64);
                                is_int.push(true);
                                let c = *c as i64;
                                let count = count && own.is_none() && c > 0 && c <= base.k;
                                abs.push(if count { base } else { own.unwrap_or(base).add(c) });
                                *i = Int::C(-7777);
                            }
                        }
                        Slot::Pe(p) => {
                            vals.push(p.k);
                            is_int.push(false);
                            abs.push(Pe::c(p.k));
                            p.k = -7777;
                        }
                    })
                }
            });
        }
        if vals.is_empty() {
            return Ok(());
        }
        // canonical markers in the skeleton
        let mut map = [255u8; 64];
        let own = self.fixed - self.shadow;
        for i in 0..own as usize {
            map[i] = i as u8;
        }
        let mut next = own as u8;
        sk.each_val(&mut |v| {
            v.marks(&mut |m| {
                if *m != ORIGIN {
                    if map[*m as usize] == 255 {
                        map[*m as usize] = next;
                        next += 1;
                    }
                    *m = map[*m as usize];
                }
            })
        });
        let mut key = sk.key();
        let mut thr = self.opts.const_thr;
        if self.opts.exact.is_some() && self.stream.is_none() {
            return Ok(());
        }
        if self.stream.is_some() {
            // any second visit of the loop with other positions
            let n = vals.len() as i64;
            for t in key.ths.iter_mut() {
                for f in t.iter_mut() {
                    f.2.clear();
                }
                t.push((u32::MAX, n as u32, vec![]));
            }
            key.obs.clear();
            key.log.clear();
            thr = 1;
        }
        let e = self.skels.entry(key).or_insert_with(|| Skel {
            seen: BTreeSet::new(),
            mat: vec![false; vals.len()],
            rel: HashMap::new(),
            follows: vec![false; vals.len()],
        });
        if e.seen.insert(vals.clone()) {
            // distances between the markers of this state, by canonical name
            let mut dist: Option<Vec<(Mk, Mk, i64)>> = None;
            for i in 0..vals.len() {
                if !is_int[i] || self.opts.unrelated {
                    continue;
                }
                let mut others = vals.clone();
                others[i] = 0;
                let key = (i, others);
                if vals[i] < 0 || vals[i] > 16 {
                    e.rel.insert(key, (vals[i], true, vec![]));
                    continue;
                }
                if e.rel.get(&key).is_some_and(|r| r.2.is_empty() || r.0 == vals[i]) {
                    continue;
                }
                let ds = dist.get_or_insert_with(|| {
                    let ms: Vec<Mk> = (self.fixed as u8..63).filter(|m| map[*m as usize] != 255).collect();
                    let mut v = vec![];
                    for &x in &ms {
                        for y in ms.iter().copied().chain([ORIGIN]) {
                            if x != y
                                && let Some(d) = const_distance(&st.a, y, x, 16)
                                && d >= 0
                            {
                                v.push((map[x as usize], if y == ORIGIN { ORIGIN } else { map[y as usize] }, d));
                            }
                        }
                    }
                    v
                });
                let now = |p: &Mk, m: &Mk, k: i64| ds.iter().any(|d| d.0 == *p && d.1 == *m && d.2 - k == vals[i]);
                match e.rel.get_mut(&key) {
                    None => {
                        let l = ds.iter().filter(|d| d.2 >= vals[i]).map(|d| (d.0, d.1, d.2 - vals[i])).collect();
                        e.rel.insert(key, (vals[i], false, l));
                    }
                    Some((_, v, l)) => {
                        *v = true;
                        l.retain(|(p, m, k)| now(p, m, *k));
                        e.follows[i] |= !l.is_empty();
                    }
                }
            }
        }
        if e.seen.len() > thr {
            for i in 0..vals.len() {
                if e.seen.iter().any(|v| v[i] != vals[i]) {
                    e.mat[i] = true;
                }
            }
            if e.seen.len() > 64 {
                e.seen = e.seen.iter().take(8).cloned().collect();
            }
        }
        let mat = e.mat.clone();
        if !mat.iter().any(|b| *b) {
            return Ok(());
        }
        let back = |c: Mk| -> Mk {
            if c == ORIGIN { ORIGIN } else { (0..63u8).find(|m| map[*m as usize] == c).unwrap() }
        };
        let rel: Vec<Option<(Mk, Mk, i64)>> = (0..vals.len())
            .map(|i| {
                let mut others = vals.clone();
                others[i] = 0;
                match e.rel.get(&(i, others)) {
                    Some((_, true, l)) if mat[i] && is_int[i] => {
                        l.iter().min_by_key(|(_, _, k)| *k).map(|(p, m, k)| (back(*p), back(*m), *k))
                    }
                    _ => None,
                }
            })
            .collect();
        // such a constant is related to the position once the others are generalised
        let wait: Vec<bool> = (0..vals.len())
            .map(|i| e.follows[i] && rel[i].is_none() && vals[i] <= 16 && (0..vals.len()).any(|j| j != i && mat[j] && !e.follows[j]))
            .collect();
        let mat: Vec<bool> = (0..vals.len()).map(|i| mat[i] && !wait[i]).collect();
        let rel: Vec<Option<(Mk, Mk)>> = rel
            .into_iter()
            .enumerate()
            .map(|(i, r)| {
                let (p, m, k) = r?;
                if const_distance(&st.a, m, p, 16) != Some(vals[i] + k) {
                    return None;
                }
                let m = if k == 0 { m } else { st.mat(Pe { m, k }) };
                Some((p, m))
            })
            .collect();
        if std::env::var("LT_DBG").is_ok() {
            eprintln!("GENERALISE {} vals {vals:?} abs {abs:?} mat {mat:?} rel {rel:?} {:?}", self.where_(st), st.ths[0].iter().map(|f| f.locals.iter().filter(|v| **v != Val::Undef).collect::<Vec<_>>()).collect::<Vec<_>>());
        }
        let mut marks: FxMap<Pe, Mk> = Default::default();
        for (i, m) in mat.iter().enumerate() {
            if *m && vals[i] >= 0 && rel[i].is_none() && !marks.contains_key(&abs[i]) {
                let x = st.mat(abs[i]);
                marks.insert(abs[i], x);
            }
        }
        let mut i = 0;
        st.each_frame(&mut |vs| {
            for v in vs {
                slots(v, None, &mut |_, s| {
                    if let (Some((p, m)), Slot::Int(_)) = (rel[i], &s) {
                        if let Slot::Int(n) = s {
                            *n = mk_d(p, m, 0);
                        }
                    } else if mat[i] && vals[i] >= 0 {
                        let x = marks[&abs[i]];
                        match s {
                            Slot::Int(n) => {
                                let base = abs[i].add(-vals[i]);
                                *n = if base.m == ORIGIN
                                    && base.k != 0
                                    && let Some(b) = marks.get(&base)
                                {
                                    mk_d(x, *b, 0)
                                } else {
                                    mk_d(x, base.m, -base.k)
                                };
                            }
                            Slot::Pe(p) => *p = Pe { m: x, k: 0 },
                        }
                    }
                    i += 1;
                })
            }
        });
        Ok(())
    }
}

pub fn mk_d(p: Mk, m: Mk, k: i64) -> Int {
    if p == m { Int::C(k as i128) } else { Int::D { p, m, k } }
}
pub fn mk_l(k0: i128, t: Vec<Term>) -> Int {
    let mut k = k0;
    let mut o: Vec<Term> = vec![];
    for t in t {
        let b = track_bytes(t.track as usize);
        let c = t.tab[b[0] as usize];
        if b.iter().all(|x| t.tab[*x as usize] == c) {
            k += c;
        } else {
            o.push(t);
        }
    }
    let t = o;
    if t.is_empty() { Int::C(k) } else { Int::L { k, t: Rc::new(t) } }
}

/// The entry of a table of constants that a letter selects, as a function of the letter.
fn table_at(f: &[Val], i: &Int) -> Option<Val> {
    let Int::L { k, t } = i else { return None };
    let [t] = &t[..] else { return None };
    let Val::Int(_, ty) = f.first()? else { return None };
    let mut c = vec![];
    for v in f {
        let Val::Int(Int::C(x), _) = v else { return None };
        c.push(*x);
    }
    let tab = t.tab.iter().map(|v| usize::try_from(v + k).ok().and_then(|j| c.get(j)).copied().unwrap_or(0)).collect();
    Some(Val::Int(mk_l(0, vec![Term { tab: Rc::new(tab), ..t.clone() }]), *ty))
}

/// The value inside single-field wrappers.
pub fn peel(v: &Val) -> &Val {
    match v {
        Val::Adt(_, f) if f.len() == 1 => peel(&f[0]),
        v => v,
    }
}
