//! Analysis of the harness: one abstract interpretation per entry point.
use crate::auto::*;
use crate::interp::*;
use crate::spec;
use crate::val::*;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{Operand, TerminatorKind};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn list(v: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", v.into_iter().collect::<Vec<_>>().join(","))
}

/// RFC 5646: any letter or digit but `x`.
fn spec_singleton(b: u8) -> bool {
    b.is_ascii_alphanumeric() && b != b'x' && b != b'X'
}

fn is_entry(tcx: TyCtxt<'_>, d: DefId) -> bool {
    matches!(tcx.def_kind(d), DefKind::Fn)
        && tcx.visibility(d).is_public()
        && tcx.generics_of(d).own_requires_monomorphization() == false
        && tcx.generics_of(d).parent.is_none()
}

/// A value of a parameter type, with the tracks it introduces.
struct Params<'g, 'tcx> {
    g: &'g Global<'tcx>,
    tracks: Vec<Tr>,
    loose: bool,
    /// the value of the letter parameter, when case-split
    split: Option<u8>,
}
struct Tr {
    name: String,
    lang: String,
    valid: Option<String>,
    bytes: Vec<u8>,
}
fn tag_bytes() -> Vec<u8> {
    (0..=255u8).filter(|b| b.is_ascii_alphanumeric() || *b == b'-').collect()
}
impl<'g, 'tcx> Params<'g, 'tcx> {
    fn track(&mut self, lang: &str) -> Sl {
        let t = self.tracks.len();
        let tag = spec::is_tag_text(lang);
        let (l, valid) = if self.loose && tag {
            ("TagText".to_string(), Some(lang.to_string()))
        } else {
            (lang.to_string(), None)
        };
        self.tracks.push(Tr {
            name: format!("arg{}", t + 1),
            lang: l,
            valid,
            bytes: if tag { tag_bytes() } else { (0..=255).collect() },
        });
        Sl { src: Src::Track(t as u8), lo: Pe::c(0), hi: Pe { m: t as u8, k: 0 } }
    }
    fn letter(&mut self, lang: &str) -> Int {
        let s = self.track(lang);
        let Src::Track(t) = s.src else { unreachable!() };
        let tab: Vec<i128> = (0..256).collect();
        Int::L { k: 0, t: Rc::new(vec![Term { p: Pe::c(0), track: t, tab: Rc::new(tab) }]) }
    }
    fn value(&mut self, t: Ty<'tcx>) -> Result<Val, String> {
        let tcx = self.g.tcx;
        let u8s = |t: Ty<'tcx>| matches!(t.kind(), ty::Slice(e) if *e == tcx.types.u8);
        if let Some(n) = self.g.owned_newtype(t) {
            return Ok(Val::adt(0, vec![Val::Sl(self.track(&n))]));
        }
        if self.g.is_singleton(t) {
            let l = match self.split {
                Some(b) => Int::C(b as i128),
                None => self.letter("Singleton"),
            };
            return Ok(Val::adt(0, vec![Val::Int(l, Ity::U(8))]));
        }
        match t.kind() {
            ty::Ref(_, p, _) => {
                if let Some(n) = self.g.newtype(*p) {
                    return Ok(Val::Sl(self.track(&n)));
                }
                if p.is_str() {
                    return Ok(Val::Sl(self.track("Utf8")));
                }
                if u8s(*p) {
                    return Ok(Val::Sl(self.track("Any")));
                }
                let v = self.value(*p)?;
                Ok(match v {
                    Val::Sl(_) => v,
                    v => Val::RefV(Rc::new(v)),
                })
            }
            ty::Uint(ty::UintTy::U8) => Ok(Val::Int(self.letter("Byte"), Ity::U(8))),
            ty::Bool => Err("bool parameter".into()),
            ty::Tuple(ts) => {
                let mut v = vec![];
                for t in ts.iter() {
                    v.push(self.value(t)?);
                }
                Ok(Val::adt(0, v))
            }
            ty::Adt(d, _) => {
                let n = self.g.name_of(d.did());
                match &*n {
                    "alloc::string::String" => Ok(Val::Sl(self.track("Utf8"))),
                    "alloc::vec::Vec" => Ok(Val::Sl(self.track("Any"))),
                    _ => Err(format!("parameter of type {t}")),
                }
            }
            _ => Err(format!("parameter of type {t}")),
        }
    }
}

/// Component names used by a harness function.
fn captures<'tcx>(g: &Global<'tcx>, d: DefId) -> Vec<String> {
    let tcx = g.tcx;
    let mut out = vec![];
    let mut todo = vec![d];
    let mut seen = std::collections::HashSet::new();
    while let Some(d) = todo.pop() {
        if !seen.insert(d) || !tcx.is_mir_available(d) {
            continue;
        }
        let body = tcx.optimized_mir(d);
        for b in body.basic_blocks.iter() {
            if let TerminatorKind::Call { func, args, .. } = &b.terminator().kind {
                let Some((f, _)) = func.const_fn_def() else { continue };
                let n = g.name_of(f);
                if &*n == "lt_harness::lt::capture" {
                    if let Operand::Constant(c) = &args[0].node
                        && let Ok(v) = c.const_.eval(tcx, env(), c.span)
                        && let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx)
                    {
                        out.push(String::from_utf8_lossy(b).into_owned());
                    }
                } else if tcx.crate_name(f.krate).as_str() == "lt_harness" {
                    todo.push(f);
                }
            }
            for s in &b.statements {
                if let rustc_middle::mir::StatementKind::Assign(a) = &s.kind
                    && let rustc_middle::mir::Rvalue::Aggregate(k, _) = &a.1
                    && let rustc_middle::mir::AggregateKind::Closure(c, _) = **k
                {
                    todo.push(c);
                }
            }
        }
    }
    out.sort();
    out.dedup();
    out
}

pub struct Res {
    pub name: String,
    pub status: &'static str,
    pub err: String,
    pub events: Vec<Event>,
    pub checks: BTreeMap<String, u64>,
    pub steps: u64,
    pub joins: u64,
    pub entries: usize,
    pub obligations: u64,
    pub returns: usize,
    pub imprecise: Vec<String>,
    pub strategy: usize,
    pub secs: f64,
    pub extra: String,
    pub analysed: Vec<String>,
    pub calls: u64,
}

fn blank(name: String, strategy: usize) -> Res {
    Res {
        name,
        status: "unsupported",
        err: String::new(),
        events: vec![],
        checks: Default::default(),
        steps: 0,
        joins: 0,
        entries: 0,
        obligations: 0,
        returns: 0,
        imprecise: vec![],
        strategy,
        secs: 0.0,
        extra: String::new(),
        analysed: vec![],
        calls: 0,
    }
}

/// Compares the recognisers of the subject's grammar module with the grammar they are named after.
fn grammar<'tcx>(g: &Global<'tcx>) -> Vec<Res> {
    let tcx = g.tcx;
    let fail = |m: String| {
        let mut r = blank("c22".into(), 0);
        r.err = m;
        vec![r]
    };
    let Some(root) = tcx.crates(()).iter().find(|c| tcx.crate_name(**c).as_str() == "langtag") else {
        return fail("the crate is not there".into());
    };
    let kids = |d: DefId| tcx.module_children(d).iter().filter_map(|c| Some((c.ident.name.to_string(), c.res.opt_def_id()?))).collect::<Vec<_>>();
    let Some((_, m)) = kids(root.as_def_id()).into_iter().find(|k| k.0 == "grammar") else {
        return fail("no grammar module".into());
    };
    // the grammar lies beside the crate's root
    let dir = match tcx.sess.source_map().span_to_filename(tcx.def_span(root.as_def_id())) {
        rustc_span::FileName::Real(f) => f.local_path().and_then(|p| p.parent().map(|p| p.to_path_buf())),
        _ => None,
    };
    let mut files: Vec<_> = dir
        .iter()
        .flat_map(|d| std::fs::read_dir(d).into_iter().flatten().flatten())
        .map(|e| e.path())
        .filter(|p| p.extension().is_some_and(|e| e == "abnf"))
        .collect();
    files.sort();
    if files.len() != 1 {
        return fail(format!("{} grammar files beside the crate root {dir:?}", files.len()));
    }
    let src = files[0].display().to_string();
    let gr = match std::fs::read_to_string(&src).map_err(|e| e.to_string()).and_then(|s| crate::abnf::Grammar::parse(&s)) {
        Ok(g) => g,
        Err(e) => return fail(format!("{src}: {e}")),
    };
    let mut out = vec![];
    for (n, d) in kids(m) {
        if !matches!(tcx.def_kind(d), DefKind::Struct) {
            continue;
        }
        let Some(f) = tcx.inherent_impls(d).iter().flat_map(|i| tcx.associated_item_def_ids(*i)).copied().find(|f| {
            tcx.item_name(*f).as_str() == "validate_bytes"
        }) else {
            continue;
        };
        let t0 = Instant::now();
        let mut r = blank(format!("c22::{n}"), 0);
        set_alpha(vec![TrackAlpha { bytes: (0..=255).collect() }]);
        let a0 = Rc::new(spec::track_dfa(&spec::re("Utf8").unwrap(), 0, &|_| None));
        let mut it = Interp::new(g, vec![TrackCfg { name: "text".into(), bytes: (0..=255).collect(), valid: None, ascii: false }]);
        it.a0 = a0.clone();
        g.analysed.borrow_mut().clear();
        *g.calls.borrow_mut() = 0;
        let arg = Ty::new_imm_ref(tcx, tcx.lifetimes.re_erased, Ty::new_slice(tcx, tcx.types.u8));
        let s = match it.summary(Instance::mono(tcx, f), arg) {
            Ok(Some(s)) => s,
            _ => {
                r.err = format!(
                    "the language of {n} could not be computed: {}",
                    g.summaries.borrow().values().filter_map(|s| s.err.clone()).next().unwrap_or_default()
                );
                out.push(r);
                continue;
            }
        };
        r.analysed = g.analysed.borrow().iter().cloned().collect();
        r.analysed.push(tcx.def_path_str(f));
        r.calls = *g.calls.borrow();
        let want = match gr.re(&n) {
            Ok(re) => Rc::new(spec::lang(&n, &re)),
            Err(e) => {
                r.err = e;
                out.push(r);
                continue;
            }
        };
        let (lo, hi) = (Pe::c(0), Pe { m: 0, k: 0 });
        let acc = it.in_lang_parts(&a0, 0, lo, hi, &s.t);
        let gen_ = it.in_lang_parts(&a0, 0, lo, hi, &want);
        for (label, bad) in [
            ("the recogniser accepts what the grammar does not generate", acc[0].intersect(&gen_[1])),
            ("the recogniser rejects what the grammar generates", acc[1].intersect(&gen_[0])),
        ] {
            *r.checks.entry(label.to_string()).or_insert(0) += 1;
            r.obligations += 1;
            if let Some(w) = bad.witness() {
                r.events.push(Event {
                    kind: "check".into(),
                    detail: label.into(),
                    func: tcx.def_path_str(f),
                    span: format!("{} and {src}", tcx.sess.source_map().span_to_diagnostic_string(tcx.def_span(f))),
                    stack: vec![],
                    witness: show_witness(&w),
                    class: String::new(),
                    word: vec![],
                });
            }
        }
        r.steps = s.nstates as u64;
        r.status = if r.events.is_empty() { "ok" } else { "violation" };
        r.secs = t0.elapsed().as_secs_f64();
        out.push(r);
    }
    // what the crate exports but no recogniser stands for is only used inside other rules
    let _ = gr.names();
    out
}

/// Which inputs an analysis is about.
enum Scope {
    All,
    Words(Vec<Vec<Vec<u8>>>),
    UpTo(usize),
}

fn one<'tcx>(g: &Global<'tcx>, d: DefId, name: &str, split: Option<u8>, strategy: usize, budget: u64, cpu: f64, scope: &Scope) -> Res {
    let t0 = Instant::now();
    let tcx = g.tcx;
    let mut r = blank(
        match split {
            Some(b) => format!("{name}[{}]", b as char),
            None => name.to_string(),
        },
        strategy,
    );

    let last = name.rsplit("::").next().unwrap();
    let rel = last.starts_with("rel_");
    let loose = (last.starts_with("loose_") || rel) != (strategy >= 100);
    let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
    let sig = tcx.erase_and_anonymize_regions(tcx.instantiate_bound_regions_with_erased(sig));
    let mut p = Params { g, tracks: vec![], loose, split };
    let mut args = vec![];
    for t in sig.inputs() {
        match p.value(*t) {
            Ok(v) => args.push(v),
            Err(e) => {
                r.err = e;
                return r;
            }
        }
    }
    if p.tracks.is_empty() {
        // a dummy track
        p.tracks.push(Tr { name: "-".into(), lang: "Empty".into(), valid: None, bytes: vec![b'a'] });
    }
    let nt = p.tracks.len();
    set_alpha(p.tracks.iter().map(|t| TrackAlpha { bytes: t.bytes.clone() }).collect());
    let caps = captures(g, d);
    let mut ghosts: Vec<(String, Mk, Mk)> = vec![];
    for c in &caps {
        let k = (nt + 2 * ghosts.len()) as Mk;
        ghosts.push((c.clone(), k, k + 1));
    }
    let mut a0: Option<Dfa> = None;
    for (i, t) in p.tracks.iter().enumerate() {
        let Some(re) = spec::re(&t.lang) else {
            r.err = format!("no specification of {}", t.lang);
            return r;
        };
        let gh = &ghosts;
        let cf = |n: &str| -> Option<(Mk, Mk)> {
            if i != 0 {
                return None;
            }
            gh.iter().find(|g| g.0 == n).map(|g| (g.1, g.2))
        };
        let x = spec::track_dfa(&re, i, &cf);
        a0 = Some(match a0 {
            None => x,
            Some(a) => spec::sync_product(&a, &x),
        });
    }
    let tracks = p
        .tracks
        .iter()
        .map(|t| TrackCfg {
            name: t.name.clone(),
            bytes: t.bytes.clone(),
            valid: t.valid.as_ref().map(|v| g.lang(v).unwrap()),
            ascii: spec::is_tag_text(&t.lang),
        })
        .collect();
    let mut it = Interp::new(g, tracks);
    it.fixed = (nt + 2 * ghosts.len()) as u32;
    it.ghosts = ghosts;
    let mut a0 = a0.unwrap();
    match scope {
        Scope::All => {}
        Scope::Words(w) => {
            a0 = spec::sync_product(&a0, &words_dfa(w));
            it.opts.exact = Some(w.iter().flatten().map(|w| w.len()).max().unwrap_or(0));
        }
        Scope::UpTo(k) => {
            a0 = spec::sync_product(&a0, &short_dfa(*k));
            it.opts.exact = Some(*k);
        }
    }
    it.a0 = Rc::new(a0);
    it.opts.step_limit = budget;
    it.opts.cpu = cpu;
    it.opts.rank = std::env::var("LT_RANK").is_ok();
    match strategy % 100 {
        0 => {}
        1 => it.opts.const_thr = 12,
        2 => it.opts.const_thr = 64,
        3 => it.opts.widen_after = 6,
        5 => it.opts.unrelated = true,
        _ => {}
    }
    let inst = Instance::mono(tcx, d);
    let res = it.run(inst, args);
    r.events = std::mem::take(&mut it.events);
    r.checks = std::mem::take(&mut it.checks);
    r.steps = it.steps;
    r.joins = it.joins;
    r.entries = it.ent.len();
    r.obligations = it.obligations;
    r.returns = it.returns.len();
    r.imprecise = it.imprecise.iter().cloned().collect();
    let mut res = res;
    if it.opts.rank {
        // only termination is judged
        r.events.clear();
        r.checks.clear();
        r.obligations = 0;
        let mut done = it.lost.clone();
        for (_, a) in &it.returns {
            done = done.union(&a.project(!0));
        }
        if res.is_ok() {
            let endless = it.a0.project(!0).minus(&done);
            r.obligations += 1;
            *r.checks.entry("the end is reached on every input".to_string()).or_insert(0) += 1;
            if let Some(w) = endless.witness() {
                let at = it.stuck(&endless);
                r.events.push(Event {
                    kind: "endless".into(),
                    detail: format!("never ends{}", if at.0.is_empty() { String::new() } else { format!(": goes round a loop in {}", at.0) }),
                    func: at.1,
                    span: at.2,
                    stack: vec![],
                    witness: show_witness(&w),
                    class: String::new(),
                    word: word_of(&w),
                });
            } else if it.opts.exact.is_none() {
                match it.endless.take() {
                    Some(e) => res = Err(Stop::Unsupported(e)),
                    None => match it.rank() {
                        Ok(l) => {
                            for l in l {
                                r.obligations += 1;
                                *r.checks.entry(format!("loop at {l} ends")).or_insert(0) += 1;
                            }
                        }
                        Err(e) => res = Err(Stop::Unsupported(e)),
                    },
                }
            }
        }
    }
    let rel = rel && !it.opts.rank;
    if rel && res.is_ok() && r.events.is_empty() {
        let a0 = it.a0.clone();
        let valid: Vec<Option<Dfa>> = p
            .tracks
            .iter()
            .enumerate()
            .map(|(i, t)| t.valid.as_ref().map(|v| spec::track_dfa(&spec::re(v).unwrap(), i, &|_| None)))
            .collect();
        match relations(&it.returns, &a0, &valid) {
            Ok(v) => {
                for (label, bad) in v {
                    *r.checks.entry(label.to_string()).or_insert(0) += 1;
                    r.obligations += 1;
                    if let Some(w) = bad.witness() {
                        r.events.push(Event {
                            kind: "check".into(),
                            detail: label.into(),
                            func: name.to_string(),
                            span: tcx.sess.source_map().span_to_diagnostic_string(tcx.def_span(d)),
                            stack: g.analysed.borrow().iter().filter(|n| n.contains("langtag::")).cloned().collect(),
                            witness: show_witness(&w),
                            class: String::new(),
                            word: vec![],
                        });
                    }
                }
            }
            Err(e) => res = Err(Stop::Unsupported(e)),
        }
    }
    match res {
        Ok(()) => r.status = if r.events.is_empty() { "ok" } else { "violation" },
        Err(Stop::Unsupported(m)) => r.err = m,
        Err(_) => r.err = "internal: stray fork".into(),
    }
    r.secs = t0.elapsed().as_secs_f64();
    r
}

/// The relation computed by a comparison, one automaton over pairs of texts per result; what is
/// wrong with it as an order, as sets of pairs.
fn relations(
    returns: &[(Val, Rc<Dfa>)],
    a0: &Dfa,
    valid: &[Option<Dfa>],
) -> Result<Vec<(&'static str, Dfa)>, String> {
    let mut rel = [Dfa::empty(), Dfa::empty(), Dfa::empty()];
    for (v, a) in returns {
        match v {
            Val::Adt(i, f) if *i < 3 && f.is_empty() => {
                let p = a.project(!0);
                rel[*i as usize] = rel[*i as usize].union(&p);
            }
            _ => return Err(format!("result of the comparison: {v:?}")),
        }
    }
    let dom = a0.project(!0);
    let (l, e, g) = (&rel[0], &rel[1], &rel[2]);
    for (x, y) in [(l, e), (l, g), (e, g)] {
        if !x.intersect(y).is_empty() {
            return Err("the results of the comparison could not be told apart".into());
        }
    }
    let all = l.union(e).union(g);
    let fold = |x: Option<u8>| x.map(|b| b.to_ascii_lowercase());
    let fe = Dfa { acc: vec![true], tr: vec![vec![(0, pred_ls(|x| fold(x[0]) == fold(x[1])), 0)]] };
    let fe = minimize(fe.acc, fe.tr, 0).intersect(&dom);
    let le = l.union(e);
    let diff = |a: &Dfa, b: &Dfa| a.minus(b).union(&b.minus(a));
    let mut out = vec![
        ("every pair has an order", dom.minus(&all)),
        ("antisymmetric: less one way is greater the other way", diff(&l.swap(), g)),
        ("equal is symmetric", diff(&e.swap(), e)),
        ("Equal is equality of texts up to case", diff(e, &fe)),
        ("transitive", le.compose(&le).minus(&le)),
    ];
    for o in out.iter_mut() {
        for v in valid.iter().flatten() {
            o.1 = o.1.intersect(&v.project(!0));
        }
    }
    Ok(out)
}

fn json(r: &Res) -> String {
    let ev = list(r.events.iter().map(|e| {
        format!(
            "{{\"kind\":{},\"detail\":{},\"func\":{},\"span\":{},\"stack\":{},\"witness\":{},\"class\":{}}}",
            esc(&e.kind),
            esc(&e.detail),
            esc(&e.func),
            esc(&e.span),
            list(e.stack.iter().map(|s| esc(s))),
            list(e.witness.iter().map(|s| esc(s))),
            esc(&e.class)
        )
    }));
    format!(
        "{{\"name\":{},\"status\":{},\"err\":{},\"events\":{},\"checks\":{{{}}},\"steps\":{},\"joins\":{},\"entries\":{},\"obligations\":{},\"returns\":{},\"imprecise\":{},\"strategy\":{},\"secs\":{:.2},\"extra\":{},\"analysed\":{},\"calls\":{}}}",
        esc(&r.name),
        esc(r.status),
        esc(&r.err),
        ev,
        r.checks.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","),
        r.steps,
        r.joins,
        r.entries,
        r.obligations,
        r.returns,
        list(r.imprecise.iter().map(|s| esc(s))),
        r.strategy,
        r.secs,
        if r.extra.is_empty() { "null".to_string() } else { r.extra.clone() },
        list(r.analysed.iter().map(|s| esc(s))),
        r.calls
    )
}

pub fn new_global<'tcx>(tcx: TyCtxt<'tcx>) -> Global<'tcx> {
    let mut shims = HashMap::new();
    for d in tcx.hir_crate_items(()).free_items() {
        let d = d.owner_id.to_def_id();
        if matches!(tcx.def_kind(d), DefKind::Fn) {
            let n = tcx.def_path_str(d);
            if let Some(s) = n.rsplit_once("shim::") {
                shims.insert(s.1.to_string(), d);
            }
        }
    }
    let mut statics = HashMap::new();
    if let Ok(p) = std::env::var("LT_OUT")
        && let Ok(s) = std::fs::read_to_string(format!("{p}/statics.txt"))
    {
        for l in s.lines() {
            if let Some((n, v)) = l.split_once('\t') {
                statics.insert(n.to_string(), crate::facts::parse_val(&mut v.chars().peekable()));
            }
        }
    }
    Global {
        tcx,
        bodies: RefCell::new(Default::default()),
        tys: RefCell::new(vec![]),
        fns: RefCell::new(vec![]),
        names: RefCell::new(Default::default()),
        langs: RefCell::new(Default::default()),
        summaries: RefCell::new(Default::default()),
        statics,
        shims,
        analysed: RefCell::new(Default::default()),
        calls: RefCell::new(0),
        verbose: std::env::var("LT_VERBOSE").is_ok(),
    }
}

unsafe extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn _exit(code: i32) -> !;
}

/// The verdict on one entry point: the analysis of all inputs if it is conclusive; what it reports
/// is kept if it is also reported of the input given as its example alone; otherwise the analysis
/// of the inputs up to some length.
fn decide<'tcx>(
    g: &Global<'tcx>,
    d: DefId,
    name: &str,
    split: Option<u8>,
    strategies: &[usize],
    budget: u64,
    left: &dyn Fn() -> f64,
    others: f64,
) -> Res {
    g.analysed.borrow_mut().clear();
    *g.calls.borrow_mut() = 0;
    let run = |s: usize, cpu: f64, scope: &Scope| {
        let mut r = one(g, d, name, split, s, budget, cpu, scope);
        r.analysed = g.analysed.borrow().iter().cloned().collect();
        r.calls = *g.calls.borrow();
        if g.verbose {
            eprintln!(
                "{} strategy {} {} {} events {:?} {:.1}s",
                r.name,
                s,
                r.status,
                r.err,
                r.events.iter().map(|e| (&e.kind, &e.detail, &e.span, &e.witness)).collect::<Vec<_>>(),
                r.secs
            );
        }
        r
    };
    let real = |r: &Res| r.events.iter().any(|e| e.class.is_empty());
    let mut best: Option<Res> = None;
    let mut doubt = String::new();
    // is an event also found on its example alone?
    let confirm = |r: &mut Res, doubt: &mut String| -> bool {
        let words: Vec<_> = r.events.iter().filter(|e| e.class.is_empty()).map(|e| e.word.clone()).collect();
        if words.iter().any(|w| w.is_empty()) {
            return true;
        }
        let c = run(4, 60.0, &Scope::Words(words));
        if !real(&c) {
            let e = r.events.iter().find(|e| e.class.is_empty()).unwrap();
            *doubt = format!(
                "{} on input {} was not confirmed{}{}",
                e.detail,
                e.witness.join(", "),
                if c.err.is_empty() { "" } else { ": " },
                c.err
            );
            return false;
        }
        r.events.retain(|e| !e.class.is_empty());
        r.events.extend(c.events.into_iter().filter(|e| e.class.is_empty()));
        r.status = "violation";
        true
    };
    let share = (left() - 60.0) / others.max(1.0);
    let done: std::cell::RefCell<Option<(usize, Res)>> = Default::default();
    // all inputs up to some length, exactly
    let bounded = |limit: f64, far: f64, best: &mut Res, doubt: &mut String| -> Option<Res> {
        let t0 = cpu_secs();
        for k in [6, 9, 12, 16, 20, 24, 32, 40, 48, 56, 64] {
            let cpu = if k > 24 { limit.min(far) } else { limit } - (cpu_secs() - t0);
            if cpu < 3.0 || left() < 60.0 {
                break;
            }
            let mut r = run(4, cpu, &Scope::UpTo(k));
            if real(&r) {
                if confirm(&mut r, doubt) {
                    return Some(r);
                }
                break;
            }
            if r.status == "unsupported" {
                if g.verbose {
                    eprintln!("{name} up to {k}: {}", r.err);
                }
                if !r.err.contains("time exhausted") && !r.err.contains("budget exhausted") && best.err.is_empty() {
                    best.err = r.err;
                }
                break;
            }
            *done.borrow_mut() = Some((k, r));
        }
        None
    };
    for (n, s) in strategies.iter().enumerate() {
        if n == 2
            && let Some(best) = &mut best
            && let Some(r) = bounded((share * 0.6).clamp(15.0, 120.0), share * 0.4, best, &mut doubt)
        {
            return r;
        }
        if n > 0 && left() < 300.0 {
            break;
        }
        let mut r = run(*s, if n == 0 { 400.0 } else { (share * 0.3).clamp(10.0, if n == 1 { 40.0 } else { 100.0 }) }, &Scope::All);
        if r.status == "ok" || (r.status == "violation" && !real(&r)) {
            return r;
        }
        if real(&r) && confirm(&mut r, &mut doubt) {
            return r;
        }
        if best.is_none() {
            best = Some(r);
        }
    }
    let mut best = best.unwrap();
    if done.borrow().is_none()
        && let Some(r) = bounded(120.0, 0.0, &mut best, &mut doubt)
    {
        return r;
    }
    if let Some((k, mut r)) = done.into_inner()
        && k >= 6
    {
        r.status = "bounded";
        r.err = if best.err.is_empty() { doubt } else { best.err };
        r.extra = k.to_string();
        return r;
    }
    best.events.retain(|e| !e.class.is_empty());
    best.status = "unsupported";
    if !doubt.is_empty() {
        best.err = if best.err.is_empty() { doubt } else { format!("{}; {doubt}", best.err) };
    }
    best
}

/// Entry points selected by LT_SELECT (comma-separated `module` or `module::function` prefixes,
/// those after `!` left out).
pub fn main(tcx: TyCtxt<'_>) {
    let Ok(out) = std::env::var("LT_OUT") else { return };
    let Ok(select) = std::env::var("LT_SELECT") else { return };
    let jobs: usize = std::env::var("LT_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let budget: u64 = std::env::var("LT_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(3_000_000);
    let strategies: Vec<usize> = std::env::var("LT_STRATEGIES")
        .unwrap_or("0,5,2,100".into())
        .split(',')
        .filter_map(|s| s.parse().ok())
        .collect();
    let sel: Vec<&str> = select.split(',').collect();
    let mut fns: Vec<(String, DefId, Option<u8>)> = vec![];
    for it in tcx.hir_crate_items(()).free_items() {
        let d = it.owner_id.to_def_id();
        if is_entry(tcx, d) {
            let n = tcx.def_path_str(d);
            let n = n.strip_prefix("lt_harness::").unwrap_or(&n).to_string();
            let is = |s: &str| n == s || n.starts_with(&format!("{s}::"));
            if sel.iter().any(|s| is(s)) && !sel.iter().any(|s| s.strip_prefix('!').is_some_and(is)) {
                if n.rsplit("::").next().unwrap().starts_with("each_") {
                    // one case per singleton
                    fns.extend((0..=255u8).filter(|b| spec_singleton(*b)).map(|b| (n.clone(), d, Some(b))));
                } else {
                    fns.push((n, d, None));
                }
            }
        }
    }
    fns.sort_by(|a, b| (&a.0, a.2).cmp(&(&b.0, b.2)));
    // one worker per group of entry points; generated groups share what they learn
    let n = fns.len();
    let mut groups: Vec<(String, Vec<usize>)> = vec![];
    for (i, f) in fns.iter().enumerate() {
        let k = if f.0.matches("::").count() >= 2 { f.0.rsplit_once("::").unwrap().0.to_string() } else { f.0.clone() };
        match groups.last_mut() {
            Some(g) if g.0 == k && f.2.is_none() && g.1.len() < 4 => g.1.push(i),
            _ => groups.push((k, vec![i])),
        }
    }
    // the longest first
    groups.sort_by_key(|g| !g.0.contains("lang_tag"));
    let path = |i: usize| format!("{out}/part{i}.json");
    let mut running: Vec<(i32, usize)> = vec![];
    let mut gi = 0;
    let start = Instant::now();
    let deadline: u64 = std::env::var("LT_DEADLINE").ok().and_then(|s| s.parse().ok()).unwrap_or(100_000);
    // kinds of events that decide the verdict: once one is found nothing more is started
    let fatal: Vec<String> =
        std::env::var("LT_FATAL").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let mut stop = false;
    while (gi < groups.len() && !stop) || !running.is_empty() {
        if start.elapsed().as_secs() > deadline {
            for (p, _) in &running {
                unsafe { kill(*p, 9) };
            }
            stop = true;
        }
        if gi < groups.len() && running.len() < jobs && !stop {
            for &i in &groups[gi].1 {
                let _ = std::fs::remove_file(path(i));
            }
            let pid = if jobs == 1 { 0 } else { unsafe { fork() } };
            if pid == 0 {
                let g = new_global(tcx);
                for &i in &groups[gi].1 {
                    let r = decide(&g, fns[i].1, &fns[i].0, fns[i].2, &strategies, budget, &|| {
                        deadline as f64 - start.elapsed().as_secs_f64()
                    }, (n - i) as f64 / jobs as f64);
                    if std::env::var("LT_PROF").is_ok() {
                        PROF.with(|p| {
                            let p = p.borrow();
                            let mut v: Vec<_> = p.iter().collect();
                            v.sort_by_key(|x| std::cmp::Reverse(x.1.1));
                            for (n, x) in v {
                                eprintln!("{n} calls {} ms {} size {}", x.0, x.1 / 1000, x.2);
                            }
                        });
                    }
                    let bad = r.events.iter().any(|e| e.class.is_empty() && fatal.contains(&e.kind));
                    let tmp = format!("{}.tmp", path(i));
                    let _ = std::fs::write(&tmp, json(&r));
                    let _ = std::fs::rename(&tmp, path(i));
                    if bad && !fatal.is_empty() {
                        if jobs != 1 {
                            unsafe { _exit(9) }
                        }
                        stop = true;
                        break;
                    }
                }
                if jobs != 1 {
                    unsafe { _exit(0) }
                }
            } else {
                running.push((pid, gi));
            }
            gi += 1;
        } else if !running.is_empty() {
            let mut st = 0;
            let pid = unsafe { waitpid(-1, &mut st, 1) };
            if pid == 0 {
                std::thread::sleep(std::time::Duration::from_millis(5));
                continue;
            }
            running.retain(|r| r.0 != pid);
            if pid < 0 {
                running.clear();
            }
            if (st >> 8) & 0xff == 9 {
                stop = true;
            }
        }
    }
    let mut parts = vec![];
    for (i, f) in fns.iter().enumerate() {
        match std::fs::read_to_string(path(i)) {
            Ok(s) => parts.push(s),
            Err(_) => parts.push(format!(
                "{{\"name\":{},\"status\":\"unsupported\",\"err\":\"not analysed\",\"events\":[],\"checks\":{{}},\"steps\":0,\"joins\":0,\"entries\":0,\"obligations\":0,\"returns\":0,\"imprecise\":[],\"strategy\":0,\"secs\":0,\"extra\":null,\"analysed\":[],\"calls\":0}}",
                esc(&f.0)
            )),
        }
        let _ = std::fs::remove_file(path(i));
    }
    if sel.contains(&"c22") {
        let g = new_global(tcx);
        parts.extend(grammar(&g).iter().map(json));
    }
    let _ = std::fs::write(format!("{out}/result.json"), list(parts));
}
