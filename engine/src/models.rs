//! Calls: intrinsics, leaf functions of the standard library, harness primitives, summaries.
use crate::auto::*;
use crate::interp::*;
use crate::spec;
use crate::val::*;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::BinOp;
use rustc_middle::ty::{self, Instance, InstanceKind, Ty};
use rustc_span::Span;
use std::collections::HashMap;
use std::rc::Rc;

enum M {
    V(Val),
    F(Flow),
    /// call something else instead
    Go(DefId, Vec<Val>),
    No,
}

fn lit(v: &Val) -> Option<i128> {
    match v {
        Val::Int(Int::C(c), _) => Some(*c),
        _ => None,
    }
}

impl<'g, 'tcx> Interp<'g, 'tcx> {
    /// The text behind a value that is, or refers to, text.
    pub fn text_of(&self, st: &State<'tcx>, v: &Val) -> R<Sl> {
        match v {
            Val::Sl(s) => Ok(s.clone()),
            Val::Ref(p) => {
                let x = st.read_mem(p);
                self.text_of(st, &x)
            }
            Val::RefV(x) => self.text_of(st, x),
            Val::Adt(_, f) => Ok(Sl { src: Src::Vals(f.clone()), lo: Pe::c(0), hi: Pe::c(f.len() as i64) }),
            v => unsup(format!("text expected, found {v:?}")),
        }
    }
    /// Text of a value of a tag type, owned or not.
    fn plain_text(&self, st: &State<'tcx>, v: &Val) -> R<Sl> {
        match v {
            Val::Ref(p) => {
                let x = st.read_mem(p);
                self.plain_text(st, &x)
            }
            Val::RefV(x) => self.plain_text(st, x),
            v => match peel(v) {
                Val::Sl(s) => Ok(s.clone()),
                _ => self.text_of(st, v),
            },
        }
    }
    pub fn load_ref(&self, st: &State<'tcx>, v: &Val) -> R<Val> {
        match v {
            Val::Ref(p) => Ok(st.read_mem(p)),
            Val::RefV(x) => Ok((**x).clone()),
            Val::Sl(_) => Ok(v.clone()),
            Val::Opaque => Ok(Val::Opaque),
            v => unsup(format!("reference expected, found {v:?}")),
        }
    }
    fn read_ptr(&mut self, st: &mut State<'tcx>, v: &Val, t: Option<Ty<'tcx>>) -> R<Val> {
        if let Val::Sl(s) = v
            && t.is_some_and(|t| self.g.ity(t).is_some())
        {
            let s = s.clone();
            return self.first(st, &s);
        }
        self.load_ref(st, v)
    }
    fn store_ref(&self, st: &mut State<'tcx>, r: &Val, v: Val) -> R<()> {
        match r {
            Val::Ref(p) => {
                st.write_mem(p, v);
                Ok(())
            }
            Val::Opaque => Ok(()),
            _ => unsup("store through a reference to a constant"),
        }
    }
    fn deref_ints(&self, st: &State<'tcx>, v: &Val) -> R<Val> {
        self.load_ref(st, v)
    }

    /// (path, method, self type, method is the trait's default) of a trait method instance.
    fn trait_key(&self, inst: Instance<'tcx>) -> Option<(Rc<str>, String, Ty<'tcx>, DefId)> {
        let tcx = self.tcx;
        let d = inst.def_id();
        if !matches!(tcx.def_kind(d), DefKind::AssocFn) {
            return None;
        }
        let p = tcx.parent(d);
        match tcx.def_kind(p) {
            DefKind::Trait => Some((
                self.g.name_of(p),
                tcx.item_name(d).to_string(),
                inst.args.types().next()?,
                d,
            )),
            DefKind::Impl { of_trait: true } => {
                let tr = tcx.impl_trait_ref(p);
                let n = self.g.name_of(tr.skip_binder().def_id);
                let self_ty = tr.instantiate(tcx, inst.args.truncate_to(tcx, tcx.generics_of(p))).skip_norm_wip().self_ty();
                let td = tcx.associated_item(d).trait_item_def_id()?;
                Some((n, tcx.item_name(d).to_string(), self_ty, td))
            }
            _ => None,
        }
    }

    pub fn call(&mut self, st: &mut State<'tcx>, inst: Instance<'tcx>, args: Vec<Val>, span: Span) -> R<Flow> {
        let mut inst = inst;
        let mut args = args;
        for _ in 0..8 {
            match self.call1(st, inst, &args, span)? {
                M::V(v) => return self.finish_call(st, v, false),
                M::F(f) => return Ok(f),
                M::No => return self.enter(st, inst, args),
                M::Go(d, a) => {
                    inst = Instance::mono(self.tcx, d);
                    args = a;
                }
            }
        }
        unsup("call redirection loop")
    }

    fn enter(&mut self, st: &mut State<'tcx>, inst: Instance<'tcx>, args: Vec<Val>) -> R<Flow> {
        let tcx = self.tcx;
        let d = inst.def_id();
        if self.g.is_subject(d)
            && matches!(inst.def, InstanceKind::Item(_))
            && matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn)
            && args.len() == 1
            && let Val::Sl(s) = &args[0]
            && !matches!(s.src, Src::Vals(_))
        {
            let sig = tcx.fn_sig(d).instantiate(tcx, inst.args).skip_norm_wip().skip_binder();
            let is_text = |t: Ty<'tcx>| match t.kind() {
                ty::Ref(_, p, _) => p.is_str() || matches!(p.kind(), ty::Slice(e) if *e == tcx.types.u8),
                _ => false,
            };
            if sig.output().is_bool() && is_text(sig.inputs()[0]) {
                let s = s.clone();
                if let Some(sm) = self.summary(inst, sig.inputs()[0])? {
                    let name = self.g.name_of(d).to_string();
                    self.g.analysed.borrow_mut().insert(name);
                    if self.endless.is_none() {
                        self.endless = sm.endless.clone();
                    }
                    if sm.exact {
                        let v = self.slice_in(st, &s, &sm.t)?;
                        let r = st.decide(v)?;
                        if r == 2 {
                            let a = st.a.clone();
                            self.event(st, "out-of-bounds", "malformed slice", &a);
                            return Ok(Flow::End);
                        }
                        return self.finish_call(st, Val::bool(r == 0), false);
                    }
                    let t = self.slice_in(st, &s, &sm.t)?;
                    let f = self.slice_in(st, &s, &sm.f)?;
                    let only_t = t[0].minus(&f[0]);
                    let only_f = f[0].minus(&t[0]);
                    let both = t[0].intersect(&f[0]);
                    let r = st.decide(vec![only_t, only_f, both])?;
                    let b = match r {
                        0 => true,
                        1 => false,
                        _ => st.choose(2)? == 1,
                    };
                    return self.finish_call(st, Val::bool(b), false);
                }
            }
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn)
            && tcx.crate_name(d.krate).as_str() != "lt_harness"
            && !self.g.is_subject(d)
            && tcx.fn_sig(d).skip_binder().output().skip_binder().is_never()
        {
            let n = self.g.name_of(d);
            let a = st.a.clone();
            self.event(st, "panic", &n, &a);
            return Ok(Flow::End);
        }
        self.push_frame(st, inst, args)
    }

    fn call1(&mut self, st: &mut State<'tcx>, inst: Instance<'tcx>, args: &[Val], span: Span) -> R<M> {
        let tcx = self.tcx;
        match inst.def {
            InstanceKind::Intrinsic(d) if tcx.item_name(d).as_str() == "compare_bytes" => {
                let a = self.text_of(st, &args[0])?;
                let b = self.text_of(st, &args[1])?;
                let Val::Int(n, _) = &args[2] else { return unsup("compare_bytes") };
                let ah = self.pos_add(st, a.lo, n)?;
                let bh = self.pos_add(st, b.lo, n)?;
                let (a, b) = (Sl { hi: ah, ..a }, Sl { hi: bh, ..b });
                return self.shim("compare_bytes", vec![Val::Sl(a), Val::Sl(b)]);
            }
            InstanceKind::Intrinsic(d) => return self.intrinsic(st, d, inst, args).map(M::V),
            InstanceKind::Virtual(d, _) => {
                let Val::Dyn(p, t) = &args[0] else { return unsup("call through an unknown dyn") };
                let t = self.g.tys.borrow()[*t as usize];
                let ga = tcx.mk_args_trait(t, inst.args.iter().skip(1));
                let i = match Instance::try_resolve(tcx, env(), d, ga) {
                    Ok(Some(i)) => i,
                    _ => return unsup("dyn method"),
                };
                let mut a = args.to_vec();
                a[0] = (**p).clone();
                return self.call(st, i, a, span).map(M::F);
            }
            _ => {}
        }
        let d = inst.def_id();
        let krate = tcx.crate_name(d.krate);
        let name = self.g.name_of(d);
        match krate.as_str() {
            "lt_harness" => {
                if let Some(n) = name.strip_prefix("lt_harness::lt::")
                    && !n.contains("::")
                {
                    return self.prim(st, n, inst, args);
                }
                Ok(M::No)
            }
            "core" | "alloc" | "std" => self.std_model(st, inst, &name, args, span),
            _ => Ok(M::No),
        }
    }

    // -- harness primitives -------------------------------------------------------------------

    fn label(&self, st: &State<'tcx>, v: &Val) -> R<String> {
        match self.text_of(st, v)?.src {
            Src::Bytes(b) => Ok(String::from_utf8_lossy(&b).into_owned()),
            _ => unsup("label"),
        }
    }
    fn prim(&mut self, st: &mut State<'tcx>, n: &str, inst: Instance<'tcx>, args: &[Val]) -> R<M> {
        match n {
            "check" => {
                let l = self.label(st, &args[1])?;
                let ok = match &args[0] {
                    Val::Int(Int::C(c), _) => *c != 0,
                    _ => {
                        self.note(st, "check on an unknown condition");
                        false
                    }
                };
                *self.checks.entry(l.clone()).or_default() += 1;
                self.obligations += 1;
                if !ok {
                    let a = st.a.clone();
                    self.event(st, "check", &l, &a);
                    return Ok(M::F(Flow::End));
                }
                Ok(M::V(Val::unit()))
            }
            "nondet" => {
                let c = st.choose(2)?;
                Ok(M::V(Val::bool(c == 1)))
            }
            "nondet_variant" => {
                let t = inst.args.type_at(0);
                let ty::Adt(d, _) = t.kind() else { return unsup("nondet_variant") };
                let n = d.variants().len();
                let c = st.choose(n)?;
                Ok(M::V(Val::adt(c as u32, vec![])))
            }
            "assume" => {
                let ok = match &args[0] {
                    Val::Int(Int::C(c), _) => *c != 0,
                    _ => st.choose(2)? == 1,
                };
                if ok {
                    Ok(M::V(Val::unit()))
                } else {
                    if self.opts.rank && self.reached.is_none() {
                        self.lost = self.lost.union(&st.a.project(!0));
                    }
                    Err(Stop::Dead)
                }
            }
            "overrides" => {
                let tcx = self.tcx;
                let l = self.label(st, &args[0])?;
                let t = inst.args.type_at(0);
                let (tr, m) = l.rsplit_once("::").unwrap_or(("", &l));
                let Some(tr) = tcx.all_traits_including_private().find(|d| self.g.name_of(*d).to_string() == tr) else {
                    return unsup(format!("no trait {tr}"));
                };
                let Some(f) = tcx.associated_items(tr).in_definition_order().find(|i| i.opt_name().is_some_and(|n| n.as_str() == m)) else {
                    return unsup(format!("no method {l}"));
                };
                match Instance::try_resolve(tcx, env(), f.def_id, tcx.mk_args(&[t.into()])) {
                    Ok(Some(i)) => Ok(M::V(Val::bool(tcx.opt_parent(i.def_id()) != Some(tr)))),
                    _ => unsup(format!("{l} of {t}")),
                }
            }
            // text RFC 5646 assigns to a component of the input
            "capture" => {
                let l = self.label(st, &args[0])?;
                let Some((_, x, y)) = self.ghosts.iter().find(|g| g.0 == l).cloned() else {
                    return unsup(format!("no component {l}"));
                };
                let v = transform(&st.a, &OccursObs(x), 2);
                let r = st.decide(v)?;
                Ok(M::V(if r == 0 {
                    Val::some(Val::Sl(Sl { src: Src::Track(0), lo: Pe { m: x, k: 0 }, hi: Pe { m: y, k: 0 } }))
                } else {
                    Val::none()
                }))
            }
            "in_lang" => {
                let s = self.plain_text(st, &args[0])?;
                let l = self.label(st, &args[1])?;
                let Some(l) = self.g.lang(&l) else { return unsup(format!("language {l}")) };
                let v = self.slice_in(st, &s, &l)?;
                let r = st.decide(v)?;
                Ok(M::V(Val::bool(r == 0)))
            }
            "is_text" | "is_text_fold" => {
                let s = self.plain_text(st, &args[0])?;
                let Some(b) = ({
                    let x = self.plain_text(st, &args[1])?;
                    self.const_bytes(st, &x)?
                }) else {
                    return unsup("is_text");
                };
                let l = self.g.lang_exact(&b, n == "is_text_fold");
                let v = self.slice_in(st, &s, &l)?;
                let r = st.decide(v)?;
                Ok(M::V(Val::bool(r == 0)))
            }
            // the very same part of the caller's text (constants: same bytes)
            "same_slice" => {
                let a = self.plain_text(st, &args[0])?;
                let b = self.plain_text(st, &args[1])?;
                let r = self.same_slice(st, &a, &b)?;
                Ok(M::V(Val::bool(r)))
            }
            // some part of the caller's text (the second, whole), not a copy; or an empty text
            "part_of" => {
                let a = self.plain_text(st, &args[0])?;
                let b = self.plain_text(st, &args[1])?;
                let r = match (&a.src, &b.src) {
                    (Src::Track(x), Src::Track(y)) if x == y => true,
                    _ => st.order(a.lo, a.hi)? == 1,
                };
                Ok(M::V(Val::bool(r)))
            }
            "eq_text" | "fold_eq" => {
                let a = self.plain_text(st, &args[0])?;
                let b = self.plain_text(st, &args[1])?;
                match self.pair_eq(st, &a, &b, n == "fold_eq")? {
                    Some(r) => Ok(M::V(Val::bool(r))),
                    None => unsup("texts cannot be compared"),
                }
            }
            "out_reset" => {
                st.log.clear();
                Ok(M::V(Val::unit()))
            }
            "out_is" => {
                let s = self.plain_text(st, &args[0])?;
                let log = std::mem::take(&mut st.log);
                let r = self.log_is(st, &log, &s);
                st.log = log;
                let r = r?;
                Ok(M::V(Val::bool(r)))
            }
            "out_is_char" => {
                let log = st.log.clone();
                let r = match &log[..] {
                    [Val::Int(i, _)] => {
                        let Val::Int(j, _) = &args[0] else { return unsup("out_is_char") };
                        self.compare(st, i, j)? == 1
                    }
                    _ => false,
                };
                Ok(M::V(Val::bool(r)))
            }
            "formatter" => Ok(M::V(Val::Opaque)),
            "observe_int" | "observe_bytes" | "observe" => {
                let k = match lit(&args[0]) {
                    Some(k) => k,
                    None => return unsup("observation kind"),
                };
                let v = args.get(1).cloned().unwrap_or(Val::unit());
                if st.cur == 0 {
                    return Ok(M::V(Val::unit()));
                }
                let cur = st.cur;
                self.finish_call(st, Val::unit(), false)?;
                st.obs[cur - 1] = Some((k, v));
                self.switch(st).map(M::F)
            }
            "lockstep" => {
                if st.cur != 0 || st.ths.len() > 1 {
                    return unsup("nested lockstep");
                }
                let types: Vec<Ty<'tcx>> = inst.args.types().collect();
                let base = st.clone();
                for k in 0..2 {
                    let ty::Closure(d, ca) = types[k].kind() else { return unsup("lockstep of non-closures") };
                    let i = Instance::resolve_closure(self.tcx, *d, ca, ty::ClosureKind::FnMut);
                    let _ = &base;
                    let env_local = args[k].clone();
                    // the closure is called by reference: keep its environment as a constant
                    st.ths.push(vec![]);
                    st.cur = k + 1;
                    let a = match i.def {
                        InstanceKind::Item(_) => {
                            let b = self.g.body(i)?;
                            let by_ref = b.body.local_decls[rustc_middle::mir::Local::from_u32(1)].ty.is_ref();
                            if by_ref { Val::RefV(Rc::new(env_local)) } else { env_local }
                        }
                        _ => env_local,
                    };
                    self.push_frame(st, i, vec![a, Val::unit()])?;
                }
                st.obs = vec![None, None];
                st.cur = 1;
                st.reset_choices();
                Ok(M::F(Flow::Goto(false)))
            }
            _ => unsup(format!("unknown primitive {n}")),
        }
    }

    /// Passes control on between the two lock-step threads.
    pub fn switch(&mut self, st: &mut State<'tcx>) -> R<Flow> {
        for k in 1..=2 {
            if st.obs[k - 1].is_none() {
                st.cur = k;
                return Ok(Flow::Goto(true));
            }
        }
        let (ka, a) = st.obs[0].clone().unwrap();
        let (kb, b) = st.obs[1].clone().unwrap();
        let mut parts: Vec<(Rc<Dfa>, bool)> = vec![];
        if ka != kb {
            parts.push((st.a.clone(), false));
        } else {
            match (&a, &b) {
                (Val::Int(x, _), Val::Int(y, _)) => {
                    if matches!(x, Int::Top) || matches!(y, Int::Top) {
                        parts.push((st.a.clone(), false));
                    } else {
                        let d = self.arith(st, BinOp::Sub, x, y)?;
                        match &d {
                            Int::C(c) => parts.push((st.a.clone(), *c == 0)),
                            Int::D { p, m, k } => {
                                let v = st.cmp_pos(Pe { m: *p, k: *k }, Pe { m: *m, k: 0 });
                                parts.push((Rc::new(v[1].clone()), true));
                                parts.push((Rc::new(v[0].union(&v[2])), false));
                            }
                            Int::L { k, t } => {
                                let v = self.classify(st, *k, t, &[(i128::MIN, 0), (0, 1), (1, 0)], 2);
                                parts.push((Rc::new(v[1].clone()), true));
                                parts.push((Rc::new(v[0].clone()), false));
                            }
                            Int::Top => parts.push((st.a.clone(), false)),
                        }
                    }
                }
                (Val::Sl(x), Val::Sl(y)) => {
                    let v = self.pair_parts(st, x, y, false)?;
                    match v {
                        Some(v) => {
                            parts.push((Rc::new(v.0), true));
                            parts.push((Rc::new(v.1), false));
                        }
                        None => parts.push((st.a.clone(), false)),
                    }
                }
                (x, y) => parts.push((st.a.clone(), x == y && !x.has_marks())),
            }
        }
        let mut go = None;
        for (d, same) in parts {
            if d.is_empty() {
                continue;
            }
            if same {
                go = Some(d);
            } else {
                st.cur = if st.ths[1].is_empty() { if st.ths[2].is_empty() { 0 } else { 2 } } else { 1 };
                let a = (*d).clone();
                let what = format!("the two observed sequences differ ({ka} against {kb})");
                let s = st.clone();
                self.event(&s, "differ", &what, &a);
            }
        }
        let Some(d) = go else { return Ok(Flow::End) };
        st.a = d;
        self.obligations += 1;
        if ka == -1 {
            st.ths.truncate(1);
            st.obs.clear();
            st.cur = 0;
            return self.finish_call(st, Val::unit(), true);
        }
        st.obs = vec![None, None];
        st.cur = 1;
        Ok(Flow::Goto(true))
    }

    pub fn same_slice(&mut self, st: &mut State<'tcx>, a: &Sl, b: &Sl) -> R<bool> {
        match (&a.src, &b.src) {
            (Src::Track(x), Src::Track(y)) => {
                if x != y {
                    return Ok(false);
                }
                Ok(st.order(a.lo, b.lo)? == 1 && st.order(a.hi, b.hi)? == 1)
            }
            (Src::Track(_), Src::Map(..)) | (Src::Map(..), _) => match self.pair_eq(st, a, b, false)? {
                Some(r) => Ok(r),
                None => unsup("contents of a changed copy"),
            },
            (Src::Track(_), _) | (_, Src::Track(_)) => Ok(false),
            _ => {
                let x = self.const_bytes(st, a)?;
                let y = self.const_bytes(st, b)?;
                Ok(x.is_some() && x == y)
            }
        }
    }
    /// (equal, different) parts of the state.
    pub fn pair_parts(&mut self, st: &mut State<'tcx>, a: &Sl, b: &Sl, fold: bool) -> R<Option<(Dfa, Dfa)>> {
        let (ta, tb) = match (a.src.track(), b.src.track()) {
            (Some(x), Some(y)) => (x, y),
            _ => {
                let (c, o) = if a.src.track().is_some() { (b, a) } else { (a, b) };
                let (c, o) = match self.const_bytes(st, c)? {
                    Some(x) => (x, o.clone()),
                    None => match self.const_bytes(st, o)? {
                        Some(x) => (x, c.clone()),
                        None => return Ok(None),
                    },
                };
                let l = self.g.lang_exact(&c, fold);
                let v = self.slice_in(st, &o, &l)?;
                return Ok(Some((v[0].clone(), v[1].union(&v[2]))));
            }
        };
        let (a0, a1) = (st.norm(a.lo), st.norm(a.hi));
        let (b0, b1) = (st.norm(b.lo), st.norm(b.hi));
        let rel = pred_ls(|l| match (l[ta], l[tb]) {
            (Some(x), Some(y)) => {
                let (x, y) = (a.src.byte(x), b.src.byte(y));
                if fold { x.eq_ignore_ascii_case(&y) } else { x == y }
            }
            _ => false,
        });
        let v = transform(&st.a, &PairObs { a: (a0, a1), b: (b0, b1), rel }, 3);
        if !v[2].is_empty() {
            return Ok(None);
        }
        Ok(Some((v[0].clone(), v[1].clone())))
    }
    pub fn pair_eq(&mut self, st: &mut State<'tcx>, a: &Sl, b: &Sl, fold: bool) -> R<Option<bool>> {
        match self.pair_parts(st, a, b, fold)? {
            Some((y, n)) => Ok(Some(st.decide(vec![y, n])? == 0)),
            None => Ok(None),
        }
    }
    /// Appends to the formatter's output.
    fn out(&mut self, st: &mut State<'tcx>, v: Val) -> R<()> {
        if let Val::Sl(s) = &v {
            if let Some(Val::Sl(l)) = st.log.last_mut()
                && let (Src::Track(x), Src::Track(y)) = (&l.src, &s.src)
                && x == y
                && l.hi == s.lo
            {
                l.hi = s.hi;
                return Ok(());
            }
        }
        if st.log.len() > 12 {
            return unsup("long output");
        }
        st.log.push(v);
        Ok(())
    }
    fn log_is(&mut self, st: &mut State<'tcx>, log: &[Val], s: &Sl) -> R<bool> {
        let mut ne = vec![];
        for v in log {
            if let Val::Sl(x) = v {
                if st.order(x.lo, x.hi)? == 1 {
                    continue;
                }
            }
            ne.push(v.clone());
        }
        if ne.is_empty() {
            return Ok(st.order(s.lo, s.hi)? == 1);
        }
        match &s.src {
            Src::Track(_) => {
                // pieces must tile the slice
                let mut at = s.lo;
                for v in &ne {
                    let v = match v {
                        Val::Int(i, t) if self.opts.exact.is_some() && matches!(i, Int::L { .. }) => {
                            let i = self.enumerate(st, i)?;
                            Val::Int(i, *t)
                        }
                        v => v.clone(),
                    };
                    let (to, piece) = match &v {
                        Val::Sl(x) if x.src == s.src && st.order(at, x.lo)? == 1 => {
                            at = x.hi;
                            continue;
                        }
                        Val::Sl(x) => {
                            let n = self.len_of(x);
                            (self.pos_add(st, at, &n)?, x.clone())
                        }
                        Val::Int(Int::C(c), _) => match char::from_u32(*c as u32) {
                            Some(c) => {
                                let b = c.to_string().into_bytes();
                                (at.add(b.len() as i64), Sl::bytes(b))
                            }
                            None => return unsup("text of an invalid character"),
                        },
                        Val::Int(Int::L { k: 0, t }, _) if t.len() == 1 => {
                            let t = &t[0];
                            let one = Sl { src: Src::Track(t.track), lo: t.p, hi: t.p.add(1) };
                            let ascii = self.g.lang("Ascii").unwrap();
                            let v = self.slice_in(st, &one, &ascii)?;
                            let narrow = |b: u8| (0..128).contains(&t.tab[b as usize]) || b > 127 || !track_bytes(t.track as usize).contains(&b);
                            if st.decide(v)? != 0 || !(0..=255).all(narrow) {
                                return unsup("text of a character");
                            }
                            let all = t.tab.iter().map(|v| *v as u8).collect();
                            (at.add(1), Sl { src: Src::Map(t.track, Rc::new(all)), lo: t.p, hi: t.p.add(1) })
                        }
                        _ => return unsup("shape of the output"),
                    };
                    if st.order(to, s.hi)? == 2 {
                        return Ok(false);
                    }
                    match self.pair_eq(st, &Sl { src: s.src.clone(), lo: at, hi: to }, &piece, false)? {
                        Some(true) => at = to,
                        Some(false) => return Ok(false),
                        None => return unsup("contents of the output"),
                    }
                }
                Ok(st.order(at, s.hi)? == 1)
            }
            _ => {
                let Some(want) = self.const_bytes(st, s)? else { return unsup("output expected to be of unknown shape") };
                let mut got: Vec<Result<Vec<u8>, Sl>> = vec![];
                for v in &ne {
                    match v {
                        Val::Sl(x) => match self.const_bytes(st, &x.clone())? {
                            Some(b) => got.push(Ok(b)),
                            None => got.push(Err(x.clone())),
                        },
                        Val::Int(Int::C(c), _) => match char::from_u32(*c as u32) {
                            Some(c) => got.push(Ok(c.to_string().into_bytes())),
                            None => return unsup("text of an invalid character"),
                        },
                        _ => return unsup("shape of the output"),
                    }
                }
                let known: usize = got.iter().map(|g| g.as_ref().map_or(0, |b| b.len())).sum();
                let open = got.iter().filter(|g| g.is_err()).count();
                if known > want.len() || open == 0 && known < want.len() {
                    return Ok(false);
                }
                if open > 1 {
                    return unsup("shape of the output");
                }
                let mut at = 0;
                for g in got {
                    match g {
                        Ok(b) => {
                            if want[at..at + b.len()] != b[..] {
                                return Ok(false);
                            }
                            at += b.len();
                        }
                        Err(x) => {
                            let n = want.len() - known;
                            match self.pair_eq(st, &x, &Sl::bytes(want[at..at + n].to_vec()), false)? {
                                Some(true) => at += n,
                                Some(false) => return Ok(false),
                                None => return unsup("contents of the output"),
                            }
                        }
                    }
                }
                Ok(true)
            }
        }
    }

    // -- summaries ----------------------------------------------------------------------------

    pub fn summary(&mut self, inst: Instance<'tcx>, arg: Ty<'tcx>) -> R<Option<Rc<Summary>>> {
        if let Some(s) = self.g.summaries.borrow().get(&inst) {
            return Ok(if s.err.is_none() { Some(s.clone()) } else { None });
        }
        let none = |e: &str| {
            Rc::new(Summary {
                t: Rc::new(Lang { name: String::new(), next: vec![], acc: vec![] }),
                f: Rc::new(Lang { name: String::new(), next: vec![], acc: vec![] }),
                events: vec![],
                err: Some(e.to_string()),
                exact: false,
                nstates: 0,
                endless: None,
            })
        };
        // in progress
        self.g.summaries.borrow_mut().insert(inst, none("recursive"));
        let s = self.compute_summary(inst, arg);
        let s = match s {
            Ok(s) => s,
            Err(e) => none(&e),
        };
        if self.g.verbose {
            eprintln!(
                "  summary of {}: {}",
                self.g.name_of(inst.def_id()),
                match &s.err {
                    Some(e) => format!("none ({e})"),
                    None => format!("{} / {} states, exact {}", s.t.acc.len(), s.f.acc.len(), s.exact),
                }
            );
        }
        let s = Rc::new(Summary { ..Rc::try_unwrap(s).ok().unwrap() });
        self.g.summaries.borrow_mut().insert(inst, s.clone());
        Ok(if s.err.is_none() { Some(s) } else { None })
    }
    fn compute_summary(&mut self, inst: Instance<'tcx>, arg: Ty<'tcx>) -> Result<Rc<Summary>, String> {
        let is_str = arg.builtin_deref(true).is_some_and(|t| t.is_str());
        let saved = save();
        set_alpha(vec![TrackAlpha { bytes: (0..=255).collect() }]);
        let r = self.stream_summary(inst, is_str);
        restore(saved);
        let (t, f, n, endless) = r?;
        Ok(Rc::new(Summary { t: Rc::new(t), f: Rc::new(f), events: vec![], err: None, exact: true, nstates: n, endless }))
    }
    /// Languages of texts on which a one-pass function answers true and false.
    ///
    /// The program is unrolled between successive visits of its loop heads: a state that depends
    /// on the text from its current position onwards only is one state of the resulting automaton.
    fn stream_summary(&mut self, inst: Instance<'tcx>, is_str: bool) -> Result<(Lang, Lang, usize, Option<String>), String> {
        const G: Mk = 1;
        const M: Mk = 2;
        let rank = self.opts.rank;
        let mut unranked: Option<String> = None;
        let (g, m): (Marks, Marks) = (1 << G, 1 << M);
        let start = spec::track_dfa(&spec::re(if is_str { "Utf8" } else { "Any" }).unwrap(), 0, &|_| None);
        let letters = cyl_ls(0, |o| o.is_some());
        let pad = pad_ls();
        let mut ids: HashMap<(Key, Dfa), usize> = Default::default();
        let mut todo: Vec<Option<(Start<'tcx>, Dfa)>> = vec![None];
        // nodes of the composed automaton: one per configuration, then copies of partial runs
        let mut eps: Vec<Vec<u32>> = vec![];
        let mut tr: Vec<Vec<(Marks, Ls, u32)>> = vec![];
        let mut fin: [Vec<bool>; 2] = [vec![], vec![]];
        let mut entry: Vec<u32> = vec![];
        let node = |eps: &mut Vec<Vec<u32>>, tr: &mut Vec<Vec<(Marks, Ls, u32)>>, fin: &mut [Vec<bool>; 2]| {
            eps.push(vec![]);
            tr.push(vec![]);
            fin[0].push(false);
            fin[1].push(false);
            (eps.len() - 1) as u32
        };
        let e0 = node(&mut eps, &mut tr, &mut fin);
        entry.push(e0);
        let mut k = 0;
        while k < todo.len() {
            if k > 4000 {
                return Err("too many recogniser states".into());
            }
            let cfg = todo[k].take();
            let from = entry[k];
            k += 1;
            let mut it = Interp::new(
                self.g,
                vec![TrackCfg { name: "text".into(), bytes: (0..=255).collect(), valid: None, ascii: false }],
            );
            it.opts = Opts { step_limit: 60_000, ..Opts::default() };
            it.fixed = 2;
            it.stream = Some(vec![]);
            let r = match &cfg {
                None => {
                    let mut n = Nfa { init: vec![start.len() as u32], acc: start.acc.clone(), tr: start.tr.clone() };
                    n.acc.push(false);
                    n.tr.push(start.tr[0].iter().map(|t| (t.0 | g, t.1, t.2)).collect());
                    it.a0 = Rc::new(determinize(&n));
                    let text = Val::Sl(Sl { src: Src::Track(0), lo: Pe::c(0), hi: Pe { m: 0, k: 0 } });
                    it.run(inst, vec![text])
                }
                Some((s, suffix)) => {
                    // any text before, then a text of the suffix language with the position marked
                    let mut n = Nfa { init: vec![0], acc: vec![false], tr: vec![vec![(0, letters, 0)]] };
                    for (i, ts) in suffix.tr.iter().enumerate() {
                        n.acc.push(suffix.acc[i]);
                        n.tr.push(ts.iter().map(|t| (t.0, t.1, t.2 + 1)).collect());
                    }
                    for t in &suffix.tr[0] {
                        n.tr[0].push((t.0 | g | m, t.1, t.2 + 1));
                    }
                    it.a0 = Rc::new(determinize(&n));
                    it.run_from(s)
                }
            };
            if self.g.verbose && it.steps > 5000 {
                eprintln!("   config {k} of {} steps {} entries {} cuts {}", todo.len(), it.steps, it.ent.len(), it.stream.as_ref().unwrap().len());
            }
            match r {
                Ok(()) => {}
                Err(Stop::Unsupported(m)) => return Err(m),
                Err(_) => return Err("internal".into()),
            }
            if rank {
                unranked = unranked.or(it.rank().err());
            }
            if !it.events.is_empty() {
                return Err(format!("may fail: {} {}", it.events[0].kind, it.events[0].detail));
            }
            let returns = std::mem::take(&mut it.returns);
            let cuts = it.stream.take().unwrap();
            // splice a run into the composed automaton; `cut` gives the target of a state
            let mut splice = |a: &Dfa, out: Option<usize>, ids: &mut HashMap<(Key, Dfa), usize>, todo: &mut Vec<Option<(Start<'tcx>, Dfa)>>, s: Option<Start<'tcx>>| -> Result<(), String> {
                let mut map: HashMap<u32, u32> = Default::default();
                let mut work: Vec<u32> = vec![];
                macro_rules! at {
                    ($q:expr) => {
                        match map.get(&$q) {
                            Some(x) => *x,
                            None => {
                                let x = node(&mut eps, &mut tr, &mut fin);
                                map.insert($q, x);
                                work.push($q);
                                x
                            }
                        }
                    };
                }
                // where the text from the start of this step begins
                let mut heads: Vec<(u32, bool)> = vec![];
                for (q, ts) in a.tr.iter().enumerate() {
                    if ts.iter().any(|t| t.0 & g != 0) {
                        heads.push((q as u32, true));
                    }
                }
                let mut start_nodes = vec![];
                for (q, only) in heads {
                    let x = node(&mut eps, &mut tr, &mut fin);
                    eps[from as usize].push(x);
                    start_nodes.push((x, q, only));
                }
                let mut i = 0;
                loop {
                    let (x, q, only) = if i < start_nodes.len() {
                        i += 1;
                        start_nodes[i - 1]
                    } else {
                        match work.pop() {
                            Some(q) => (map[&q], q, false),
                            None => break,
                        }
                    };
                    let mut suffix: Vec<(Marks, Ls, u32)> = vec![];
                    for t in &a.tr[q as usize] {
                        if only && t.0 & g == 0 {
                            continue;
                        }
                        if out.is_none() && t.0 & m != 0 {
                            suffix.push((t.0 & !(g | m), t.1, t.2));
                            continue;
                        }
                        let y = at!(t.2);
                        tr[x as usize].push((t.0 & !(g | m), t.1, y));
                    }
                    if let Some(o) = out
                        && a.acc[q as usize]
                    {
                        fin[o][x as usize] = true;
                    }
                    if !suffix.is_empty() {
                        let mut n = Nfa {
                            init: vec![a.len() as u32],
                            acc: a.acc.clone(),
                            tr: a
                                .tr
                                .iter()
                                .map(|v| v.iter().map(|t| (t.0 & !(g | m), t.1, t.2)).collect())
                                .collect(),
                        };
                        n.acc.push(false);
                        n.tr.push(suffix);
                        let s_dfa = determinize(&n);
                        if s_dfa.is_empty() {
                            continue;
                        }
                        let s = s.clone().unwrap();
                        let key = (s.key.clone(), s_dfa.clone());
                        let d = match ids.get(&key) {
                            Some(d) => *d,
                            None => {
                                let d = todo.len();
                                todo.push(Some((s, s_dfa)));
                                ids.insert(key, d);
                                let e = node(&mut eps, &mut tr, &mut fin);
                                entry.push(e);
                                d
                            }
                        };
                        eps[x as usize].push(entry[d]);
                    }
                }
                Ok(())
            };
            for (v, a) in &returns {
                let a = a.project(!(1 | g));
                match v {
                    Val::Int(Int::C(c), _) => splice(&a, Some((*c != 0) as usize), &mut ids, &mut todo, None)?,
                    _ => return Err("unknown answer".into()),
                }
            }
            for (s, a) in cuts {
                splice(&a, None, &mut ids, &mut todo, Some(s))?;
            }
        }
        // eliminate silent moves
        let n = eps.len();
        let mut out = vec![];
        for o in 0..2 {
            let mut nfa = Nfa { init: vec![entry[0]], acc: vec![false; n], tr: vec![vec![]; n] };
            for q in 0..n {
                let mut seen = vec![q as u32];
                let mut i = 0;
                while i < seen.len() {
                    let c = seen[i] as usize;
                    i += 1;
                    nfa.acc[q] |= fin[o][c];
                    for &e in &eps[c] {
                        if !seen.contains(&e) {
                            seen.push(e);
                        }
                    }
                    nfa.tr[q].extend(tr[c].iter().copied());
                }
            }
            let _ = pad;
            out.push(determinize(&nfa));
        }
        let f = out.remove(0);
        let t = out.remove(0);
        if !t.intersect(&f).is_empty() || t.union(&f) != start {
            return Err("not a one-pass function".into());
        }
        // every round of silent moves would be a loop that reads nothing
        let mut left: Vec<usize> = (0..n).filter(|q| !eps[*q].is_empty()).collect();
        loop {
            let was = left.len();
            let l: std::collections::HashSet<usize> = left.iter().copied().collect();
            left.retain(|q| eps[*q].iter().any(|e| l.contains(&(*e as usize))));
            if left.len() == was {
                break;
            }
        }
        if !left.is_empty() {
            unranked = unranked.or(Some("a loop that may read nothing".into()));
        }
        Ok((dfa_lang("true", &t), dfa_lang("false", &f), todo.len(), unranked))
    }

    // -- slicing ------------------------------------------------------------------------------

    /// Bounds of a range value: (start, end) where missing ends are None.
    fn range_of(&mut self, st: &mut State<'tcx>, t: Ty<'tcx>, v: &Val) -> R<Option<(Option<Int>, Option<Int>)>> {
        let ty::Adt(d, _) = t.kind() else { return Ok(None) };
        let n = self.g.name_of(d.did());
        let f = |i: usize| -> R<Int> {
            match v {
                Val::Adt(_, fs) => match fs.get(i) {
                    Some(Val::Int(x, _)) => Ok(x.clone()),
                    _ => unsup("range bound"),
                },
                _ => unsup("range"),
            }
        };
        Ok(Some(match &*n {
            "core::ops::range::Range" | "core::range::Range" => (Some(f(0)?), Some(f(1)?)),
            "core::ops::range::RangeFrom" | "core::range::RangeFrom" => (Some(f(0)?), None),
            "core::ops::range::RangeTo" => (None, Some(f(0)?)),
            "core::ops::range::RangeFull" => (None, None),
            "core::ops::range::RangeInclusive" | "core::range::RangeInclusive" => {
                let e = f(1)?;
                let e = self.arith(st, BinOp::Add, &e, &Int::C(1))?;
                (Some(f(0)?), Some(e))
            }
            "core::ops::range::RangeToInclusive" => {
                let e = f(0)?;
                let e = self.arith(st, BinOp::Add, &e, &Int::C(1))?;
                (None, Some(e))
            }
            _ => return Ok(None),
        }))
    }
    /// Is the position a character boundary of the text?
    fn boundary(&mut self, st: &mut State<'tcx>, s: &Sl, p: Pe) -> R<bool> {
        match &s.src {
            Src::Track(t) | Src::Map(t, _) => {
                if self.tracks[*t as usize].ascii {
                    return Ok(true);
                }
                if st.order(p, s.lo)? == 1 || st.order(p, s.hi)? == 1 {
                    return Ok(true);
                }
                let tab: Vec<i128> = (0..256).map(|b| if (128..192).contains(&b) { 1 } else { 0 }).collect();
                let v = self.classify(
                    st,
                    0,
                    &[Term { p, track: *t, tab: Rc::new(tab) }],
                    &[(i128::MIN, 0), (1, 1)],
                    2,
                );
                Ok(st.decide(v)? == 0)
            }
            Src::Bytes(b) => {
                let n = b.len();
                let b = b.clone();
                match st.concretize(p, n as i64 + 1)? {
                    Some(i) => Ok(i as usize == n || !(128..192).contains(&b[i as usize])),
                    None => unsup("boundary"),
                }
            }
            Src::Vals(_) => Ok(true),
        }
    }
    /// Sub-slice; None when out of bounds (or off a character boundary).
    pub fn subslice(&mut self, st: &mut State<'tcx>, s: &Sl, lo: Option<Int>, hi: Option<Int>, is_str: bool) -> R<Option<Sl>> {
        let l = match &lo {
            None => s.lo,
            Some(i) => {
                if matches!(i, Int::Top) {
                    return unsup("slice at an unknown position");
                }
                self.pos_add(st, s.lo, i)?
            }
        };
        let h = match &hi {
            None => s.hi,
            Some(i) => {
                if matches!(i, Int::Top) {
                    return unsup("slice at an unknown position");
                }
                self.pos_add(st, s.lo, i)?
            }
        };
        if hi.is_some() && st.order(h, s.hi)? == 2 {
            return Ok(None);
        }
        if lo.is_some() && st.order(l, h)? == 2 {
            return Ok(None);
        }
        if is_str {
            if lo.is_some() && !self.boundary(st, s, l)? {
                return Ok(None);
            }
            if hi.is_some() && !self.boundary(st, s, h)? {
                return Ok(None);
            }
        }
        Ok(Some(Sl { src: s.src.clone(), lo: l, hi: h }))
    }

    // -- compiler intrinsics ------------------------------------------------------------------

    fn intrinsic(&mut self, st: &mut State<'tcx>, d: DefId, inst: Instance<'tcx>, args: &[Val]) -> R<Val> {
        let tcx = self.tcx;
        let n = tcx.item_name(d);
        let n = n.as_str();
        let t0 = inst.args.types().next();
        let bin = |op: BinOp, me: &mut Self, st: &mut State<'tcx>| {
            me.binop(st, op, args[0].clone(), args[1].clone(), t0.unwrap())
        };
        Ok(match n {
            "unchecked_add" | "wrapping_add" => bin(BinOp::Add, self, st)?,
            "unchecked_sub" | "wrapping_sub" => bin(BinOp::Sub, self, st)?,
            "unchecked_mul" | "wrapping_mul" => bin(BinOp::Mul, self, st)?,
            "unchecked_shl" => bin(BinOp::Shl, self, st)?,
            "unchecked_shr" => bin(BinOp::Shr, self, st)?,
            "unchecked_div" | "exact_div" => bin(BinOp::Div, self, st)?,
            "unchecked_rem" => bin(BinOp::Rem, self, st)?,
            "disjoint_bitor" => bin(BinOp::BitOr, self, st)?,
            "three_way_compare" => bin(BinOp::Cmp, self, st)?,
            "add_with_overflow" => bin(BinOp::AddWithOverflow, self, st)?,
            "sub_with_overflow" => bin(BinOp::SubWithOverflow, self, st)?,
            "mul_with_overflow" => bin(BinOp::MulWithOverflow, self, st)?,
            "saturating_sub" | "saturating_add" => {
                let op = if n == "saturating_sub" { BinOp::Sub } else { BinOp::Add };
                let (Val::Int(a, t), Val::Int(b, _)) = (&args[0], &args[1]) else { return unsup(n) };
                let e = self.arith(st, op, a, b)?;
                let (v, o) = self.fit(st, e, *t)?;
                if o {
                    let (lo, hi) = t.range();
                    if t.signed() {
                        return unsup(n);
                    }
                    Val::c(if n == "saturating_sub" { lo } else { hi }, *t)
                } else {
                    Val::Int(v, *t)
                }
            }
            "integer_min" | "integer_max" => {
                let (Val::Int(a, t), Val::Int(b, _)) = (&args[0], &args[1]) else { return unsup(n) };
                let (a, b, t) = (a.clone(), b.clone(), *t);
                let first = (self.compare(st, &a, &b)? < 2) == (n == "integer_min");
                Val::Int(if first { a } else { b }, t)
            }
            "assume" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "black_box"
            | "cold_path" => Val::unit(),
            "likely" | "unlikely" => args[0].clone(),
            "ub_checks" | "contract_checks" | "is_val_statically_known" => Val::bool(false),
            "overflow_checks" => Val::bool(true),
            "unreachable" | "abort" => {
                let a = st.a.clone();
                self.event(&st.clone(), "unreachable", n, &a);
                return Err(Stop::Dead);
            }
            "size_of" | "min_align_of" | "align_of" | "pref_align_of" => {
                let l = self.layout(t0.unwrap())?;
                Val::usize(if n == "size_of" { l.size.bytes() } else { l.align.abi.bytes() } as i128)
            }
            "size_of_val" => match &args[0] {
                Val::Sl(s) => Val::Int(self.len_of(s), Ity::Usize),
                _ => Val::usize(self.layout(t0.unwrap())?.size.bytes() as i128),
            },
            "needs_drop" => Val::bool(t0.unwrap().needs_drop(tcx, env())),
            "discriminant_value" => {
                let v = self.load_ref(st, &args[0])?;
                let t = t0.unwrap();
                let it = self.g.ity(t.discriminant_ty(tcx)).unwrap_or(Ity::Isize);
                match v {
                    Val::Adt(x, _) => {
                        let d = t
                            .discriminant_for_variant(tcx, rustc_abi::VariantIdx::from_u32(x))
                            .map_or(x as u128, |d| d.val);
                        Val::c(it.wrap(d as i128), it)
                    }
                    _ => Val::Int(Int::Top, it),
                }
            }
            "transmute" | "transmute_unchecked" => {
                let from = inst.args.type_at(0);
                let to = inst.args.type_at(1);
                self.cast(st, rustc_middle::mir::CastKind::Transmute, args[0].clone(), from, to)?
            }
            "ptr_metadata" => match &args[0] {
                Val::Sl(s) => Val::Int(self.len_of(s), Ity::Usize),
                _ => Val::unit(),
            },
            "read_via_copy" | "volatile_load" => self.read_ptr(st, &args[0], t0)?,
            "write_via_move" => {
                self.store_ref(st, &args[0], args[1].clone())?;
                Val::unit()
            }
            "select_unpredictable" => match lit(&args[0]) {
                Some(c) => args[if c != 0 { 1 } else { 2 }].clone(),
                None => args[1 + (1 - st.choose(2)?)].clone(),
            },
            "ctpop" | "ctlz" | "cttz" | "ctlz_nonzero" | "cttz_nonzero" | "bswap" => match &args[0] {
                Val::Int(Int::C(c), t) => {
                    let b = t.bits();
                    let u = (*c as u128) & (u128::MAX >> (128 - b));
                    let r = match n {
                        "ctpop" => u.count_ones(),
                        "ctlz" | "ctlz_nonzero" => u.leading_zeros() - (128 - b),
                        "cttz" | "cttz_nonzero" => u.trailing_zeros().min(b),
                        _ => return unsup(n),
                    };
                    Val::c(r as i128, Ity::U(32))
                }
                _ => Val::Int(Int::Top, Ity::U(32)),
            },
            "const_eval_select" => return unsup("const_eval_select"),
            "compare_bytes" => return unsup("compare_bytes"),
            _ => return unsup(format!("intrinsic {n}")),
        })
    }

    // -- the standard library -----------------------------------------------------------------

    /// Decides whether a character is of a class (see `char_class`).
    fn char_is(&mut self, st: &mut State<'tcx>, i: &Int, cuts: &[(i128, usize)]) -> R<bool> {
        Ok(match i {
            Int::C(c) => cuts[cuts.partition_point(|x| x.0 <= *c) - 1].1 == 0,
            Int::L { k, t } => {
                let v = self.classify(st, *k, t, cuts, 2);
                st.decide(v)? == 0
            }
            _ => {
                self.note(st, "class of an unknown character");
                st.choose(2)? == 0
            }
        })
    }

    fn std_model(&mut self, st: &mut State<'tcx>, inst: Instance<'tcx>, name: &str, args: &[Val], span: Span) -> R<M> {
        let tcx = self.tcx;
        if let Some((tr, m, self_ty, td)) = self.trait_key(inst) {
            let r = self.trait_model(st, inst, &tr, &m, self_ty, td, args, span)?;
            if !matches!(r, M::No) {
                return Ok(r);
            }
        }
        let is_str_impl = name.starts_with("core::str::<impl str>::");
        let u8s = |t: Ty<'tcx>| matches!(t.kind(), ty::Slice(e) if *e == tcx.types.u8);
        let _ = u8s;
        Ok(match name {
            "core::str::<impl str>::len" | "core::slice::<impl [T]>::len" => {
                let s = self.text_of(st, &args[0])?;
                M::V(Val::Int(self.len_of(&s), Ity::Usize))
            }
            "alloc::string::String::len" | "alloc::vec::Vec::<T, A>::len" | "alloc::vec::Vec::<T>::len" => {
                let s = self.text_of(st, &args[0])?;
                M::V(Val::Int(self.len_of(&s), Ity::Usize))
            }
            "core::str::<impl str>::is_empty"
            | "core::slice::<impl [T]>::is_empty"
            | "alloc::string::String::is_empty"
            | "alloc::vec::Vec::<T, A>::is_empty" => {
                let s = self.text_of(st, &args[0])?;
                let o = st.order(s.lo, s.hi)?;
                M::V(Val::bool(o == 1))
            }
            "core::str::<impl str>::as_bytes"
            | "core::str::<impl str>::as_str"
            | "core::str::<impl str>::as_ptr"
            | "core::slice::<impl [T]>::as_ptr"
            | "core::slice::<impl [T]>::iter"
            | "core::slice::iter::Iter::<'a, T>::new"
            | "core::slice::iter::Iter::<'a, T>::as_slice"
            | "alloc::slice::<impl [T]>::to_vec"
            | "alloc::slice::<impl [T]>::into_vec"
            | "alloc::str::<impl str>::into_string"
            | "alloc::str::<impl str>::into_boxed_bytes"
            | "alloc::str::from_boxed_utf8_unchecked"
            | "alloc::string::String::into_bytes"
            | "alloc::string::String::as_str"
            | "alloc::string::String::as_bytes"
            | "alloc::string::String::into_boxed_str"
            | "alloc::vec::Vec::<T, A>::as_slice"
            | "alloc::vec::Vec::<T, A>::into_boxed_slice"
            | "core::slice::as_array"
            | "core::array::<impl [T; N]>::as_slice" => M::V(Val::Sl(self.text_of(st, &args[0])?)),
            "core::str::converts::from_utf8_unchecked"
            | "core::str::<impl str>::from_utf8_unchecked"
            | "alloc::string::String::from_utf8_unchecked" => {
                let s = self.text_of(st, &args[0])?;
                self.must_be(st, &s, "Utf8", "str")?;
                M::V(Val::Sl(s))
            }
            "core::str::converts::from_utf8" | "core::str::<impl str>::from_utf8" | "alloc::string::String::from_utf8" => {
                let s = self.text_of(st, &args[0])?;
                let l = self.g.lang("Utf8").unwrap();
                let v = self.slice_in(st, &s, &l)?;
                let r = st.decide(v)?;
                M::V(if r == 0 {
                    Val::adt(0, vec![Val::Sl(s)])
                } else if name.starts_with("alloc") {
                    Val::adt(1, vec![Val::adt(0, vec![Val::Sl(s), Val::Opaque])])
                } else {
                    Val::adt(1, vec![Val::Opaque])
                })
            }
            "core::str::<impl str>::is_char_boundary" => {
                let s = self.text_of(st, &args[0])?;
                let Val::Int(i, _) = &args[1] else { return unsup("is_char_boundary") };
                let i = i.clone();
                let r = self.subslice(st, &s, Some(i), None, true)?;
                M::V(Val::bool(r.is_some()))
            }
            "core::str::<impl str>::split_at_unchecked" | "core::slice::<impl [T]>::split_at_unchecked" => {
                let s = self.text_of(st, &args[0])?;
                let Val::Int(i, _) = &args[1] else { return unsup("split_at") };
                let p = self.pos_add(st, s.lo, &i.clone())?;
                M::V(Val::adt(
                    0,
                    vec![
                        Val::Sl(Sl { src: s.src.clone(), lo: s.lo, hi: p }),
                        Val::Sl(Sl { src: s.src, lo: p, hi: s.hi }),
                    ],
                ))
            }
            "core::slice::raw::from_raw_parts" | "core::ptr::slice_from_raw_parts" | "core::slice::raw::from_ref" => {
                if name.ends_with("from_ref") {
                    let v = self.load_ref(st, &args[0])?;
                    return Ok(M::V(Val::Sl(Sl::vals(vec![v]))));
                }
                let s = self.text_of(st, &args[0])?;
                let Val::Int(i, _) = &args[1] else { return unsup("from_raw_parts") };
                let p = self.pos_add(st, s.lo, &i.clone())?;
                if st.order(p, s.hi)? == 2 {
                    let a = st.a.clone();
                    self.event(st, "out-of-bounds", "from_raw_parts", &a);
                    return Ok(M::F(Flow::End));
                }
                M::V(Val::Sl(Sl { src: s.src, lo: s.lo, hi: p }))
            }
            "core::slice::<impl [T]>::get_unchecked" | "core::str::<impl str>::get_unchecked" => M::No,
            "core::slice::ascii::<impl [u8]>::eq_ignore_ascii_case" | "core::str::<impl str>::eq_ignore_ascii_case" => {
                let a = self.text_of(st, &args[0])?;
                let b = self.text_of(st, &args[1])?;
                match self.pair_eq(st, &a, &b, true)? {
                    Some(r) => M::V(Val::bool(r)),
                    None => self.shim("slice_eq_fold", vec![Val::Sl(a), Val::Sl(b)])?,
                }
            }
            "core::slice::ascii::<impl [u8]>::is_ascii" | "core::str::<impl str>::is_ascii" => {
                let s = self.text_of(st, &args[0])?;
                let l = self.g.lang("Ascii").unwrap();
                let v = self.slice_in(st, &s, &l)?;
                let r = st.decide(v)?;
                M::V(Val::bool(r == 0))
            }
            "alloc::str::<impl str>::to_ascii_lowercase"
            | "alloc::str::<impl str>::to_ascii_uppercase"
            | "alloc::slice::<impl [u8]>::to_ascii_lowercase"
            | "alloc::slice::<impl [u8]>::to_ascii_uppercase"
            | "alloc::str::<impl str>::to_lowercase"
            | "alloc::str::<impl str>::to_uppercase" => {
                let s = self.text_of(st, &args[0])?;
                if !name.contains("ascii") {
                    let l = self.g.lang("Ascii").unwrap();
                    let v = self.slice_in(st, &s, &l)?;
                    if st.decide(v)? != 0 {
                        return unsup("case of a text that is not ASCII");
                    }
                }
                let up = name.ends_with("uppercase");
                let f = |b: u8| if up { b.to_ascii_uppercase() } else { b.to_ascii_lowercase() };
                M::V(Val::Sl(match &s.src {
                    Src::Track(t) | Src::Map(t, _) => {
                        let m = (0..=255).map(|b| f(s.src.byte(b))).collect();
                        Sl { src: Src::Map(*t, Rc::new(m)), ..s }
                    }
                    Src::Bytes(b) => Sl { src: Src::Bytes(Rc::new(b.iter().map(|b| f(*b)).collect())), ..s },
                    Src::Vals(_) => match self.const_bytes(st, &s)? {
                        Some(b) => Sl::bytes(b.into_iter().map(f).collect()),
                        None => return unsup("case of a sequence"),
                    },
                }))
            }
            "core::slice::memchr::memchr" | "core::slice::memchr::memchr_aligned" | "core::slice::memchr::memchr_naive" => self.shim("memchr", args.to_vec())?,
            "core::slice::memchr::memrchr" | "core::slice::memchr::memrchr_aligned" => self.shim("memrchr", args.to_vec())?,
            n if n.starts_with("core::unicode::unicode_data::") && n.ends_with("::to_lower") | n.ends_with("::to_upper") => {
                let up = n.ends_with("to_upper");
                let map = move |c: u32| -> [i128; 3] {
                    let mut r = [0; 3];
                    match char::from_u32(c) {
                        Some(c) if up => c.to_uppercase().enumerate().for_each(|(i, c)| r[i] = c as i128),
                        Some(c) => c.to_lowercase().enumerate().for_each(|(i, c)| r[i] = c as i128),
                        None => (),
                    }
                    r
                };
                let Val::Int(i, _) = &args[0] else { return unsup("case of a char") };
                let same = char_class(if up { "unchanged by upper" } else { "unchanged by lower" }, &|c| map(c) == [c as i128, 0, 0]);
                let i = if self.char_is(st, i, &same)? {
                    [i.clone(), Int::C(0), Int::C(0)]
                } else {
                    match self.enumerate(st, &i.clone())? {
                        Int::C(c) => map(c as u32).map(Int::C),
                        _ => [Int::Top, Int::Top, Int::Top],
                    }
                };
                M::V(Val::Adt(0, Rc::new(i.into_iter().map(|i| Val::Int(i, Ity::Char)).collect())))
            }
            n if n.starts_with("core::unicode::unicode_data::") && n.contains("::lookup") && args.len() == 1 => {
                let kind = n["core::unicode::unicode_data::".len()..].split("::").next().unwrap_or("");
                let is: fn(char) -> bool = match kind {
                    "alphabetic" => char::is_alphabetic,
                    "lowercase" => char::is_lowercase,
                    "uppercase" => char::is_uppercase,
                    "n" => char::is_numeric,
                    "white_space" => char::is_whitespace,
                    _ => return unsup(format!("no MIR for `{n}`")),
                };
                let cuts = char_class(kind, &|c| char::from_u32(c).is_some_and(is));
                let Val::Int(i, _) = &args[0] else { return unsup("class of a char") };
                M::V(Val::bool(self.char_is(st, i, &cuts)?))
            }
            "core::mem::replace" => {
                let v = self.load_ref(st, &args[0])?;
                self.store_ref(st, &args[0], args[1].clone())?;
                M::V(v)
            }
            "core::mem::swap" => {
                let a = self.load_ref(st, &args[0])?;
                let b = self.load_ref(st, &args[1])?;
                self.store_ref(st, &args[0], b)?;
                self.store_ref(st, &args[1], a)?;
                M::V(Val::unit())
            }
            "core::ptr::read" | "core::ptr::const_ptr::<impl *const T>::read" => {
                let t = inst.args.types().next();
                M::V(self.read_ptr(st, &args[0], t)?)
            }
            "core::ptr::write" => {
                self.store_ref(st, &args[0], args[1].clone())?;
                M::V(Val::unit())
            }
            "core::mem::forget" | "core::mem::drop" => M::V(Val::unit()),
            "core::fmt::Formatter::<'a>::write_str" | "core::fmt::Formatter::<'a>::pad" => {
                let s = self.text_of(st, &args[1])?;
                self.out(st, Val::Sl(s))?;
                M::V(Val::adt(0, vec![Val::unit()]))
            }
            "core::fmt::Formatter::<'a>::alternate" => M::V(Val::bool(false)),
            "core::fmt::rt::Argument::<'_>::new_display" | "core::fmt::rt::Argument::<'_>::new_debug" => {
                let t = inst.args.types().next().unwrap();
                let tr = if name.ends_with("display") { "core::fmt::Display" } else { "core::fmt::Debug" };
                let _ = tr;
                M::V(Val::adt(if name.ends_with("display") { 0 } else { 1 }, vec![args[0].clone(), Val::usize(self.g.intern_ty(t) as i128)]))
            }
            "core::fmt::Formatter::<'a>::write_fmt" => return self.write_fmt(st, args, span),
            "core::fmt::rt::<impl core::fmt::Arguments<'a>>::new"
            | "core::fmt::Arguments::<'a>::new"
            | "core::fmt::Arguments::<'a>::from_str"
            | "core::fmt::rt::<impl core::fmt::Arguments<'a>>::from_str" => {
                let mut f = vec![];
                for a in args {
                    f.push(Val::Sl(self.text_of(st, a)?));
                }
                M::V(Val::adt(0, f))
            }
            _ if is_str_impl && inst.args.types().count() > 0 => {
                // pattern methods with a text needle
                let t = inst.args.type_at(0);
                let needle = match t.kind() {
                    ty::Ref(_, p, _) => p.is_str() || matches!(p.kind(), ty::Ref(_, q, _) if q.is_str()) || matches!(p.kind(), ty::Adt(..)),
                    _ => false,
                };
                if !needle {
                    return Ok(M::No);
                }
                let m = name.rsplit("::").next().unwrap();
                let sh = match m {
                    "find" => "str_find",
                    "rfind" => "str_rfind",
                    "contains" => "str_contains",
                    "split_once" => "str_split_once",
                    "rsplit_once" => "str_rsplit_once",
                    _ => return Ok(M::No),
                };
                let a = self.text_of(st, &args[0])?;
                let b = self.text_of(st, &args[1])?;
                self.shim(sh, vec![Val::Sl(a), Val::Sl(b)])?
            }
            _ => M::No,
        })
    }
    fn shim(&mut self, n: &str, args: Vec<Val>) -> R<M> {
        match self.g.shims.get(n) {
            Some(d) => Ok(M::Go(*d, args)),
            None => unsup(format!("no shim {n}")),
        }
    }
    fn write_fmt(&mut self, st: &mut State<'tcx>, args: &[Val], span: Span) -> R<M> {
        let _ = span;
        let Val::Adt(_, f) = &args[1] else { return unsup("write_fmt") };
        let Val::Sl(t) = &f[0] else { return unsup("write_fmt") };
        let Some(tpl) = self.const_bytes(st, &t.clone())? else { return unsup("write_fmt template") };
        if f.len() == 1 {
            self.out(st, Val::Sl(Sl::bytes(tpl)))?;
            return Ok(M::V(Val::adt(0, vec![Val::unit()])));
        }
        let Val::Sl(av) = &f[1] else { return unsup("write_fmt") };
        let Src::Vals(av) = &av.src else { return unsup("write_fmt") };
        // template bytes: lengths of literal pieces, and argument markers
        let mut i = 0;
        let mut k = 0;
        while i < tpl.len() {
            let b = tpl[i];
            i += 1;
            if b == 0 {
                break;
            }
            if b < 0x80 {
                let n = b as usize;
                let piece = tpl[i..i + n].to_vec();
                i += n;
                self.out(st, Val::Sl(Sl::bytes(piece)))?;
            } else if b == 0xC0 {
                let Some(Val::Adt(_, a)) = av.get(k) else { return unsup("write_fmt argument") };
                k += 1;
                let ty = self.g.tys.borrow()[lit(&a[1]).unwrap() as usize];
                let base = ty.peel_refs();
                let v = a[0].clone();
                if base.is_str() || self.g.newtype(base).is_some() || self.g.owned_newtype(base).is_some() {
                    let s = self.text_of(st, &v)?;
                    self.out(st, Val::Sl(s))?;
                } else if base.is_char() {
                    let v = self.load_ref(st, &v)?;
                    self.out(st, v)?;
                } else {
                    return unsup(format!("formatting of {ty}"));
                }
            } else {
                return unsup("format specification");
            }
        }
        Ok(M::V(Val::adt(0, vec![Val::unit()])))
    }

    fn is_slice_iter(&self, t: Ty<'tcx>) -> bool {
        match t.kind() {
            ty::Adt(d, _) => &*self.g.name_of(d.did()) == "core::slice::iter::Iter" || self.is_value_iter(t),
            _ => false,
        }
    }
    /// Iterators over the elements themselves.
    fn is_value_iter(&self, t: Ty<'tcx>) -> bool {
        match t.kind() {
            ty::Adt(d, a) => match &*self.g.name_of(d.did()) {
                "core::array::iter::IntoIter" => true,
                "alloc::vec::into_iter::IntoIter" => a.type_at(0) == self.tcx.types.u8,
                _ => false,
            },
            _ => false,
        }
    }
    /// Texts that are represented by themselves whatever their container.
    fn is_textual(&self, t: Ty<'tcx>) -> bool {
        match t.kind() {
            ty::Str | ty::Slice(_) => true,
            ty::Ref(_, p, _) => self.is_textual(*p),
            ty::Array(e, _) => *e == self.tcx.types.u8,
            ty::Adt(d, a) => {
                let n = self.g.name_of(d.did());
                matches!(&*n, "alloc::string::String" | "alloc::vec::Vec")
                    || (matches!(&*n, "alloc::boxed::Box" | "alloc::borrow::Cow") && a.types().next().is_some_and(|t| self.is_textual(t)))
            }
            _ => false,
        }
    }

    fn trait_model(
        &mut self,
        st: &mut State<'tcx>,
        inst: Instance<'tcx>,
        tr: &str,
        m: &str,
        self_ty: Ty<'tcx>,
        td: DefId,
        args: &[Val],
        span: Span,
    ) -> R<M> {
        let tcx = self.tcx;
        Ok(match (tr, m) {
            ("core::slice::index::SliceIndex", _) => {
                let target = inst.args.types().last();
                let _ = target;
                // the trait's parameter: str or [T]
                let p = tcx.parent(inst.def_id());
                let gen_ty = match tcx.def_kind(p) {
                    DefKind::Impl { .. } => {
                        let tr = tcx.impl_trait_ref(p).instantiate(tcx, inst.args.truncate_to(tcx, tcx.generics_of(p))).skip_norm_wip();
                        tr.args.type_at(1)
                    }
                    _ => return Ok(M::No),
                };
                let is_str = gen_ty.is_str();
                let s = match self.text_of(st, &args[1]) {
                    Ok(s) => s,
                    Err(e) => return Err(e),
                };
                if self_ty == tcx.types.usize {
                    let Val::Int(i, _) = &args[0] else { return unsup("index") };
                    let n = self.len_of(&s);
                    let inb = self.compare(st, i, &n)? == 0;
                    if !inb {
                        if m == "get" {
                            return Ok(M::V(Val::none()));
                        }
                        let a = st.a.clone();
                        self.event(st, if m == "index" { "panic" } else { "out-of-bounds" }, "index out of bounds", &a);
                        return Ok(M::F(Flow::End));
                    }
                    let v = self.index(st, &s, &i.clone())?;
                    let v = Val::RefV(Rc::new(v));
                    return Ok(M::V(if m == "get" { Val::some(v) } else { v }));
                }
                let Some((lo, hi)) = self.range_of(st, self_ty, &args[0])? else { return Ok(M::No) };
                let r = self.subslice(st, &s, lo, hi, is_str)?;
                match m {
                    "get" => M::V(r.map_or(Val::none(), |s| Val::some(Val::Sl(s)))),
                    "index" | "get_unchecked" => match r {
                        Some(s) => M::V(Val::Sl(s)),
                        None => {
                            let a = st.a.clone();
                            self.event(
                                st,
                                if m == "index" { "panic" } else { "out-of-bounds" },
                                "slice out of bounds or off a character boundary",
                                &a,
                            );
                            M::F(Flow::End)
                        }
                    },
                    _ => M::No,
                }
            }
            ("core::iter::traits::iterator::Iterator", _) if self.is_slice_iter(self_ty) => match m {
                "next" => {
                    let Val::Sl(s) = self.load_ref(st, &args[0])? else { return unsup("slice iterator") };
                    if st.order(s.lo, s.hi)? == 0 {
                        let v = self.elem(st, &s, s.lo)?;
                        self.store_ref(st, &args[0], Val::Sl(Sl { lo: s.lo.add(1), ..s }))?;
                        M::V(Val::some(if self.is_value_iter(self_ty) { v } else { Val::RefV(Rc::new(v)) }))
                    } else {
                        M::V(Val::none())
                    }
                }
                "size_hint" => {
                    let s = self.text_of(st, &args[0])?;
                    let n = Val::Int(self.len_of(&s), Ity::Usize);
                    M::V(Val::adt(0, vec![n.clone(), Val::some(n)]))
                }
                "count" => {
                    let s = self.text_of(st, &args[0])?;
                    M::V(Val::Int(self.len_of(&s), Ity::Usize))
                }
                "__iterator_get_unchecked" => {
                    let s = self.text_of(st, &args[0])?;
                    let Val::Int(i, _) = &args[1] else { return unsup("index") };
                    let v = self.index(st, &s, &i.clone())?;
                    M::V(if self.is_value_iter(self_ty) { v } else { Val::RefV(Rc::new(v)) })
                }
                _ => return self.default_method(st, inst, td, self_ty, args, span),
            },
            ("core::iter::traits::double_ended::DoubleEndedIterator", _) if self.is_slice_iter(self_ty) => match m {
                "next_back" => {
                    let Val::Sl(s) = self.load_ref(st, &args[0])? else { return unsup("slice iterator") };
                    if st.order(s.lo, s.hi)? == 0 {
                        let hi = s.hi.add(-1);
                        let v = self.elem(st, &s, hi)?;
                        self.store_ref(st, &args[0], Val::Sl(Sl { hi, ..s }))?;
                        M::V(Val::some(if self.is_value_iter(self_ty) { v } else { Val::RefV(Rc::new(v)) }))
                    } else {
                        M::V(Val::none())
                    }
                }
                _ => return self.default_method(st, inst, td, self_ty, args, span),
            },
            ("core::iter::traits::exact_size::ExactSizeIterator", "len") if self.is_slice_iter(self_ty) => {
                let s = self.text_of(st, &args[0])?;
                M::V(Val::Int(self.len_of(&s), Ity::Usize))
            }
            ("core::iter::traits::collect::IntoIterator", "into_iter") => match self_ty.kind() {
                ty::Ref(_, p, _) if matches!(p.kind(), ty::Slice(_) | ty::Array(..)) || self.is_textual(*p) => {
                    M::V(Val::Sl(self.text_of(st, &args[0])?))
                }
                ty::Array(..) => match &args[0] {
                    Val::Adt(_, f) => M::V(Val::Sl(Sl::vals((**f).clone()))),
                    v @ Val::Sl(_) => M::V(v.clone()),
                    _ => M::No,
                },
                ty::Adt(d, a) if &*self.g.name_of(d.did()) == "alloc::vec::Vec" && a.type_at(0) == tcx.types.u8 => {
                    M::V(Val::Sl(self.text_of(st, &args[0])?))
                }
                _ => M::No,
            },
            ("core::iter::traits::iterator::Iterator", "next") => match self_ty.kind() {
                ty::Adt(d, a) if &*self.g.name_of(d.did()) == "core::ops::range::Range" && a.type_at(0).is_integral() => {
                    let Val::Adt(_, f) = self.load_ref(st, &args[0])? else { return unsup("range") };
                    let (Val::Int(a, t), Val::Int(b, _)) = (f[0].clone(), f[1].clone()) else { return unsup("range") };
                    if self.compare(st, &a, &b)? == 0 {
                        let n = self.arith(st, BinOp::Add, &a, &Int::C(1))?;
                        self.store_ref(st, &args[0], Val::adt(0, vec![Val::Int(n, t), f[1].clone()]))?;
                        M::V(Val::some(Val::Int(a, t)))
                    } else {
                        M::V(Val::none())
                    }
                }
                _ => M::No,
            },
            ("core::iter::traits::double_ended::DoubleEndedIterator", "next_back") => match self_ty.kind() {
                ty::Adt(d, a) if &*self.g.name_of(d.did()) == "core::ops::range::Range" && a.type_at(0).is_integral() => {
                    let Val::Adt(_, f) = self.load_ref(st, &args[0])? else { return unsup("range") };
                    let (Val::Int(a, t), Val::Int(b, _)) = (f[0].clone(), f[1].clone()) else { return unsup("range") };
                    if self.compare(st, &a, &b)? == 0 {
                        let n = self.arith(st, BinOp::Sub, &b, &Int::C(1))?;
                        self.store_ref(st, &args[0], Val::adt(0, vec![f[0].clone(), Val::Int(n.clone(), t)]))?;
                        M::V(Val::some(Val::Int(n, t)))
                    } else {
                        M::V(Val::none())
                    }
                }
                _ => M::No,
            },
            ("core::cmp::PartialEq", "eq" | "ne") if matches!(self_ty.kind(), ty::Slice(_) | ty::Array(..) | ty::Str) => {
                let a = self.text_of(st, &args[0])?;
                let b = self.text_of(st, &args[1])?;
                let elem_u8 = match self_ty.kind() {
                    ty::Slice(e) | ty::Array(e, _) => *e == tcx.types.u8,
                    _ => true,
                };
                if !elem_u8 {
                    return unsup(format!("comparison of {self_ty}"));
                }
                match self.pair_eq(st, &a, &b, false)? {
                    Some(r) => M::V(Val::bool(r == (m == "eq"))),
                    None => self.shim(if m == "eq" { "slice_eq" } else { "slice_ne" }, vec![Val::Sl(a), Val::Sl(b)])?,
                }
            }
            ("core::cmp::Ord", "cmp") if matches!(self_ty.kind(), ty::Slice(e) if *e == tcx.types.u8) || self_ty.is_str() => {
                let a = self.text_of(st, &args[0])?;
                let b = self.text_of(st, &args[1])?;
                self.shim("slice_cmp", vec![Val::Sl(a), Val::Sl(b)])?
            }
            ("core::cmp::PartialOrd", "partial_cmp") if matches!(self_ty.kind(), ty::Slice(e) if *e == tcx.types.u8) || self_ty.is_str() => {
                let a = self.text_of(st, &args[0])?;
                let b = self.text_of(st, &args[1])?;
                self.shim("slice_partial_cmp", vec![Val::Sl(a), Val::Sl(b)])?
            }
            ("core::convert::AsRef", "as_ref")
            | ("core::borrow::Borrow", "borrow")
            | ("core::ops::deref::Deref", "deref")
            | ("alloc::borrow::ToOwned", "to_owned")
            | ("alloc::string::ToString", "to_string")
            | ("alloc::string::SpecToString", "spec_to_string")
            | ("core::clone::Clone", "clone")
                if self.is_textual(self_ty) && !matches!(self_ty.kind(), ty::Ref(..)) =>
            {
                M::V(Val::Sl(self.text_of(st, &args[0])?))
            }
            ("core::convert::From", "from") if self.is_textual(self_ty) => {
                match self.text_of(st, &args[0]) {
                    Ok(s) => M::V(Val::Sl(s)),
                    Err(_) => M::No,
                }
            }
            ("core::fmt::Display", "fmt") if self_ty.is_str() || (self.is_textual(self_ty) && !matches!(self_ty.kind(), ty::Ref(..))) => {
                let s = self.text_of(st, &args[0])?;
                self.out(st, Val::Sl(s))?;
                M::V(Val::adt(0, vec![Val::unit()]))
            }
            ("core::fmt::Display", "fmt") if self_ty.is_char() => {
                let v = self.load_ref(st, &args[0])?;
                self.out(st, v)?;
                M::V(Val::adt(0, vec![Val::unit()]))
            }
            ("core::fmt::Write", "write_str") | ("core::fmt::Write", "write_char") if matches!(self_ty.kind(), ty::Adt(d, _) if &*self.g.name_of(d.did()) == "core::fmt::Formatter") => {
                let v = if m == "write_str" { Val::Sl(self.text_of(st, &args[1])?) } else { args[1].clone() };
                self.out(st, v)?;
                M::V(Val::adt(0, vec![Val::unit()]))
            }
            ("core::fmt::Debug", "fmt") if self_ty.is_char() => {
                // letters and digits are printed between quotes
                let v = self.load_ref(st, &args[0])?;
                self.out(st, Val::Sl(Sl::bytes(b"'".to_vec())))?;
                self.out(st, v)?;
                self.out(st, Val::Sl(Sl::bytes(b"'".to_vec())))?;
                M::V(Val::adt(0, vec![Val::unit()]))
            }
            ("core::str::pattern::Pattern", "into_searcher") if self_ty.is_char() => {
                let Val::Int(Int::C(c), _) = &args[0] else { return unsup("search for an unknown character") };
                let Some(ch) = char::from_u32(*c as u32) else { return unsup("char") };
                let s = self.text_of(st, &args[1])?;
                let mut buf = [0u8; 4];
                let n = ch.encode_utf8(&mut buf).len();
                let arr = Val::adt(0, buf.iter().map(|b| Val::c(*b as i128, Ity::U(8))).collect());
                let len = Val::Int(self.len_of(&s), Ity::Usize);
                // field order of core::str::pattern::CharSearcher
                let rt = tcx.fn_sig(inst.def_id()).instantiate(tcx, inst.args).skip_norm_wip().skip_binder().output();
                let rt = tcx.normalize_erasing_regions(env(), ty::Unnormalized::new_wip(tcx.erase_and_anonymize_regions(rt)));
                let ty::Adt(d, _) = rt.kind() else { return unsup("searcher") };
                let mut f = vec![];
                for fd in &d.non_enum_variant().fields {
                    f.push(match fd.name.as_str() {
                        "haystack" => Val::Sl(s.clone()),
                        "finger" => Val::usize(0),
                        "finger_back" => len.clone(),
                        "needle" => args[0].clone(),
                        "utf8_size" => Val::c(n as i128, Ity::U(8)),
                        "utf8_encoded" => arr.clone(),
                        x => return unsup(format!("CharSearcher field {x}")),
                    });
                }
                M::V(Val::adt(0, f))
            }
            _ => M::No,
        })
    }
    /// Runs the trait's own definition of a method some type overrides.
    fn default_method(&mut self, st: &mut State<'tcx>, inst: Instance<'tcx>, td: DefId, self_ty: Ty<'tcx>, args: &[Val], _span: Span) -> R<M> {
        let tcx = self.tcx;
        let d = inst.def_id();
        if d == td {
            return Ok(M::No);
        }
        if !tcx.is_mir_available(td) {
            return unsup(format!("no default body for {}", self.g.name_of(d)));
        }
        let p = tcx.parent(d);
        let own = tcx.generics_of(d).own_params.len();
        let skip = inst.args.len() - own;
        let _ = p;
        let ga = tcx.mk_args_from_iter([ty::GenericArg::from(self_ty)].into_iter().chain(inst.args.iter().skip(skip)));
        let i = Instance::new_raw(td, ga);
        self.enter(st, i, args.to_vec()).map(M::F)
    }
}

/// The language of a single-track automaton (with END marker 0 only).
pub fn dfa_lang(name: &str, d: &Dfa) -> Lang {
    let n = d.len();
    let mut next = vec![[n as u16; 256]; n + 1];
    let mut acc = vec![false; n + 1];
    let pad = pad_ls();
    for q in 0..n {
        for t in &d.tr[q] {
            if t.0 & 1 == 1 {
                if ls_and(t.1, pad) != 0 {
                    acc[q] = true;
                }
            } else {
                for b in ls_track_letters(t.1, 0) {
                    if b < 256 {
                        next[q][b as usize] = t.2 as u16;
                    }
                }
            }
        }
    }
    if n == 0 {
        return spec::min_lang(Lang { name: name.into(), next, acc });
    }
    spec::min_lang(Lang { name: name.into(), next, acc })
}

/// The characters of a class, as cuts: outcome 0 inside, 1 outside.
fn char_class(name: &str, is: &dyn Fn(u32) -> bool) -> Rc<Vec<(i128, usize)>> {
    thread_local!(static MEMO: std::cell::RefCell<HashMap<String, Rc<Vec<(i128, usize)>>>> = Default::default());
    if let Some(r) = MEMO.with(|m| m.borrow().get(name).cloned()) {
        return r;
    }
    let mut cuts = vec![(i128::MIN, 1)];
    for c in 0..=0x110000u32 {
        let o = if c < 0x110000 && is(c) { 0 } else { 1 };
        if o != cuts[cuts.len() - 1].1 {
            cuts.push((c as i128, o));
        }
    }
    let r = Rc::new(cuts);
    MEMO.with(|m| m.borrow_mut().insert(name.to_string(), r.clone()));
    r
}
