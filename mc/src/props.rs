//! The properties, each as an exhaustive bounded check of the real code on one grammar.

use crate::earley::{Chart, Earley};
use crate::engine::{sut, Stats};
use crate::pump::pumped;
use crate::gram::{is_t, str_name, sy_name, Sy, EOF, G, T0};
use crate::lrref::{bit, unmask, Act, Auto, Mask, Ref};
use crate::sut::*;
use lrp::{Action, Clr, Error, Lalr, Parser, Position, Slr, State, Tabler, Token};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Cfg {
    /// inputs per grammar (the explored tree is cut level by level; the last level is complete)
    pub nodes: usize,
    pub len: usize,
    /// length of the deviation-bounded long runs (0: none)
    pub long: usize,
    /// namings and production orders per grammar (C12)
    pub orders: usize,
    /// repetitions of recursive parts in long sentences (0: none)
    pub deep: usize,
}

/// reference automata with more states than this are skipped (and counted)
pub const LR_CAP: usize = 2000;

/// sentences longer than this are driven in `far`
const FAR: usize = 4000;

pub type R = Result<(), String>;

#[derive(Clone)]
pub enum AnyP {
    C(Clr<Y>),
    L(Lalr<Y>),
    S(Slr<Y>),
}

macro_rules! with {
    ($p:expr, $q:ident => $e:expr) => {
        match $p {
            AnyP::C($q) => $e,
            AnyP::L($q) => $e,
            AnyP::S($q) => $e,
        }
    };
}

pub(crate) use with;

pub const KINDS: [&str; 3] = ["CLR", "LALR", "SLR"];

impl AnyP {
    pub fn kind(&self) -> &'static str {
        match self {
            AnyP::C(_) => "CLR",
            AnyP::L(_) => "LALR",
            AnyP::S(_) => "SLR",
        }
    }
    pub fn build(kind: &str, g: &G, e: &Enc) -> Result<Self, String> {
        sut(&format!("building the {kind} parser"), || {
            let gr = grammar(g, e);
            match kind {
                "CLR" => AnyP::C(Clr::new(gr)),
                "LALR" => AnyP::L(Lalr::new(gr)),
                _ => AnyP::S(Slr::new(gr)),
            }
        })
    }
    pub fn tables(&self) -> &Tabler<Y> {
        with!(self, p => p.tables())
    }
    pub fn conflicts(&self) -> usize {
        self.tables().conflicts().count()
    }
    pub fn reduce_equals(&mut self) {
        with!(self, p => p.reduce_equals());
    }
}

pub fn build_all(g: &G, e: &Enc) -> Result<Vec<AnyP>, String> {
    KINDS.iter().map(|k| AnyP::build(k, g, e)).collect()
}

/// The kinds whose parsers are driven on inputs. Textbook SLR tables of a grammar in which a
/// nonterminal derives itself contain endless reduction loops; those are out of scope.
pub fn run_kinds(g: &G) -> &'static [&'static str] {
    if g.cyclic() { &KINDS[..2] } else { &KINDS }
}

pub fn hash<T: Hash>(t: T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub fn ys(w: &[Sy], e: &Enc) -> Vec<Y> {
    w.iter().map(|s| e.y(*s)).collect()
}

/// What a run says about the input.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Verdict {
    Accept,
    Reject,
    Conflict,
}

fn verdict(r: &Result<(), Error<Y>>) -> Verdict {
    match r {
        Ok(()) => Verdict::Accept,
        Err(Error::Conflict(..)) => Verdict::Conflict,
        Err(_) => Verdict::Reject,
    }
}

fn show_res(r: &Result<(), Error<Y>>, e: &Enc) -> String {
    match r {
        Ok(()) => "accept".into(),
        Err(Error::UnexpectedToken(t, x)) => format!(
            "UnexpectedToken({}, [{}])",
            e.back(*t).map_or("alien".into(), sy_name),
            str_name(&e.back_all(x))
        ),
        Err(x) => format!("{x:?}"),
    }
}

/// Unit-valued controlled run with state counting.
fn run_unit(p: &AnyP, w: &[Y], g: &G, st: &mut Stats, salt: u64) -> Result<Run<()>, String> {
    st.runs += 1;
    let lim = step_limit(g, w.len());
    let what = p.kind();
    let r = sut(&format!("{what} parser"), || {
        with!(p, q => run(q, unit_toks(w), q.empty::<Feed<()>>(), lim, |d| {
            st.transitions += 1;
            st.state(hash((salt, &d.states)));
        }))
    })?;
    if r.limit {
        return Err(format!("{what} parser made more than {lim} steps without finishing"));
    }
    Ok(r)
}

pub fn salt(p: &AnyP) -> u64 {
    match p {
        AnyP::C(_) => 1,
        AnyP::L(_) => 2,
        AnyP::S(_) => 3,
    }
}

/// Every input over the grammar's terminals, level by level. `f` gets the input's chart and says
/// whether longer inputs with this prefix are worth exploring.
pub fn explore_inputs(ea: &Earley, cfg: &Cfg, mut f: impl FnMut(&Chart) -> Result<bool, String>) -> Result<usize, String> {
    let mut level = vec![ea.start()];
    let mut used = 0;
    let mut depth = 0;
    loop {
        let mut next = Vec::new();
        for c in &level {
            used += 1;
            if f(c)? {
                next.push(c.clone());
            }
        }
        if next.is_empty() || depth >= cfg.len || used + next.len() * ea.terms.len() > cfg.nodes {
            return Ok(depth);
        }
        depth += 1;
        level = next.iter().flat_map(|c| ea.terms.iter().map(move |t| ea.feed(c, *t))).collect();
    }
}

/// Long inputs: a default path that takes the viable tokens round-robin, and every single
/// deviation from it at every position; each prefix is also completed to a sentence.
pub fn explore_long(ea: &Earley, cfg: &Cfg, mut f: impl FnMut(&Chart) -> R) -> R {
    if cfg.long == 0 {
        return Ok(());
    }
    let walk = |from: &Chart, upto: usize, off: usize| -> Vec<Chart> {
        let mut v = vec![from.clone()];
        while v.last().unwrap().w.len() < upto {
            let c = v.last().unwrap();
            let nx: Vec<Sy> = ea.next(c).into_iter().filter(|t| *t != EOF).collect();
            if nx.is_empty() {
                break;
            }
            let t = nx[(c.w.len() + off) % nx.len()];
            let n = ea.feed(c, t);
            v.push(n);
        }
        v
    };
    for off in 0..2 {
        let main = walk(&ea.start(), cfg.long, off);
        for (i, c) in main.iter().enumerate() {
            if i % 4 == 3 || i + 1 == main.len() {
                f(c)?;
                if let Some(w) = ea.completion(c) {
                    let mut d = c.clone();
                    for t in &w[c.w.len()..] {
                        d = ea.feed(&d, *t);
                    }
                    f(&d)?;
                }
            }
            for t in &ea.terms {
                let d = ea.feed(c, *t);
                f(&d)?;
                if ea.alive(&d) && i % 2 == off {
                    let tail = walk(&d, (i + 6).min(cfg.long), off);
                    let l = tail.last().unwrap();
                    f(l)?;
                    if let Some(w) = ea.completion(l) {
                        let mut d = l.clone();
                        for t in &w[l.w.len()..] {
                            d = ea.feed(&d, *t);
                        }
                        f(&d)?;
                    }
                }
            }
        }
    }
    Ok(())
}

/// How often recursive parts are repeated: every number up to 20, then around the powers of two.
fn repeats(deep: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=20).collect();
    for k in [24, 32, 48, 64, 128, 256, 512, 1024] {
        v.extend([k - 1, k, k + 1]);
    }
    v.retain(|k| *k <= deep);
    v
}

/// Long inputs with every recursive part of the grammar repeated: each sentence, its prefixes of
/// half the length and without the last token, the sentence with its last token doubled, and with
/// one token taken out in the middle.
pub fn explore_deep(ea: &Earley, g: &G, ks: &[usize], mut f: impl FnMut(&Chart) -> R) -> R {
    for w in pumped(g, ks) {
        let n = w.len();
        let mut c = ea.start();
        for (i, t) in w.iter().enumerate() {
            if i == n / 2 {
                f(&c)?;
                if let Some(t) = w.get(i + 1) {
                    let mut d = ea.feed(&c, *t);
                    for t in &w[i + 2..] {
                        d = ea.feed(&d, *t);
                    }
                    f(&d)?;
                }
            }
            if i + 1 == n && i != n / 2 {
                f(&c)?;
            }
            c = ea.feed(&c, *t);
        }
        debug_assert!(ea.sentence(&c));
        f(&c)?;
        f(&ea.feed(&c, w[n - 1]))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C01 / C03: verdicts

fn check_verdict(p: &AnyP, c: &Chart, ea: &Earley, g: &G, e: &Enc, st: &mut Stats, conflicted: bool) -> Result<bool, String> {
    let w = ys(&c.w, e);
    let r = run_unit(p, &w, g, st, salt(p))?;
    let k = p.kind();
    let v = verdict(&r.res);
    let sent = ea.sentence(c);
    let alive = ea.alive(c);
    match v {
        Verdict::Conflict => {
            if !conflicted {
                return Err(format!("{k}: table has no conflict but parsing `{}` reports one", str_name(&c.w)));
            }
            st.out("stopped at a conflict");
            // `validate` and the machine without reductors give no verdict either
            st.runs += 1;
            if sut("validate", || with!(p, q => q.validate(unit_toks(&w))))? {
                return Err(format!("{k}: validate calls `{}` valid although parsing stops at a conflict", str_name(&c.w)));
            }
            let dir = sut("simple_dfa", || with!(p, q => q.simple_dfa(unit_toks(&w)).start()))?;
            if verdict(&dir) != v {
                return Err(format!("{k}: simple_dfa().start() gives {} on `{}` but stepping stops at a conflict", show_res(&dir, e), str_name(&c.w)));
            }
            // the verdict does not cover this input; longer ones only matter if the end was seen
            return Ok(r.ended);
        }
        Verdict::Accept => {
            st.out("accepted");
            if !sent {
                return Err(format!("{k}: accepts `{}`, which is not a sentence", str_name(&c.w)));
            }
            if !r.ended {
                return Err(format!("{k}: accepts `{}` without having seen the end of input", str_name(&c.w)));
            }
        }
        Verdict::Reject => {
            st.out("rejected");
            if sent {
                return Err(format!("{k}: rejects the sentence `{}` ({})", str_name(&c.w), show_res(&r.res, e)));
            }
            if !r.ended && alive {
                let wit = ea.completion(c).map_or("?".into(), |w| str_name(&w));
                return Err(format!("{k}: gives up after `{}` ({}), so it rejects the sentence `{wit}`", str_name(&c.w), show_res(&r.res, e)));
            }
        }
    }
    // the other public entry points must agree
    st.runs += 1;
    let val = sut("validate", || with!(p, q => q.validate(unit_toks(&w))))?;
    if val != (v == Verdict::Accept) {
        return Err(format!("{k}: validate says {val} on `{}` but stepping says {v:?}", str_name(&c.w)));
    }
    let dir = sut("simple_dfa", || with!(p, q => q.simple_dfa(unit_toks(&w)).start()))?;
    if verdict(&dir) != v {
        return Err(format!("{k}: simple_dfa().start() gives {} on `{}` but stepping says {v:?}", show_res(&dir, e), str_name(&c.w)));
    }
    Ok(r.ended)
}

fn verdicts(g: &G, cfg: &Cfg, style: u8, st: &mut Stats, conflicted: bool) -> R {
    if !g.augmented() {
        return Ok(());
    }
    let e = Enc::style(style);
    let ps: Vec<AnyP> = run_kinds(g).iter().map(|k| AnyP::build(k, g, &e)).collect::<Result<Vec<_>, _>>()?.into_iter().filter(|p| (p.conflicts() > 0) == conflicted).collect();
    if ps.is_empty() {
        return Ok(());
    }
    let ea = Earley::new(g);
    st.decided += 1;
    let before = st.runs;
    let depth = explore_inputs(&ea, cfg, |c| {
        let mut go = false;
        for p in &ps {
            go |= check_verdict(p, c, &ea, g, &e, st, conflicted)?;
        }
        Ok(go)
    })?;
    st.out(&format!("grammars explored to input length {depth:02}"));
    explore_long(&ea, cfg, |c| {
        for p in &ps {
            check_verdict(p, c, &ea, g, &e, st, conflicted)?;
        }
        Ok(())
    })?;
    explore_deep(&ea, g, &repeats(cfg.deep), |c| {
        for p in &ps {
            check_verdict(p, c, &ea, g, &e, st, conflicted)?;
        }
        Ok(())
    })?;
    let n = st.runs - before;
    st.sample(|| format!("{} [{}; all inputs to length {depth}; {n} executions]", g.text(), ps.iter().map(|p| p.kind()).collect::<Vec<_>>().join(",")));
    Ok(())
}

pub fn c01(g: &G, cfg: &Cfg, style: u8, st: &mut Stats) -> R {
    if cfg.deep > FAR {
        return crate::far::far("C01", g, cfg, style, st);
    }
    verdicts(g, cfg, style, st, false)
}

pub fn c03(g: &G, cfg: &Cfg, style: u8, st: &mut Stats) -> R {
    verdicts(g, cfg, style, st, true)
}

// ---------------------------------------------------------------- C02: conflicts

pub fn c02(g: &G, _cfg: &Cfg, style: u8, st: &mut Stats) -> R {
    if !g.augmented() || !g.reduced() {
        return Ok(());
    }
    let rf = Ref::new(g);
    let Some(clr) = rf.clr(LR_CAP) else {
        st.out("skipped: reference automaton too large");
        return Ok(());
    };
    let lalr = rf.lalr(&clr);
    let slr = rf.slr(LR_CAP).unwrap();
    st.decided += 1;
    let e = Enc::style(style);
    let mut flags = Vec::new();
    for (k, a) in KINDS.iter().zip([&clr, &lalr, &slr]) {
        let p = AnyP::build(k, g, &e)?;
        let got = p.conflicts();
        let want = a.conflicts();
        st.runs += 1;
        st.states += a.states.len() as u64;
        st.transitions += a.trans.iter().map(|t| t.len() as u64).sum::<u64>();
        if (got > 0) != (want > 0) {
            return Err(format!(
                "{k}: {got} conflicts reported, but the grammar {} {k}(1) (reference: {want} conflicting cells)",
                if want > 0 { "is not" } else { "is" }
            ));
        }
        flags.push(want > 0);
    }
    let class = match (flags[0], flags[1], flags[2]) {
        (false, false, false) => "SLR(1)",
        (false, false, true) => "LALR(1) but not SLR(1)",
        (false, true, true) => "LR(1) but not LALR(1)",
        (true, true, true) => "not LR(1)",
        _ => return Err(format!("reference hierarchy broken: {flags:?}")),
    };
    st.out(class);
    st.sample(|| format!("{} [{class}]", g.text()));
    Ok(())
}

// ---------------------------------------------------------------- C04: semantic actions

/// Checks that the tree is built from the right productions, and returns its yield.
fn check_tree(v: &V, ty: Sy, prods: &[(Sy, Vec<Sy>, usize)], w: &[Sy], e: &Enc, out: &mut Vec<u16>) -> R {
    match v {
        V::Leaf(i) => {
            if !is_t(ty) || w.get(*i as usize) != Some(&ty) {
                return Err(format!("symbol {} carries the value of input token {i}", sy_name(ty)));
            }
            out.push(*i);
        }
        V::Node(p, ch) => {
            let (l, r, _) = &prods[*p as usize];
            if *l != ty {
                return Err(format!("symbol {} carries a value made by a reductor of {}", sy_name(ty), sy_name(*l)));
            }
            let types: Vec<Sy> = ch.iter().map(|c| e.back(c.1).unwrap_or(254)).collect();
            if types != *r {
                return Err(format!(
                    "reductor of {} -> {} received [{}]",
                    sy_name(*l),
                    str_name(r),
                    str_name(&types)
                ));
            }
            for (c, t) in ch.iter().zip(types) {
                check_tree(&c.0, t, prods, w, e, out)?;
            }
        }
    }
    Ok(())
}

/// The reductions in reverse order must be the rightmost derivation of `w` from the entry body.
fn check_rightmost(log: &[u16], prods: &[(Sy, Vec<Sy>, usize)], w: &[Sy]) -> R {
    let mut form = prods[0].1.clone();
    for p in log.iter().rev() {
        let (l, r, _) = &prods[*p as usize];
        let Some(i) = form.iter().rposition(|s| !is_t(*s)) else {
            return Err("more reductions than the derivation has steps".into());
        };
        if form[i] != *l {
            return Err(format!(
                "reduction by {} -> {} where the rightmost derivation expands {}",
                sy_name(*l),
                str_name(r),
                sy_name(form[i])
            ));
        }
        form.splice(i..=i, r.iter().copied());
    }
    if form != w {
        return Err(format!("the reductions derive `{}`", str_name(&form)));
    }
    Ok(())
}

fn check_values(p: &AnyP, c: &Chart, g: &G, e: &Enc, prods: &[(Sy, Vec<Sy>, usize)], st: &mut Stats) -> R {
    let k = p.kind();
    let w = ys(&c.w, e);
    let fail = |m: String| format!("{k}: on the sentence `{}`: {m}", str_name(&c.w));
    // through Parser::parse
    LOG.with(|l| l.borrow_mut().clear());
    st.runs += 1;
    let v = sut("parse", || with!(p, q => q.parse(leaf_toks(&w), recording_map(g, e))))?;
    let log = LOG.with(|l| l.borrow().clone());
    let v = v.map_err(|x| fail(format!("parse fails: {}", show_res(&Err(x), e))))?;
    check_rightmost(&log, prods, &c.w).map_err(&fail)?;
    let last = *prods[0].1.last().unwrap();
    let mut y = Vec::new();
    check_tree(&v, last, prods, &c.w, e, &mut y).map_err(&fail)?;
    if prods[0].1.len() == 1 && y != (0..c.w.len() as u16).collect::<Vec<_>>() {
        return Err(fail(format!("the result covers input tokens {y:?}")));
    }
    // through the stepping interface: same reductions, same value
    LOG.with(|l| l.borrow_mut().clear());
    st.runs += 1;
    let lim = step_limit(g, w.len());
    let r = sut("trace", || {
        with!(p, q => run(q, leaf_toks(&w), recording_map(g, e), lim, |d| {
            st.transitions += 1;
            st.state(hash((salt(p), &d.states)));
        }))
    })?;
    let log2 = LOG.with(|l| l.borrow().clone());
    if r.res.is_err() || r.limit {
        return Err(fail(format!("stepping fails: {}", show_res(&r.res, e))));
    }
    if log2 != log {
        return Err(fail("parse and stepping run different reductions".into()));
    }
    if r.dfa.items.last().map(|t| &t.item) != Some(&v) {
        return Err(fail("parse and stepping produce different values".into()));
    }
    // through a machine that is handed its input
    LOG.with(|l| l.borrow_mut().clear());
    st.runs += 1;
    let r = sut("parse on a machine", || with!(p, q => q.dfa(leaf_toks(&[]).into_iter(), recording_map(g, e)).parse(leaf_toks(&w).into_iter())))?;
    match r {
        Ok(x) if x == v => {}
        Ok(_) => return Err(fail("Parser::parse and Dfa::parse give different values".into())),
        Err(x) => return Err(fail(format!("Dfa::parse fails: {}", show_res(&Err(x), e)))),
    }
    if LOG.with(|l| *l.borrow() != log) {
        return Err(fail("Parser::parse and Dfa::parse run different reductions".into()));
    }
    // the built-in transparent reductors
    if prods[0].1.len() == 1 {
        let toks: Vec<Token<Y, Y>> = w.iter().map(|y| Token::new(*y, *y)).collect();
        let r = sut("parse with cloned()", || with!(p, q => q.parse(toks.clone(), q.cloned::<std::vec::IntoIter<Token<Y, Y>>>())))?;
        if !matches!(&r, Ok(_)) {
            return Err(fail("parse with the cloned() reductors fails".into()));
        }
    }
    st.out_n("reductions checked", log.len() as u64);
    Ok(())
}

pub fn c04(g: &G, cfg: &Cfg, style: u8, st: &mut Stats) -> R {
    if cfg.deep > FAR {
        return crate::far::far("C04", g, cfg, style, st);
    }
    if !g.augmented() || g.prods().len() > MAXP {
        return Ok(());
    }
    let e = Enc::style(style);
    let ps: Vec<AnyP> = build_all(g, &e)?.into_iter().filter(|p| p.conflicts() == 0).collect();
    if ps.is_empty() {
        return Ok(());
    }
    let ea = Earley::new(g);
    let prods = g.prods();
    let mut n = 0u64;
    let mut one = String::new();
    let mut each = |c: &Chart| -> R {
        if ea.sentence(c) {
            n += 1;
            one = str_name(&c.w);
            for p in &ps {
                check_values(p, c, g, &e, &prods, st)?;
            }
        }
        Ok(())
    };
    let depth = explore_inputs(&ea, cfg, |c| {
        each(c)?;
        Ok(ea.alive(c))
    })?;
    explore_long(&ea, cfg, &mut each)?;
    explore_deep(&ea, g, &repeats(cfg.deep), &mut each)?;
    if n > 0 {
        st.decided += 1;
        st.out_n("sentences", n);
        st.sample(|| format!("{} [every sentence to length {depth} ({n}), e.g. `{one}`]", g.text()));
    }
    Ok(())
}

// ---------------------------------------------------------------- C05: errors

fn check_error(p: &AnyP, c: &Chart, bad: Option<Y>, tail: &[Y], ea: &Earley, g: &G, e: &Enc, st: &mut Stats) -> R {
    let k = p.kind();
    let mut w = ys(&c.w, e);
    let n = w.len();
    if let Some(b) = bad {
        w.push(b);
        w.extend_from_slice(tail);
    }
    let shown = || {
        let mut s = str_name(&c.w);
        if let Some(b) = bad {
            s.push_str(&format!(" <{}>", e.back(b).map_or("alien".into(), sy_name)));
        }
        s
    };
    LOG.with(|l| l.borrow_mut().clear());
    st.runs += 1;
    let lim = step_limit(g, w.len());
    // reductions that happened before the offending token was handed out
    let mut early = None;
    let r = sut("trace", || {
        with!(p, q => run(q, leaf_toks(&w), recording_map(g, e), lim, |d| {
            st.transitions += 1;
            st.state(hash((salt(p), &d.states)));
            // the callback runs before the parser looks at its next token, so items are counted here
            if early.is_none() && d.items.iter().map(|t| width(&t.item)).sum::<usize>() == n {
                early = Some(LOG.with(|l| l.borrow().len()));
            }
        }))
    })?;
    let log = LOG.with(|l| l.borrow().len());
    if r.limit {
        return Err(format!("{k}: more than {lim} steps on `{}`", shown()));
    }
    let found = bad.unwrap_or(e.y(EOF));
    let exp = match &r.res {
        Err(Error::UnexpectedToken(t, x)) => {
            if *t != found {
                return Err(format!("{k}: on `{}` the error blames {} instead of the first bad token", shown(), e.back(*t).map_or("alien".into(), sy_name)));
            }
            x.clone()
        }
        other => return Err(format!("{k}: on `{}` the result is {} instead of an unexpected-token error", shown(), show_res(other, e))),
    };
    if r.polls != n + usize::from(bad.is_some()) || r.ended != bad.is_none() {
        return Err(format!("{k}: on `{}` the parser took {} tokens before reporting the error (end seen: {})", shown(), r.polls, r.ended));
    }
    let consumed: usize = r.dfa.items.iter().map(|t| width(&t.item)).sum();
    if consumed != n {
        return Err(format!("{k}: on `{}` {consumed} tokens were shifted before the error", shown()));
    }
    if exp.contains(&found) {
        return Err(format!("{k}: on `{}` the offending token is listed as expected", shown()));
    }
    let mut want: Vec<Y> = ea.next(c).iter().map(|s| e.y(*s)).collect();
    want.sort();
    let mut got = exp.clone();
    got.sort();
    if got.windows(2).any(|p| p[0] == p[1]) {
        return Err(format!("{k}: on `{}` the expected list has duplicates", shown()));
    }
    if k == "CLR" {
        if got != want {
            return Err(format!(
                "{k}: on `{}` the expected list is [{}], the tokens that can follow are [{}]",
                shown(),
                str_name(&e.back_all(&got)),
                str_name(&e.back_all(&want))
            ));
        }
        if early != Some(log) {
            return Err(format!("{k}: on `{}` reductors run after the last good token although the next token is bad", shown()));
        }
    } else if got.iter().any(|y| !e.back(*y).is_some_and(is_t)) {
        return Err(format!("{k}: on `{}` the expected list names something that is not a token: [{}]", shown(), str_name(&e.back_all(&got))));
    } else if got.is_empty() {
        return Err(format!("{k}: on `{}` nothing is listed as expected", shown()));
    } else {
        // what the machine would take from here must be listed; and if no action ran since the
        // wrong token was read, everything that could have come
        for s in ea.terms.iter().copied().chain([EOF]) {
            let y = e.y(s);
            let must = if early == Some(log) { want.contains(&y) } else { takes(p.tables(), &r.dfa.states, y) };
            if must && !got.contains(&y) {
                return Err(format!("{k}: on `{}` {} could come, but is not among the expected [{}]", shown(), sy_name(s), str_name(&e.back_all(&got))));
            }
        }
    }
    st.out(&format!("{k} error located"));
    Ok(())
}

/// Whether the table takes `y` (shifts it or accepts on it) with these states on the stack.
fn takes(t: &Tabler<Y>, states: &[usize], y: Y) -> bool {
    let mut st = states.to_vec();
    for _ in 0..1000 {
        match st.last().and_then(|s| t.actions.get(*s)).and_then(|r| r.get(&y)) {
            Some(Action::Shift(_) | Action::Acc) => return true,
            Some(Action::Reduce(n, p)) => {
                st.truncate(st.len().saturating_sub(p.0.len()));
                match st.last().and_then(|s| t.actions.get(*s)).and_then(|r| r.get(n)) {
                    Some(Action::Goto(to)) => st.push(*to),
                    _ => return false,
                }
            }
            _ => return false,
        }
    }
    false
}

fn width(v: &V) -> usize {
    match v {
        V::Leaf(_) => 1,
        V::Node(_, c) => c.iter().map(|x| width(&x.0)).sum(),
    }
}

pub fn c05(g: &G, cfg: &Cfg, style: u8, st: &mut Stats) -> R {
    if cfg.deep > FAR {
        return crate::far::far("C05", g, cfg, style, st);
    }
    if !g.augmented() || !g.reduced() || g.prods().len() > MAXP {
        return Ok(());
    }
    let e = Enc::style(style);
    let ps: Vec<AnyP> = build_all(g, &e)?.into_iter().filter(|p| p.conflicts() == 0).collect();
    if ps.is_empty() {
        return Ok(());
    }
    let ea = Earley::new(g);
    st.decided += 1;
    let before = st.runs;
    let mut each = |c: &Chart| -> R {
        let next = ea.next(c);
        for p in &ps {
            if !next.contains(&EOF) {
                check_error(p, c, None, &[], &ea, g, &e, st)?;
            }
            let mut bad: Vec<Y> = ea.terms.iter().filter(|t| !next.contains(t)).map(|t| e.y(*t)).collect();
            bad.push(ALIEN);
            bad.extend((0..g.rules.len()).map(|n| e.y(n as Sy)));
            for b in bad {
                // what follows the offending token must not matter
                let tail = [e.y(ea.terms.first().copied().unwrap_or(T0)), ALIEN];
                check_error(p, c, Some(b), &tail, &ea, g, &e, st)?;
            }
        }
        Ok(())
    };
    let depth = explore_inputs(&ea, cfg, |c| {
        if !ea.alive(c) {
            return Ok(false);
        }
        each(c)?;
        Ok(true)
    })?;
    if cfg.long > 0 {
        let mut cnt = 0;
        explore_long(&ea, cfg, |c| {
            cnt += 1;
            if ea.alive(c) && cnt % 3 == 0 {
                each(c)?;
            }
            Ok(())
        })?;
    }
    explore_deep(&ea, g, &repeats(cfg.deep), |c| if ea.alive(c) { each(c) } else { Ok(()) })?;
    let n = st.runs - before;
    st.sample(|| format!("{} [every bad token after every viable prefix to length {depth}; {n} executions]", g.text()));
    Ok(())
}

// ---------------------------------------------------------------- C06: construction is total

fn sane_tables(p: &AnyP) -> R {
    let t = p.tables();
    let k = p.kind();
    let n = t.actions.len();
    if n == 0 {
        return Err(format!("{k}: empty action table"));
    }
    fn targets<T>(a: &Action<T>, out: &mut Vec<usize>) {
        match a {
            Action::Shift(i) | Action::Goto(i) => out.push(*i),
            Action::Conflict(a, b) => {
                targets(a, out);
                targets(b, out);
            }
            _ => {}
        }
    }
    let mut v = Vec::new();
    for a in t.actions.iter().flat_map(|r| r.values()) {
        targets(a, &mut v);
    }
    if let Some(x) = v.iter().find(|x| **x >= n) {
        return Err(format!("{k}: an action leads to state {x}, there are {n}"));
    }
    for a in t.actions.iter().flat_map(|r| r.values()) {
        let mut v = Vec::new();
        flat(a, &mut v);
        for a in v {
            if let Action::Reduce(name, prod) = a {
                if t.grammar.rules.get(name).and_then(|r| r.prods.get(prod.1)).map(|p| p.as_ref()) != Some(prod.as_ref()) {
                    return Err(format!("{k}: an action reduces by {name:?} {prod:?}, which is not a production"));
                }
            }
        }
    }
    Ok(())
}

/// The same grammar with the entry dropped and its single symbol made the entry: entry symbol
/// used recursively.
fn unaugmented(g: &G) -> Option<G> {
    if g.rules[0] != vec![vec![1]] || g.rules.len() < 2 || g.rules[1].len() != 1 {
        return None;
    }
    let f = |s: Sy| if is_t(s) { s } else { s - 1 };
    Some(G {
        rules: g.rules[1..].iter().map(|r| r.iter().map(|p| p.iter().map(|s| f(*s)).collect()).collect()).collect(),
    })
}

pub fn c06(g: &G, _cfg: &Cfg, style: u8, st: &mut Stats) -> R {
    let e = Enc::style(style);
    let mut gs = vec![g.clone()];
    gs.extend(unaugmented(g));
    for h in &gs {
        st.decided += 1;
        let t = sut("Tabler::new", || Tabler::new(grammar(h, &e)))?;
        if t.first.len() != h.rules.len() {
            return Err(format!("FIRST has {} entries for {} rules", t.first.len(), h.rules.len()));
        }
        for k in KINDS {
            let mut p = AnyP::build(k, h, &e)?;
            sane_tables(&p)?;
            st.runs += 1;
            st.states += p.tables().states.len() as u64;
            st.transitions += p.tables().actions.iter().map(|r| r.len() as u64).sum::<u64>();
            st.out(if p.conflicts() > 0 { "built with conflicts" } else { "built without conflicts" });
            sut("reduce_equals", || p.reduce_equals())?;
            sane_tables(&p)?;
        }
        st.sample(|| format!("{} [all three tables built]", h.text()));
    }
    Ok(())
}

// ---------------------------------------------------------------- C07: parsing is total

pub fn c07(g: &G, cfg: &Cfg, style: u8, st: &mut Stats) -> R {
    if cfg.deep > FAR {
        return crate::far::far("C07", g, cfg, style, st);
    }
    let e = Enc::style(style);
    let mut gs = vec![g.clone()];
    gs.extend(unaugmented(g));
    for h in &gs {
        let mut terms: Vec<Sy> = h.rules.iter().flatten().flatten().copied().filter(|s| is_t(*s)).collect();
        terms.sort_unstable();
        terms.dedup();
        let mut alpha: Vec<(Y, bool)> = terms.iter().map(|t| (e.y(*t), true)).collect();
        alpha.push((e.y(EOF), false));
        alpha.push((ALIEN, false));
        alpha.extend((0..h.rules.len()).map(|n| (e.y(n as Sy), false)));
        st.decided += 1;
        for k in run_kinds(h) {
            let mut p = AnyP::build(k, h, &e)?;
            for reduced in [false, true] {
                if reduced {
                    sut("reduce_equals", || p.reduce_equals())?;
                }
                // `true`: the input was read to its end, longer ones are worth a look
                let one = |w: &[Y], good: bool, st: &mut Stats| -> Result<bool, String> {
                        let shown = || str_name(&w.iter().map(|y| e.back(*y).unwrap_or(254)).collect::<Vec<_>>());
                        let r = run_unit(&p, w, h, st, salt(&p)).map_err(|m| format!("{m} on input `{}`", shown()))?;
                        match &r.res {
                            Ok(()) => {
                                if !good {
                                    return Err(format!("{k}: accepts `{}`, which contains a symbol that is no terminal of the grammar", shown()));
                                }
                                st.out("accepted");
                            }
                            Err(x @ (Error::MissingPreviousState | Error::StateNotSpecified)) => {
                                return Err(format!("{k}: internal error {x:?} on input `{}`", shown()));
                            }
                            Err(Error::Conflict(..)) => {
                                if p.conflicts() == 0 {
                                    return Err(format!("{k}: conflict reported from a conflict-free table on `{}`", shown()));
                                }
                                st.out("conflict");
                            }
                            Err(Error::UnexpectedToken(..)) => st.out("unexpected token"),
                            Err(Error::UnexpectedEof) => st.out("unexpected eof"),
                            Err(Error::IncompleteExec) => st.out("incomplete"),
                        }
                        if r.polled_after_end {
                            return Err(format!("{k}: asks for more input after the end of `{}`", shown()));
                        }
                        // the non-stepping entry points must come back as well
                        let v = sut("validate", || with!(&p, q => q.validate(unit_toks(w)))).map_err(|m| format!("{k}: {m} on input `{}`", shown()))?;
                        if v != r.res.is_ok() {
                            return Err(format!("{k}: validate disagrees with stepping on `{}`", shown()));
                        }
                        Ok(r.ended)
                };
                let mut level: Vec<(Vec<Y>, bool)> = vec![(vec![], true)];
                let mut used = 0;
                let mut depth = 0;
                loop {
                    let mut next = Vec::new();
                    for (w, good) in &level {
                        used += 1;
                        if one(w, *good, st)? {
                            next.push((w.clone(), *good));
                        }
                    }
                    if next.is_empty() || depth >= cfg.len || used + next.len() * alpha.len() > cfg.nodes {
                        break;
                    }
                    depth += 1;
                    level = next
                        .iter()
                        .flat_map(|(w, g)| {
                            alpha.iter().map(move |(y, ok)| {
                                let mut v = w.clone();
                                v.push(*y);
                                (v, *g && *ok)
                            })
                        })
                        .collect();
                }
                // long sentences, whole, cut, and followed by a foreign symbol of every kind
                for w in pumped(h, &repeats(cfg.deep)) {
                    let w = ys(&w, &e);
                    one(&w, true, st)?;
                    for n in [w.len() / 2, w.len()] {
                        for (y, ok) in &alpha {
                            let mut v = w[..n].to_vec();
                            v.push(*y);
                            one(&v, *ok, st)?;
                        }
                    }
                }
                if !reduced {
                    st.out(&format!("tables explored to input length {depth:02}"));
                }
            }
        }
        st.sample(|| format!("{} [all token sequences, foreign symbols included]", h.text()));
    }
    Ok(())
}

// ---------------------------------------------------------------- C08: FIRST and FOLLOW

pub fn c08(g: &G, cfg: &Cfg, style: u8, st: &mut Stats) -> R {
    let e = Enc::style(style);
    let t = sut("Tabler::new", || Tabler::new(grammar(g, &e)))?;
    let rf = Ref::new(g);
    st.decided += 1;
    st.runs += 1;
    st.states += g.rules.len() as u64 * 2;
    let reach = g.reachable();
    for (n, reachable) in reach.iter().enumerate() {
        let y = e.y(n as Sy);
        let got: Vec<Sy> = e.back_all(t.first.get(&y).map(|s| s.iter().collect::<Vec<_>>()).unwrap_or_default());
        let want = unmask(rf.first[n]);
        if got != want {
            return Err(format!("FIRST({}) = {{{}}}, should be {{{}}}", sy_name(n as Sy), str_name(&got), str_name(&want)));
        }
        st.transitions += want.len() as u64;
        let got: Vec<Sy> = e.back_all(t.follow.get(&y).map(|s| s.iter().collect::<Vec<_>>()).unwrap_or_default());
        let want = unmask(rf.follow[n]);
        if got != want {
            return Err(format!("FOLLOW({}) = {{{}}}, should be {{{}}}", sy_name(n as Sy), str_name(&got), str_name(&want)));
        }
        st.transitions += want.len() as u64;
        if *reachable && n > 0 && !t.follow.contains_key(&y) {
            return Err(format!("FOLLOW has no entry for the reachable {}", sy_name(n as Sy)));
        }
    }
    for y in t.first.keys().chain(t.follow.keys()) {
        if !e.back(*y).is_some_and(|s| !is_t(s) && (s as usize) < g.rules.len()) {
            return Err("FIRST or FOLLOW has an entry for something that is no nonterminal".into());
        }
    }
    // the set-level helper
    for n in 0..g.rules.len() {
        for m in 0..g.rules.len() {
            let s: lrp::Set<Y> = [e.y(n as Sy), e.y(m as Sy), e.y(T0)].into_iter().collect();
            let got = e.back_all(&t.first_of(&s));
            let want = unmask(rf.first[n] | rf.first[m] | bit(T0));
            if got != want {
                return Err(format!("first_of({{{}, {}, a}}) = {{{}}}, should be {{{}}}", sy_name(n as Sy), sy_name(m as Sy), str_name(&got), str_name(&want)));
            }
        }
    }
    // By derivation: on a reduced grammar FIRST and FOLLOW are what derivations show. Bounded
    // enumeration of sentential forms; every fact found must be in the sets.
    if cfg.len > 0 && g.augmented() && g.reduced() {
        let (first, follow) = by_derivation(g, cfg.len, cfg.nodes);
        for n in 0..g.rules.len() {
            if first[n] & !rf.first[n] != 0 || follow[n] & !rf.follow[n] != 0 {
                return Err(format!("a derivation contradicts the reference sets of {}", sy_name(n as Sy)));
            }
            if first[n] == rf.first[n] && follow[n] == rf.follow[n] {
                st.out("sets realised completely by enumerated derivations");
            } else {
                st.out("sets realised partly within the derivation bound");
            }
        }
    }
    st.out_n("sets compared", 2 * g.rules.len() as u64);
    st.sample(|| format!("{} [FIRST and FOLLOW of {} nonterminals]", g.text(), g.rules.len()));
    Ok(())
}

/// FIRST/FOLLOW facts visible in sentential forms reachable within the bound.
fn by_derivation(g: &G, len: usize, nodes: usize) -> (Vec<Mask>, Vec<Mask>) {
    let n = g.rules.len();
    let mut first = vec![0; n];
    let mut follow = vec![0; n];
    for a in 0..n {
        let mut seen = HashSet::new();
        let mut st = vec![a as Sy];
        while let Some(x) = st.pop() {
            if is_t(x) {
                first[a] |= bit(x);
            } else if seen.insert(x) {
                st.extend(g.rules[x as usize].iter().map(|p| p[0]));
            }
        }
    }
    let mut seen: HashSet<Vec<Sy>> = HashSet::new();
    let mut q = std::collections::VecDeque::from([vec![0 as Sy]]);
    while let Some(f) = q.pop_front() {
        for i in 0..f.len() {
            if is_t(f[i]) {
                continue;
            }
            match f.get(i + 1) {
                None => follow[f[i] as usize] |= bit(EOF),
                Some(s) if is_t(*s) => follow[f[i] as usize] |= bit(*s),
                Some(s) => follow[f[i] as usize] |= first[*s as usize],
            }
            for p in &g.rules[f[i] as usize] {
                if f.len() - 1 + p.len() <= len && seen.len() < nodes {
                    let mut h = f[..i].to_vec();
                    h.extend(p);
                    h.extend(&f[i + 1..]);
                    if seen.insert(h.clone()) {
                        q.push_back(h);
                    }
                }
            }
        }
    }
    (first, follow)
}

// ---------------------------------------------------------------- C09: reuse

type Res = Result<V, Error<Y>>;

fn fresh(p: &AnyP, w: &[Y], g: &G, e: &Enc) -> Result<Res, String> {
    sut("parse", || with!(p, q => q.parse(leaf_toks(w), recording_map(g, e))))
}

pub fn c09(g: &G, cfg: &Cfg, style: u8, st: &mut Stats) -> R {
    if cfg.deep > FAR {
        return crate::far::far("C09", g, cfg, style, st);
    }
    if !g.augmented() || g.prods().len() > MAXP {
        return Ok(());
    }
    let e = Enc::style(style);
    let ea = Earley::new(g);
    // inputs of every kind: sentences, unfinished, bad early, bad late, trailing garbage
    let mut words: Vec<(u8, Vec<Sy>)> = Vec::new();
    let wcfg = Cfg { nodes: 120, len: 6, ..cfg.clone() };
    explore_inputs(&ea, &wcfg, |c| {
        let kind = if ea.sentence(c) { 0 } else if ea.alive(c) { 1 } else { 2 };
        let cap = if kind == 0 { 3 } else { 2 };
        let cnt = words.iter().filter(|x| x.0 == kind).count();
        if cnt < cap {
            words.push((kind, c.w.clone()));
        } else if kind == 0 && c.w.len() > words.iter().filter(|x| x.0 == 0).map(|x| x.1.len()).max().unwrap_or(0) {
            let i = words.iter().rposition(|x| x.0 == 0).unwrap();
            words[i].1 = c.w.clone();
        } else if kind > 0 && c.w.len() > 1 {
            let i = words.iter().rposition(|x| x.0 == kind).unwrap();
            words[i].1 = c.w.clone();
        }
        Ok(ea.alive(c))
    })?;
    if !words.iter().any(|x| x.0 == 0) {
        return Ok(());
    }
    let mut inputs: Vec<Vec<Y>> = words.iter().map(|x| ys(&x.1, &e)).collect();
    let mut junk = inputs[words.iter().position(|x| x.0 == 0).unwrap()].clone();
    junk.push(e.y(EOF));
    inputs.push(junk);
    if cfg.deep > 0 {
        // one long sentence, and the same unfinished
        if let Some(w) = pumped(g, &[cfg.deep]).into_iter().max_by_key(Vec::len) {
            inputs.push(ys(&w, &e));
            inputs.push(ys(&w[..w.len() - 1], &e));
        }
    }
    st.decided += 1;
    for k in run_kinds(g) {
        let p = AnyP::build(k, g, &e)?;
        let want: Vec<Res> = inputs.iter().map(|w| fresh(&p, w, g, &e)).collect::<Result<_, _>>()?;
        // operations: parse input i (0..n), abandon input i after s steps (n..)
        let n = inputs.len();
        let mut ops: Vec<(usize, usize)> = (0..n).map(|i| (i, usize::MAX)).collect();
        let longest = (0..n).max_by_key(|i| inputs[*i].len()).unwrap();
        for s in [1, 2, 4] {
            ops.push((longest, s));
        }
        let show = |h: &[(usize, usize)]| {
            h.iter()
                .map(|(i, s)| {
                    let w = str_name(&inputs[*i].iter().map(|y| e.back(*y).unwrap_or(254)).collect::<Vec<_>>());
                    if *s == usize::MAX { format!("parse `{w}`") } else { format!("abandon `{w}` after {s} steps") }
                })
                .collect::<Vec<_>>()
                .join(", then ")
        };
        // every history of the deepest length that fits the cap, at least two operations
        let cap = cfg.nodes * 10;
        let mut depth = 2;
        while depth < 6 && ops.len().pow(depth as u32 + 1) <= cap {
            depth += 1;
        }
        st.out(&format!("parsers with every history to {depth} operations"));
        let mut hist: Vec<Vec<(usize, usize)>> = vec![vec![]];
        for _ in 0..depth {
            // only maximal histories are executed: every prefix is checked on the way
            hist = hist.iter().flat_map(|h| ops.iter().map(move |op| { let mut h2 = h.clone(); h2.push(*op); h2 })).collect();
        }
        st.out_n("histories", hist.len() as u64);
        for h in &hist {
            st.runs += 1;
            let r = sut("reused Dfa", || -> R {
                with!(&p, q => {
                    let mut dfa = q.dfa(Feed::new(leaf_toks(&[])).0, recording_map(g, &e));
                    for (j, (i, s)) in h.iter().enumerate() {
                        st.transitions += 1;
                        if *s == usize::MAX {
                            let got = dfa.parse(Feed::new(leaf_toks(&inputs[*i])).0);
                            if got != want[*i] {
                                return Err(format!("{k}: history [{}]: last result is {got:?}, a fresh parser gives {:?}", show(&h[..=j]), want[*i]));
                            }
                            st.state(hash((salt(&p), "after", &dfa.states, dfa.items.len(), dfa.finished)));
                            if got.is_ok() && j + 1 == h.len() {
                                // accepted: the machine stands at the beginning again, ready to be driven
                                let i = h[0].0;
                                dfa.buffer = Feed::new(leaf_toks(&inputs[i])).0.peekable();
                                let r = dfa.start().and_then(|()| dfa.items.pop().map(|t| t.item).ok_or(Error::MissingPreviousState));
                                if r != want[i] {
                                    return Err(format!("{k}: history [{}], then driven by hand on `{}`: {r:?}, a fresh parser gives {:?}", show(h), show(&[(i, usize::MAX)]), want[i]));
                                }
                            }
                        } else {
                            dfa.reset();
                            dfa.buffer = Feed::new(leaf_toks(&inputs[*i])).0.peekable();
                            for _ in 0..*s {
                                if dfa.finished {
                                    break;
                                }
                                let sym = dfa.buffer.peek().map_or(dfa.eof, |t| t.ty);
                                if dfa.travel(&sym).is_err() {
                                    break;
                                }
                            }
                            st.state(hash((salt(&p), "mid", &dfa.states, dfa.items.len(), dfa.finished)));
                        }
                    }
                    // reset() must give the initial machine: drive it by hand once more
                    let (i, _) = h[0];
                    dfa.reset();
                    dfa.buffer = Feed::new(leaf_toks(&inputs[i])).0.peekable();
                    let r = dfa.start();
                    let r = match r {
                        Ok(()) => dfa.items.pop().map(|t| t.item).ok_or(Error::MissingPreviousState),
                        Err(x) => Err(x),
                    };
                    if r != want[i] {
                        return Err(format!("{k}: history [{}], then reset and `{}`: {r:?}, a fresh parser gives {:?}", show(h), show(&[(i, usize::MAX)]), want[i]));
                    }
                    Ok(())
                })
            })
            .map_err(|m| format!("{k}: history [{}]: {m}", show(h)))?;
            r?;
        }
        interleaved(&p, &inputs, &want, g, &e, st).map_err(|m| format!("{k}: {m}"))?;
        st.out_n("inputs in the alphabet", n as u64);
    }
    st.sample(|| format!("{} [{} inputs, first `{}`, last `{}`]", g.text(), inputs.len(), str_name(&words[0].1), str_name(&words[words.len() - 1].1)));
    Ok(())
}

/// Two machines of one parser, stepped in every interleaving with at most two switches between
/// them before both run to their end, give what each gives alone.
fn interleaved(p: &AnyP, inputs: &[Vec<Y>], want: &[Res], g: &G, e: &Enc, st: &mut Stats) -> R {
    fn step(d: &mut lrp::Dfa<V, Y, Feed<V>>) -> Option<Res> {
        if !d.finished {
            let sym = d.buffer.peek().map_or(d.eof, |t| t.ty);
            if let Err(x) = d.travel(&sym) {
                return Some(Err(x));
            }
        }
        d.finished.then(|| d.items.pop().map(|t| t.item).ok_or(Error::MissingPreviousState))
    }
    let short: Vec<usize> = (0..inputs.len()).filter(|i| inputs[*i].len() <= 8).take(5).collect();
    with!(p, q => {
        let machine = |i: usize| q.dfa(Feed::new(leaf_toks(&inputs[i])).0, recording_map(g, e));
        for &i in &short {
            for &j in &short {
                let solo = |i: usize| {
                    let mut d = machine(i);
                    let mut n = 1;
                    while step(&mut d).is_none() && n < 200 {
                        n += 1;
                    }
                    n
                };
                let (na, nb) = sut("Dfa::travel", || (solo(i), solo(j)))?;
                for x in 0..na {
                    for y in 1..=nb {
                        st.runs += 1;
                        st.transitions += (na + nb) as u64;
                        let (ra, rb) = sut("two machines of one parser", || {
                            let (mut a, mut b) = (machine(i), machine(j));
                            let (mut ra, mut rb) = (None, None);
                            for _ in 0..x {
                                ra = if ra.is_none() { step(&mut a) } else { ra };
                            }
                            for _ in 0..y {
                                rb = if rb.is_none() { step(&mut b) } else { rb };
                            }
                            for _ in x..na {
                                ra = if ra.is_none() { step(&mut a) } else { ra };
                            }
                            for _ in y..nb {
                                rb = if rb.is_none() { step(&mut b) } else { rb };
                            }
                            (ra, rb)
                        })?;
                        for (r, m) in [(ra, i), (rb, j)] {
                            if r.as_ref() != Some(&want[m]) {
                                let w = |i: usize| str_name(&inputs[i].iter().map(|y| e.back(*y).unwrap_or(254)).collect::<Vec<_>>());
                                return Err(format!("{x} steps of `{}`, {y} steps of `{}` in another machine, then the rest of each: the one on `{}` gives {r:?}, alone {:?}", w(i), w(j), w(m), want[m]));
                            }
                        }
                    }
                }
            }
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- C10: reduce_equals

/// Conflict payloads carry state numbers; everything else must match exactly.
fn modulo_states(r: &Res) -> Result<V, String> {
    match r {
        Ok(v) => Ok(v.clone()),
        Err(Error::Conflict(..)) => Err("conflict".into()),
        Err(e) => Err(format!("{e:?}")),
    }
}

pub fn c10(g: &G, cfg: &Cfg, style: u8, st: &mut Stats) -> R {
    if cfg.deep > FAR {
        return crate::far::far("C10", g, cfg, style, st);
    }
    if g.prods().len() > MAXP {
        return Ok(());
    }
    let e = Enc::style(style);
    let ea = Earley::new(g);
    st.decided += 1;
    for k in run_kinds(g) {
        let p = AnyP::build(k, g, &e)?;
        let mut q = p.clone();
        sut("reduce_equals", || q.reduce_equals())?;
        let mut q2 = q.clone();
        sut("reduce_equals", || q2.reduce_equals())?;
        sane_tables(&q)?;
        sane_tables(&q2)?;
        let (a, b, c) = (p.tables().actions.len(), q.tables().actions.len(), q2.tables().actions.len());
        if b > a || c > b {
            return Err(format!("{k}: reduce_equals grows the table {a} -> {b} -> {c}"));
        }
        let distinct: BTreeSet<_> = p.tables().actions.iter().collect();
        if b != distinct.len() {
            return Err(format!("{k}: {} distinct rows, {b} left after reduce_equals", distinct.len()));
        }
        if (p.conflicts() > 0) != (q.conflicts() > 0) || (p.conflicts() > 0) != (q2.conflicts() > 0) {
            return Err(format!("{k}: conflicts {} -> {} -> {}", p.conflicts(), q.conflicts(), q2.conflicts()));
        }
        // The two tables as machines: explore the product of reachable states to a fixpoint.
        // (This covers inputs of every length.)
        for (name, z) in [("reduced", &q), ("twice reduced", &q2)] {
            let n = product(p.tables(), z.tables()).map_err(|m| format!("{k}: {name} table differs: {m}"))?;
            st.states += n.0;
            st.transitions += n.1;
        }
        if b < a {
            st.out("table shrinks");
        } else {
            st.out("table unchanged");
        }
        let mut each = |c: &Chart| -> Result<bool, String> {
            let mut w = ys(&c.w, &e);
            for junk in [false, true] {
                if junk {
                    w.push(ALIEN);
                }
                let r0 = fresh(&p, &w, g, &e)?;
                for z in [&q, &q2] {
                    st.runs += 1;
                    let r1 = fresh(z, &w, g, &e)?;
                    if modulo_states(&r0) != modulo_states(&r1) {
                        return Err(format!("{k}: `{}` gives {r1:?} after reduce_equals, {r0:?} before", str_name(&c.w)));
                    }
                }
            }
            Ok(ea.alive(c))
        };
        explore_inputs(&ea, cfg, &mut each)?;
        explore_deep(&ea, g, &repeats(cfg.deep), |c| each(c).map(|_| ()))?;
    }
    st.sample(|| format!("{} [tables before/after compared as machines and on inputs]", g.text()));
    Ok(())
}

fn product(a: &Tabler<Y>, b: &Tabler<Y>) -> Result<(u64, u64), String> {
    let mut map: HashMap<usize, usize> = HashMap::from([(0, 0)]);
    let mut work = vec![0usize];
    let mut tr = 0;
    while let Some(i) = work.pop() {
        let j = map[&i];
        let ra = &a.actions[i];
        let rb = b.actions.get(j).ok_or_else(|| format!("no state {j}"))?;
        let (ka, kb): (Vec<_>, Vec<_>) = (ra.keys().collect(), rb.keys().collect());
        if ka != kb {
            return Err(format!("state {i} acts on {ka:?}, its image {j} on {kb:?}"));
        }
        for (k, x) in ra {
            let mut pairs = Vec::new();
            match_actions(x, &rb[k], &mut pairs).map_err(|m| format!("state {i} symbol {k:?}: {m}"))?;
            tr += 1;
            for (s, t) in pairs {
                match map.get(&s) {
                    None => {
                        map.insert(s, t);
                        work.push(s);
                    }
                    Some(u) if *u != t => return Err(format!("state {s} is sent to {u} and to {t}")),
                    _ => {}
                }
            }
        }
    }
    Ok((map.len() as u64, tr))
}

fn match_actions(a: &Action<Y>, b: &Action<Y>, out: &mut Vec<(usize, usize)>) -> R {
    match (a, b) {
        (Action::Shift(x), Action::Shift(y)) | (Action::Goto(x), Action::Goto(y)) => out.push((*x, *y)),
        (Action::Reduce(n, p), Action::Reduce(m, q)) if n == m && p == q => {}
        (Action::Acc, Action::Acc) => {}
        (Action::Conflict(a1, b1), Action::Conflict(a2, b2)) => {
            match_actions(a1, a2, out)?;
            match_actions(b1, b2, out)?;
        }
        _ => return Err(format!("{a:?} became {b:?}")),
    }
    Ok(())
}

// ---------------------------------------------------------------- C11: the automata themselves

fn flat<'a>(a: &'a Action<Y>, out: &mut Vec<&'a Action<Y>>) {
    if let Action::Conflict(x, y) = a {
        flat(x, out);
        flat(y, out);
    } else {
        out.push(a);
    }
}

fn bisim(p: &AnyP, a: &Auto, rf: &Ref, e: &Enc, st: &mut Stats) -> Result<BTreeSet<(usize, usize)>, String> {
    let k = p.kind();
    let t = p.tables();
    let mut seen: BTreeSet<(usize, usize)> = BTreeSet::from([(0, 0)]);
    let mut work: Vec<(usize, usize, Vec<Sy>)> = vec![(0, 0, vec![])];
    let prod_of = |n: &Y, pr: &lrp::Production<Y>| -> Option<usize> {
        let l = e.back(*n)?;
        rf.prods.iter().position(|(pl, r, i)| *pl == l && *i == pr.1 && r.iter().map(|s| e.y(*s)).eq(pr.0.iter().copied()))
    };
    while let Some((i, j, path)) = work.pop() {
        let row = t.actions.get(i).ok_or_else(|| format!("{k}: no action row {i}"))?;
        let want = &a.cells[j];
        let at = |s: Sy| format!("{k}: after the stack `{}`, on {}", str_name(&path), sy_name(s));
        for y in row.keys() {
            let s = e.back(*y).ok_or_else(|| format!("{k}: row has an unknown symbol {y:?}"))?;
            if !want.contains_key(&s) {
                return Err(format!("{}: {:?} where the textbook table is empty", at(s), row[y]));
            }
        }
        for (s, acts) in want {
            let Some(x) = row.get(&e.y(*s)) else {
                return Err(format!("{}: the action is missing, should be {:?}", at(*s), acts));
            };
            let mut v = Vec::new();
            flat(x, &mut v);
            let mut got: BTreeSet<Act> = BTreeSet::new();
            let mut succ = None;
            for z in v {
                st.transitions += 1;
                got.insert(match z {
                    Action::Shift(n) => {
                        succ = Some(*n);
                        Act::Shift(0)
                    }
                    Action::Goto(n) => {
                        succ = Some(*n);
                        Act::Goto(0)
                    }
                    Action::Acc => Act::Acc,
                    Action::Reduce(n, pr) => Act::Reduce(prod_of(n, pr).ok_or_else(|| format!("{}: reduces by a production the grammar does not have", at(*s)))?),
                    Action::Conflict(..) => unreachable!(),
                });
            }
            let mut tgt = None;
            let norm: BTreeSet<Act> = acts
                .iter()
                .map(|x| match x {
                    Act::Shift(n) => {
                        tgt = Some(*n);
                        Act::Shift(0)
                    }
                    Act::Goto(n) => {
                        tgt = Some(*n);
                        Act::Goto(0)
                    }
                    o => *o,
                })
                .collect();
            if got != norm {
                return Err(format!("{}: actions {got:?}, should be {norm:?} (numbers are productions; {})", at(*s), rf.g.text()));
            }
            if let (Some(n), Some(m)) = (succ, tgt) {
                if seen.insert((n, m)) {
                    let mut pa = path.clone();
                    pa.push(*s);
                    work.push((n, m, pa));
                }
            }
        }
    }
    st.states += seen.len() as u64;
    Ok(seen)
}

/// (rule, production index, dot) -> look-ahead set of the real state
pub fn cores(s: &State<Y>, e: &Enc) -> BTreeMap<(Sy, usize, usize), Mask> {
    let mut m = BTreeMap::new();
    for p in s {
        let l = e.back_all(&p.look).iter().fold(0, |a, s| if *s == 254 { a } else { a | bit(*s) });
        *m.entry((e.back(p.rule).unwrap_or(254), p.seq.1, p.point)).or_insert(0) |= l;
    }
    m
}

pub fn c11(g: &G, _cfg: &Cfg, style: u8, st: &mut Stats) -> R {
    if !g.augmented() || !g.reduced() {
        return Ok(());
    }
    let rf = Ref::new(g);
    let Some(clr) = rf.clr(LR_CAP) else {
        st.out("skipped: reference automaton too large");
        return Ok(());
    };
    let lalr = rf.lalr(&clr);
    let slr = rf.slr(LR_CAP).unwrap();
    st.decided += 1;
    let e = Enc::style(style);
    for (k, a) in KINDS.iter().zip([&clr, &lalr, &slr]) {
        let p = AnyP::build(k, g, &e)?;
        st.runs += 1;
        let rel = bisim(&p, a, &rf, &e, st)?;
        let t = p.tables();
        if t.actions.len() != t.states.len() {
            return Err(format!("{k}: {} states but {} action rows", t.states.len(), t.actions.len()));
        }
        let used: BTreeSet<usize> = rel.iter().map(|x| x.0).collect();
        if used.len() != t.states.len() {
            return Err(format!("{k}: {} of {} states are unreachable", t.states.len() - used.len(), t.states.len()));
        }
        if *k != "CLR" && (rel.len() != a.states.len() || t.states.len() != a.states.len()) {
            return Err(format!("{k}: {} states, the textbook automaton has {}", t.states.len(), a.states.len()));
        }
        // item sets: the same items, and for the look-ahead kinds the same look-aheads
        for (i, j) in &rel {
            let got = cores(&t.states[*i], &e);
            let want: BTreeMap<(Sy, usize, usize), Mask> = a.states[*j]
                .iter()
                .map(|((p, d), m)| ((rf.prods[*p as usize].0, rf.prods[*p as usize].2, *d as usize), *m))
                .collect();
            let bad = if *k == "SLR" {
                !got.keys().eq(want.keys())
            } else {
                got != want
            };
            if bad {
                return Err(format!("{k}: state {i} has items {got:?}, should be {want:?} (rule, production, dot -> look-ahead bits)"));
            }
        }
        // kernel lookup agrees with the transitions, for every state and symbol
        for (i, s) in t.states.iter().enumerate() {
            for (y, x) in &t.actions[i] {
                let mut v = Vec::new();
                flat(x, &mut v);
                for z in v {
                    if let Action::Shift(n) | Action::Goto(n) = z {
                        let ker = Tabler::sym_filter(s, y);
                        let got = sut("state_from_kernel", || with!(&p, q => q.state_from_kernel(&ker)))?;
                        if got != Some(*n) {
                            return Err(format!("{k}: state_from_kernel of the kernel behind state {i} on {} gives {got:?}, the table goes to {n}", e.back(*y).map_or("?".into(), sy_name)));
                        }
                        st.out("kernel lookups");
                    }
                }
            }
        }
        st.out_n(&format!("{k} states matched"), rel.len() as u64);
    }
    st.sample(|| format!("{} [{} / {} / {} states]", g.text(), clr.states.len(), lalr.states.len(), slr.states.len()));
    Ok(())
}

// ---------------------------------------------------------------- C12: names and order

fn perms(n: usize) -> Vec<Vec<usize>> {
    fn go(n: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        for i in 0..n {
            if !cur.contains(&i) {
                cur.push(i);
                go(n, cur, out);
                cur.pop();
            }
        }
    }
    let mut out = Vec::new();
    if n <= 3 {
        go(n, &mut Vec::new(), &mut out);
    } else {
        // all rotations and their reversals
        for r in 0..n {
            let v: Vec<usize> = (0..n).map(|i| (i + r) % n).collect();
            let mut w = v.clone();
            w.reverse();
            out.push(v);
            out.push(w);
        }
    }
    out
}

#[derive(PartialEq, Eq, Debug, Clone)]
struct Sig {
    conflict: bool,
    states: usize,
    runs: Vec<(u8, usize, Vec<u16>)>,
}

pub fn c12(g: &G, cfg: &Cfg, style: u8, st: &mut Stats) -> R {
    if !g.augmented() || !g.reduced() || g.prods().len() > MAXP {
        return Ok(());
    }
    let ea = Earley::new(g);
    let mut words = Vec::new();
    explore_inputs(&ea, cfg, |c| {
        words.push(c.w.clone());
        Ok(ea.alive(c))
    })?;
    st.decided += 1;
    // production order variants; `order[n][i]` = original index of production i
    let id: Vec<Vec<usize>> = g.rules.iter().map(|r| (0..r.len()).collect()).collect();
    let mut orders = vec![id.clone()];
    for n in 1..g.rules.len() {
        if g.rules[n].len() > 1 {
            for pm in perms(g.rules[n].len()).into_iter().skip(1) {
                let mut o = id.clone();
                o[n] = pm;
                orders.push(o);
            }
        }
    }
    let np = perms(g.rules.len() - 1);
    let tp = perms(g.k());
    let mut first: Vec<Option<Sig>> = vec![None; 3];
    let mut variants = 0u64;
    // name permutations with the original production order, then production orders with two namings
    let mut plan: Vec<(usize, usize, usize, usize)> = Vec::new();
    for a in 0..np.len() {
        for b in 0..tp.len() {
            // in the last layout all symbols print alike
            for pos in 0..4 {
                plan.push((a, b, pos, 0));
            }
        }
    }
    for o in 1..orders.len() {
        plan.push((0, 0, usize::from(style), o));
        plan.push((np.len() - 1, tp.len() - 1, if o % 2 == 0 { 2 } else { 3 }, o));
    }
    let cap = cfg.orders;
    if plan.len() > cap {
        let step = plan.len().div_ceil(cap);
        plan = plan.into_iter().step_by(step).collect();
        st.out("namings thinned out");
    }
    for (a, b, pos, o) in plan {
        variants += 1;
        let e = Enc::from_fn(|s| {
            if s == EOF {
                return [5, 250, 900, 20500][pos % 4];
            }
            if is_t(s) {
                let i = (s - T0) as usize;
                let j = if i < tp[b].len() { tp[b][i] } else { i };
                return [100, 300, 400, 20100][pos % 4] + j as u16;
            }
            if s == 0 {
                return [600, 10, 200, 20900][pos % 4];
            }
            let i = s as usize - 1;
            let j = if i < np[a].len() { np[a][i] } else { i };
            [400, 100, 500, 20000][pos % 4] + j as u16
        });
        let h = G {
            rules: orders[o].iter().enumerate().map(|(n, ix)| ix.iter().map(|i| g.rules[n][*i].clone()).collect()).collect(),
        };
        // flat production index of `h` -> flat index in `g`
        let mut base = Vec::new();
        let mut acc = 0;
        for r in &g.rules {
            base.push(acc);
            acc += r.len();
        }
        let back: Vec<u16> = orders[o].iter().enumerate().flat_map(|(n, ix)| ix.iter().map(|i| (base[n] + i) as u16).collect::<Vec<_>>()).collect();
        for (ki, k) in run_kinds(g).iter().enumerate() {
            let p = AnyP::build(k, &h, &e)?;
            if variants == 1 {
                // the same grammar twice, and through the other constructor
                let gr = grammar(&h, &e);
                let same = sut("building twice", || match &p {
                    AnyP::C(c) => *c == Clr::new(gr.clone()) && *c == Clr::with_table(Tabler::new(gr)),
                    AnyP::L(c) => *c == Lalr::new(gr.clone()) && *c == Lalr::with_table(Tabler::new(gr)),
                    AnyP::S(c) => *c == Slr::new(gr.clone()) && *c == Slr::with_table(Tabler::new(gr)),
                })?;
                if !same {
                    return Err(format!("{k}: two constructions of the same grammar differ"));
                }
            }
            let mut runs = Vec::new();
            for w in &words {
                LOG.with(|l| l.borrow_mut().clear());
                let y = ys(w, &e);
                st.runs += 1;
                let (feed, log) = Feed::new(leaf_toks(&y));
                let r = sut("parse", || with!(&p, q => {
                    let mut d = q.dfa(feed, recording_map(&h, &e));
                    d.start()
                }))?;
                let code = match &r {
                    Ok(()) => 0,
                    Err(Error::Conflict(..)) => 1,
                    Err(Error::UnexpectedToken(..)) => 2,
                    Err(Error::UnexpectedEof) => 3,
                    Err(Error::IncompleteExec) => 4,
                    Err(_) => 5,
                };
                let reds: Vec<u16> = LOG.with(|l| l.borrow().iter().map(|p| back[*p as usize]).collect());
                st.transitions += reds.len() as u64 + log.polls.get() as u64;
                runs.push((code, log.polls.get(), reds));
            }
            let sig = Sig {
                conflict: p.conflicts() > 0,
                // the canonical table may split states differently, the others may not
                states: if *k == "CLR" { 0 } else { p.tables().states.len() },
                runs,
            };
            match &first[ki] {
                None => first[ki] = Some(sig),
                Some(f) if *f != sig => {
                    let d = f.runs.iter().zip(&sig.runs).position(|(x, y)| x != y);
                    return Err(format!(
                        "{k}: renaming/reordering changes behaviour: naming (nonterminals {:?}, terminals {:?}, layout {pos}), production order {:?}: conflict {} vs {}, states {} vs {}{}",
                        np[a],
                        tp[b],
                        orders[o],
                        f.conflict,
                        sig.conflict,
                        f.states,
                        sig.states,
                        d.map_or(String::new(), |i| format!(", input `{}`: (outcome, tokens taken, reductions) {:?} vs {:?}", str_name(&words[i]), f.runs[i], sig.runs[i]))
                    ));
                }
                _ => {}
            }
        }
    }
    st.states += variants;
    st.out_n("variants compared", variants);
    st.sample(|| format!("{} [{variants} namings/orders, {} inputs each]", g.text(), words.len()));
    Ok(())
}

// ---------------------------------------------------------------- C13: every intermediate state

pub fn c13(g: &G, cfg: &Cfg, style: u8, st: &mut Stats) -> R {
    if cfg.deep > FAR {
        return crate::far::far("C13", g, cfg, style, st);
    }
    if g.prods().len() > MAXP {
        return Ok(());
    }
    let e = Enc::style(style);
    let ea = Earley::new(g);
    st.decided += 1;
    let prods = g.prods();
    for k in run_kinds(g) {
        let p = AnyP::build(k, g, &e)?;
        let t = p.tables().clone();
        let each = |w: &[Sy], st: &mut Stats| -> R {
            let y = ys(w, &e);
            let lim = step_limit(g, w.len());
            let mut bad: R = Ok(());
            let mut prev: Option<(usize, usize)> = None;
            let mut snaps = Vec::new();
            st.runs += 1;
            let r = sut("trace", || {
                with!(&p, q => run(q, leaf_toks(&y), recording_map(g, &e), lim, |d| {
                    st.transitions += 1;
                    st.state(hash((salt(&p), &d.states, d.items.len())));
                    if bad.is_err() {
                        return;
                    }
                    let b = step_invariant(d, &t, w, &prods, &e);
                    if b.is_err() {
                        bad = b;
                        return;
                    }
                    let consumed = d.items.iter().map(|t| width(&t.item)).sum::<usize>();
                    let depth = d.items.len();
                    if let Some((pc, _)) = prev {
                        if consumed != pc && consumed != pc + 1 {
                            bad = Err(format!("one step takes {} tokens", consumed - pc));
                        }
                    }
                    prev = Some((consumed, depth));
                    snaps.push((d.states.clone(), d.items.clone(), d.top, consumed));
                }))
            })
            .map_err(|m| format!("{k}: {m} on `{}`", str_name(w)))?;
            bad.map_err(|m| format!("{k}: while parsing `{}`: {m}", str_name(w)))?;
            if r.limit {
                return Err(format!("{k}: step limit on `{}`", str_name(w)));
            }
            if matches!(r.res, Ok(())) {
                let types: Vec<Sy> = r.dfa.items.iter().map(|t| e.back(t.ty).unwrap_or(254)).collect();
                if types != prods[0].1 {
                    return Err(format!("{k}: accepts `{}` with `{}` on the stack", str_name(w), str_name(&types)));
                }
                if !r.dfa.finished {
                    return Err(format!("{k}: accepted `{}` but is not finished", str_name(w)));
                }
            } else if r.dfa.finished {
                return Err(format!("{k}: finished after an error on `{}`", str_name(w)));
            }
            // resuming from a snapshot taken at any step gives the same end
            for (states, items, top, consumed) in snaps {
                st.runs += 1;
                let res = sut("resumed run", || {
                    with!(&p, q => {
                        let mut d = q.dfa(Feed::new(leaf_toks(&y)[consumed..].to_vec()).0, recording_map(g, &e));
                        d.states = states;
                        d.items = items;
                        d.top = top;
                        let r = d.start();
                        (r, d.items)
                    })
                })?;
                if res.0 != r.res || res.1 != r.dfa.items {
                    return Err(format!("{k}: `{}` resumed after {consumed} tokens ends with {:?} instead of {:?}", str_name(w), res.0, r.res));
                }
            }
            Ok(())
        };
        if !g.augmented() {
            continue;
        }
        explore_inputs(&ea, cfg, |c| {
            each(&c.w, st)?;
            Ok(ea.alive(c))
        })?;
        let lcfg = Cfg { long: cfg.long, ..cfg.clone() };
        let mut cnt = 0;
        explore_long(&ea, &lcfg, |c| {
            cnt += 1;
            if cnt % 5 == 0 {
                each(&c.w, st)?;
            }
            Ok(())
        })?;
        if cfg.deep > 0 {
            explore_deep(&ea, g, &[9, 17, 33, 65], |c| each(&c.w, st))?;
        }
    }
    st.sample(|| format!("{} [stack invariant at every step, every step resumed]", g.text()));
    Ok(())
}

fn step_invariant(d: &lrp::Dfa<V, Y, Feed<V>>, t: &Tabler<Y>, w: &[Sy], prods: &[(Sy, Vec<Sy>, usize)], e: &Enc) -> R {
    if d.states.first() != Some(&0) {
        return Err("the state stack does not start in state 0".into());
    }
    if d.states.len() != d.items.len() + 1 {
        return Err(format!("{} states for {} symbols on the stack", d.states.len(), d.items.len()));
    }
    if d.states.last() != Some(&d.top) {
        return Err("the current state is not the top of the state stack".into());
    }
    if d.finished {
        return Err("called back after finishing".into());
    }
    for (i, it) in d.items.iter().enumerate() {
        let mut v = Vec::new();
        if let Some(a) = t.actions[d.states[i]].get(&it.ty) {
            flat(a, &mut v);
        }
        let ok = v.iter().any(|a| matches!(a, Action::Shift(n) | Action::Goto(n) if *n == d.states[i + 1]));
        if !ok {
            return Err(format!("state {} does not go to state {} on {}", d.states[i], d.states[i + 1], e.back(it.ty).map_or("?".into(), sy_name)));
        }
    }
    let mut y = Vec::new();
    for it in &d.items {
        check_tree(&it.item, e.back(it.ty).unwrap_or(254), prods, w, e, &mut y)?;
    }
    if y != (0..y.len() as u16).collect::<Vec<_>>() {
        return Err(format!("the stack covers input tokens {y:?}"));
    }
    Ok(())
}

// ---------------------------------------------------------------- C14: merging look-aheads

/// Small item sets over a fixed alphabet of items, all subsets up to a size.
pub fn c14(g: &G, cfg: &Cfg, style: u8, st: &mut Stats) -> R {
    let e = Enc::style(style);
    let prods = g.prods();
    let mut items: Vec<Position<Y>> = Vec::new();
    let looks: [&[Sy]; 5] = [&[], &[T0], &[T0 + 1], &[T0, T0 + 1], &[EOF]];
    for (l, r, i) in prods.iter().take(3) {
        let seq = Rc::new((r.iter().map(|s| e.y(*s)).collect::<Vec<_>>(), *i));
        for d in 0..=r.len().min(1) {
            for (j, l2) in looks.iter().enumerate() {
                // equal productions are equal, whether or not they were made at once
                let seq = if j % 2 == 0 { seq.clone() } else { Rc::new((*seq).clone()) };
                items.push(Position::new(e.y(*l), seq, d, l2.iter().map(|s| e.y(*s)).collect()));
            }
        }
    }
    st.decided += 1;
    // all items of the grammar with one look-ahead each, in smaller sets
    let mut plain: Vec<Position<Y>> = Vec::new();
    for (l, r, i) in prods.iter().take(12) {
        for d in 0..=r.len() {
            for l2 in [T0, T0 + 1] {
                let seq = Rc::new((r.iter().map(|s| e.y(*s)).collect::<Vec<_>>(), *i));
                plain.push(Position::new(e.y(*l), seq, d, lrp::Set::from([e.y(l2)])));
            }
        }
    }
    let mut sel: Vec<usize> = Vec::new();
    fn go(from: usize, n: usize, max: usize, sel: &mut Vec<usize>, f: &mut dyn FnMut(&[usize]) -> R) -> R {
        f(sel)?;
        if sel.len() == max {
            return Ok(());
        }
        for i in from..n {
            sel.push(i);
            go(i + 1, n, max, sel, f)?;
            sel.pop();
        }
        Ok(())
    }
    let max = cfg.len.min(4);
    let (first, n) = (items.len(), items.len().max(plain.len()));
    let mut each = |items: &[Position<Y>], s: &[usize]| -> R {
        let set: State<Y> = s.iter().map(|i| items[*i].clone()).collect();
        st.runs += 1;
        st.states += 1;
        let got = sut("merged", || (Clr::<Y>::merged(set.clone()), Lalr::<Y>::merged(set.clone()), Slr::<Y>::merged(set.clone())))?;
        let want = cores(&set, &e);
        for m in [&got.0, &got.1, &got.2] {
            if m.len() != want.len() || cores(m, &e) != want {
                return Err(format!("merged({set:?}) = {m:?}"));
            }
            if Clr::<Y>::merged(m.clone()) != *m {
                return Err(format!("merged is not idempotent on {set:?}"));
            }
        }
        st.transitions += 1;
        Ok(())
    };
    go(0, first, max, &mut sel, &mut |s| each(&items, s))?;
    go(0, plain.len(), max.min(3), &mut sel, &mut |s| each(&plain, s))?;
    st.sample(|| format!("{} [{n} items, all subsets to size {max}]", g.text()));
    Ok(())
}

pub fn by_id(id: &str) -> Option<crate::engine::Check> {
    Some(match id {
        "C01" => c01,
        "C02" => c02,
        "C03" => c03,
        "C04" => c04,
        "C05" => c05,
        "C06" => c06,
        "C07" => c07,
        "C08" => c08,
        "C09" => c09,
        "C10" => c10,
        "C11" => c11,
        "C12" => c12,
        "C13" => c13,
        "C14" => c14,
        "C23" => crate::props2::c23,
        "C24" => crate::props2::c24,
        "C26" => crate::props3::c26,
        _ => return None,
    })
}
