//! C23 (items, item sets, closures) and C24 (what is printed).

use crate::earley::Earley;
use crate::engine::{sut, Stats};
use crate::gram::{str_name, sy_name, Sy, EOF, G};
use crate::lrref::{bit, Item, Mask, Ref, St};
use crate::props::{cores, explore_deep, explore_inputs, explore_long, hash, run_kinds, salt, with, ys, AnyP, Cfg, R};
use crate::sut::*;
use lrp::{Clr, Lalr, Parser, Position, Slr, State, Tabler};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

// ---------------------------------------------------------------- C23: items and item sets

type Bodies = BTreeMap<(Sy, usize, usize), Mask>;

fn show(m: &Bodies) -> String {
    m.iter()
        .map(|((n, p, d), l)| {
            let ls: Vec<String> = crate::lrref::unmask(*l).into_iter().map(sy_name).collect();
            format!("[{} #{p} @{d} {{{}}}]", sy_name(*n), ls.join(","))
        })
        .collect::<Vec<_>>()
        .join(" ")
}

fn look(m: Mask, e: &Enc) -> lrp::Set<Y> {
    crate::lrref::unmask(m).into_iter().map(|s| e.y(s)).collect()
}

fn position(rf: &Ref, it: Item, m: Mask, e: &Enc, shared: &[Rc<lrp::Production<Y>>]) -> Position<Y> {
    let (l, _, _) = &rf.prods[it.0 as usize];
    Position::new(e.y(*l), shared[it.0 as usize].clone(), it.1 as usize, look(m, e))
}

/// What the operations on one item must give.
fn one_item(rf: &Ref, it: Item, m: Mask, e: &Enc, shared: &[Rc<lrp::Production<Y>>]) -> R {
    let (l, r, i) = &rf.prods[it.0 as usize];
    let d = it.1 as usize;
    let p = position(rf, it, m, e, shared);
    let txt = || format!("item {} -> {} at {d}", sy_name(*l), str_name(r));
    let sym = |k: usize| r.get(k).map(|s| e.y(*s));
    if p.rule != e.y(*l) || p.seq.1 != *i || p.point != d || p.look != look(m, e) {
        return Err(format!("{}: not what it was made of", txt()));
    }
    if p.top() != sym(d) || p.next() != sym(d + 1) {
        return Err(format!("{}: top {:?}, next {:?}", txt(), p.top(), p.next()));
    }
    for k in 0..r.len() + 3 {
        if p.peek(k) != sym(d + k) {
            return Err(format!("{}: peek({k}) is {:?}", txt(), p.peek(k)));
        }
        if p.abs_idx(k) != sym(k) {
            return Err(format!("{}: abs_idx({k}) is {:?}", txt(), p.abs_idx(k)));
        }
    }
    if p.finished() != (d >= r.len()) {
        return Err(format!("{}: finished() is {}", txt(), p.finished()));
    }
    match p.clone_next() {
        None if d >= r.len() => {}
        Some(n) if d < r.len() => {
            if n.rule != p.rule || n.seq != p.seq || n.look != p.look || n.point != d + 1 {
                return Err(format!("{}: clone_next() is {n:?}", txt()));
            }
            let mut q = p.clone();
            q.adv();
            if q != n {
                return Err(format!("{}: adv() gives {q:?}, clone_next() {n:?}", txt()));
            }
        }
        x => return Err(format!("{}: clone_next() is {x:?}", txt())),
    }
    let n = p.no_look();
    if n.rule != p.rule || n.seq != p.seq || n.point != d || !n.look.is_empty() {
        return Err(format!("{}: no_look() is {n:?}", txt()));
    }
    let n = n.with_look(p.look.clone());
    if n != p {
        return Err(format!("{}: with_look() is {n:?}", txt()));
    }
    Ok(())
}

fn step(rf: &Ref, set: &St, s: Sy) -> St {
    set.iter()
        .filter(|((p, d), _)| rf.prods[*p as usize].1.get(*d as usize) == Some(&s))
        .map(|((p, d), m)| ((*p, d + 1), *m))
        .collect()
}

fn bodies(rf: &Ref, st: &St) -> Bodies {
    let mut m = Bodies::new();
    for ((p, d), l) in st {
        let pr = &rf.prods[*p as usize];
        *m.entry((pr.0, pr.2, *d as usize)).or_insert(0) |= l;
    }
    m
}

pub fn c23(g: &G, cfg: &Cfg, style: u8, st: &mut Stats) -> R {
    if g.rules[0].len() != 1 {
        return Ok(());
    }
    let e = Enc::style(style);
    let rf = Ref::new(g);
    let gr = sut("Grammar::new", || grammar(g, &e))?;
    let t = sut("Tabler::new", || Tabler::new(gr))?;
    let clr = Clr::uninit(t.clone());
    let lalr = Lalr::uninit(t.clone());
    let slr = Slr::uninit(t.clone());
    // the productions as the grammar holds them
    let mut shared: Vec<Rc<lrp::Production<Y>>> = Vec::new();
    for (l, r, i) in &rf.prods {
        let p = t.grammar.rules.get(&e.y(*l)).and_then(|x| x.prods.get(*i)).cloned();
        match p {
            Some(p) if p.0 == r.iter().map(|s| e.y(*s)).collect::<Vec<_>>() => shared.push(p),
            x => return Err(format!("production {i} of {} is {x:?}", sy_name(*l))),
        }
    }
    // and equal ones, made apart
    let apart: Vec<Rc<lrp::Production<Y>>> = shared.iter().map(|p| Rc::new((**p).clone())).collect();
    st.decided += 1;
    let mut looks: Vec<Mask> = vec![bit(EOF), 0];
    if g.k() > 0 {
        looks.push(bit(crate::gram::T0) | bit(EOF));
    }
    if g.k() > 1 {
        looks.push(bit(crate::gram::T0 + 1));
    }
    let mut items: Vec<(Item, Mask)> = Vec::new();
    let mut nitems = 0;
    for (i, (_, r, _)) in rf.prods.iter().enumerate() {
        for d in 0..=r.len() {
            for (k, m) in looks.iter().enumerate() {
                let it = (i as u16, d as u16);
                sut("item operations", || one_item(&rf, it, *m, &e, &shared))??;
                nitems += 1;
                if k < 3 {
                    items.push((it, *m));
                }
            }
        }
    }
    st.runs += nitems;
    // bodies are told apart by rule, production and point alone
    for a in items.iter().filter(|x| x.1 == looks[0]) {
        for b in &items {
            let (pa, pb) = (position(&rf, a.0, a.1, &e, &shared), position(&rf, b.0, b.1, &e, &shared));
            let pc = position(&rf, b.0, b.1, &e, &apart);
            if sut("body_eq", || pa.body_eq(&pb))? != (a.0 == b.0) || pa.body_eq(&pc) != (a.0 == b.0) {
                return Err(format!("body_eq of {pa:?} and {pb:?} is {} (and {} when the productions were made apart)", pa.body_eq(&pb), pa.body_eq(&pc)));
            }
        }
    }
    let syms: Vec<Sy> = (0..g.rules.len() as Sy).chain((0..g.k()).map(|i| crate::gram::T0 + i as Sy)).collect();
    let decide = |sel: &[(Item, Mask)], st: &mut Stats| -> R {
        let set: State<Y> = sel.iter().enumerate().map(|(j, (it, m))| position(&rf, *it, *m, &e, if j % 2 == 0 { &shared } else { &apart })).collect();
        let mut rs: BTreeMap<Item, Mask> = BTreeMap::new();
        for (it, m) in sel {
            *rs.entry(*it).or_default() |= m;
        }
        let rs: St = rs.into_iter().collect();
        st.runs += 1;
        st.state(hash(sel));
        let lr1 = bodies(&rf, &rf.closure(&rs, true));
        let lr0 = bodies(&rf, &rf.closure(&rs, false));
        let got = sut("prop_closure", || (clr.prop_closure(set.clone()), lalr.prop_closure(set.clone()), slr.prop_closure(set.clone())))?;
        for (k, x) in [("CLR", &got.0), ("LALR", &got.1)] {
            if cores(x, &e) != lr1 {
                return Err(format!("{k}: the closure of {set:?} is {}, should be {}", show(&cores(x, &e)), show(&lr1)));
            }
        }
        if !cores(&got.2, &e).keys().eq(lr0.keys()) {
            return Err(format!("SLR: the closure of {set:?} is {}, should be {}", show(&cores(&got.2, &e)), show(&lr0)));
        }
        let want = bodies(&rf, &rs);
        if cores(&set, &e) != want {
            return Err(format!("the set {set:?} does not hold the items it was made of"));
        }
        // again: nothing changes
        let again = sut("prop_closure", || (clr.prop_closure(got.0.clone()), lalr.prop_closure(got.1.clone()), slr.prop_closure(got.2.clone())))?;
        if cores(&again.0, &e) != lr1 || cores(&again.1, &e) != lr1 || !cores(&again.2, &e).keys().eq(lr0.keys()) {
            return Err(format!("closing {set:?} twice changes it"));
        }
        // one step of the closure: within the closure, and at least the set
        let one = sut("closure", || (clr.closure(set.clone()), slr.closure(set.clone())))?;
        for (k, x, all) in [("CLR", cores(&one.0, &e), &lr1), ("SLR", cores(&one.1, &e), &lr0)] {
            let inside = x.iter().all(|(b, m)| all.get(b).is_some_and(|w| k == "SLR" || m & !w == 0));
            if !inside || !want.keys().all(|b| x.contains_key(b)) {
                return Err(format!("{k}: one step of closing {set:?} gives {}", show(&x)));
            }
        }
        // over every symbol
        for s in &syms {
            st.transitions += 1;
            let want = step(&rf, &rs, *s);
            let y = e.y(*s);
            let ker = sut("sym_filter", || Tabler::sym_filter(&set, &y))?;
            if cores(&ker, &e) != bodies(&rf, &want) || ker.len() != sel.iter().filter(|((p, d), _)| rf.prods[*p as usize].1.get(*d as usize) == Some(s)).count() {
                return Err(format!("{set:?} over {} is {ker:?}", sy_name(*s)));
            }
            let go = sut("goto", || (clr.goto(&set, &y), slr.goto(&set, &y)))?;
            for (k, x, lr1) in [("CLR", go.0, true), ("SLR", go.1, false)] {
                match x {
                    None if want.is_empty() => {}
                    Some((kk, cc)) if !want.is_empty() => {
                        let w = bodies(&rf, &rf.closure(&want, lr1));
                        let c = cores(&cc, &e);
                        if kk != ker || (lr1 && c != w) || (!lr1 && !c.keys().eq(w.keys())) {
                            return Err(format!("{k}: {set:?} goes over {} to {kk:?} / {cc:?}", sy_name(*s)));
                        }
                    }
                    x => return Err(format!("{k}: {set:?} goes over {} to {x:?}", sy_name(*s))),
                }
            }
        }
        // merging and dropping look-aheads
        let m = sut("merged", || (Clr::<Y>::merged(got.0.clone()), Lalr::<Y>::without_look(&got.1)))?;
        if m.0.len() != lr1.len() || cores(&m.0, &e) != lr1 {
            return Err(format!("merging {:?} gives {:?}", got.0, m.0));
        }
        if !cores(&m.1, &e).keys().eq(lr1.keys()) || m.1.len() != lr1.len() || m.1.iter().any(|p| !p.look.is_empty()) {
            return Err(format!("without look-aheads {:?} is {:?}", got.1, m.1));
        }
        Ok(())
    };
    decide(&[], st)?;
    for i in 0..items.len() {
        decide(&items[i..=i], st)?;
    }
    // every pair of items, as far as the bound goes (items late in the grammar come last)
    let mut left = cfg.nodes;
    'pairs: for d in 1..items.len() {
        for i in 0..items.len() - d {
            if left == 0 {
                st.out("grammars with pairs cut");
                break 'pairs;
            }
            left -= 1;
            decide(&[items[i], items[i + d]], st)?;
        }
    }
    // the states of the textbook automata: larger sets, canonical and merged
    if g.augmented() && g.reduced() {
        if let Some(a) = rf.clr(cfg.orders) {
            for s in &a.states {
                decide(s, st)?;
            }
            for s in &rf.lalr(&a).states {
                decide(s, st)?;
            }
        }
    }
    st.sample(|| format!("{} [{} items]", g.text(), items.len()));
    Ok(())
}

// ---------------------------------------------------------------- C24: what is printed

/// Text without regard to the amount of white space.
fn norm(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}

fn item_text(p: &Position<Y>) -> String {
    let mut v = vec![format!("{:?}", p.rule), "=".into()];
    for i in 0..=p.seq.0.len() {
        if i == p.point {
            v.push(".".into());
        }
        if let Some(s) = p.seq.0.get(i) {
            v.push(format!("{s:?}"));
        }
    }
    v.push(format!("{:?}", p.look));
    norm(&v.join(" "))
}

fn stack_text<T>(states: &[usize], items: &[T], f: impl Fn(&T) -> String) -> String {
    let mut v = vec![];
    for (i, s) in states.iter().enumerate() {
        v.push(s.to_string());
        if let Some(x) = items.get(i) {
            v.push(f(x));
        }
    }
    norm(&v.join(" "))
}

fn error_text(x: &lrp::Error<Y>) -> R {
    let txt = format!("{x}");
    let bad = |m: &str| Err(format!("the error {x:?} prints as `{txt}`: {m}"));
    match x {
        lrp::Error::UnexpectedToken(t, ex) => {
            let Some(at) = txt.find(&format!("{t:?}")) else { return bad("the token is missing") };
            let mut rest = &txt[at + format!("{t:?}").len()..];
            for y in ex {
                let s = format!("{y:?}");
                match rest.find(&s) {
                    Some(i) => rest = &rest[i + s.len()..],
                    None => return bad("an expectation is missing"),
                }
            }
            let n = txt.matches("Y(").count();
            if n != ex.len() + 1 {
                return bad("it names something else");
            }
        }
        lrp::Error::Conflict(a, b) => {
            let Some(i) = txt.find(&format!("{a:?}")) else { return bad("the first action is missing") };
            if !txt[i + format!("{a:?}").len()..].contains(&format!("{b:?}")) {
                return bad("the second action is missing");
            }
        }
        _ => {
            if txt.trim().is_empty() {
                return bad("no text");
            }
        }
    }
    Ok(())
}

pub fn c24(g: &G, cfg: &Cfg, style: u8, st: &mut Stats) -> R {
    if g.rules[0].len() != 1 || g.prods().len() > MAXP {
        return Ok(());
    }
    let e = Enc::style(style);
    let prods = g.prods();
    st.decided += 1;
    // the different errors print differently
    let kinds: Vec<lrp::Error<Y>> = vec![lrp::Error::UnexpectedEof, lrp::Error::MissingPreviousState, lrp::Error::StateNotSpecified, lrp::Error::IncompleteExec, lrp::Error::UnexpectedToken(e.y(EOF), vec![])];
    let texts: BTreeSet<String> = kinds.iter().map(|x| x.to_string()).collect();
    if texts.len() != kinds.len() {
        return Err(format!("different errors print the same: {texts:?}"));
    }
    // every item of the grammar with every small set of look-aheads
    let mut ls: Vec<Sy> = (0..g.k().min(3)).map(|i| crate::gram::T0 + i as Sy).collect();
    ls.push(EOF);
    for (l, r, i) in &prods {
        let seq = Rc::new((r.iter().map(|s| e.y(*s)).collect::<Vec<_>>(), *i));
        for d in 0..=r.len() {
            for sub in 0..1usize << ls.len() {
                let look = ls.iter().enumerate().filter(|(j, _)| sub >> j & 1 == 1).map(|(_, s)| e.y(*s)).collect();
                let p = Position::new(e.y(*l), seq.clone(), d, look);
                let (a, b) = sut("printing an item", || (format!("{p}"), format!("{p:?}")))?;
                st.runs += 1;
                if norm(&a) != item_text(&p) || norm(&b) != item_text(&p) {
                    return Err(format!("the item {} prints as `{a}` / `{b}`", item_text(&p)));
                }
            }
        }
    }
    let ea = Earley::new(g);
    for k in run_kinds(g) {
        let p = AnyP::build(k, g, &e)?;
        for s in &p.tables().states {
            for x in s {
                if norm(&format!("{x}")) != item_text(x) {
                    return Err(format!("{k}: the item {} prints as `{x}`", item_text(x)));
                }
            }
        }
        let each = |w: &[Y], st: &mut Stats| -> R {
            let lim = step_limit(g, w.len());
            let mut bad: R = Ok(());
            st.runs += 1;
            let look = |d: &lrp::Dfa<V, Y, Feed<V>>| {
                let (f, b) = (d.stack_fmt(), d.stack_debug());
                let wf = stack_text(&d.states, &d.items, |t| format!("{:?}", t.ty));
                let wb = stack_text(&d.states, &d.items, |t| format!("{t:?}"));
                if norm(&f) != wf {
                    return Err(format!("stack_fmt prints `{f}` for `{wf}`"));
                }
                if norm(&b) != wb {
                    return Err(format!("stack_debug prints `{b}` for `{wb}`"));
                }
                Ok(())
            };
            let mut r = sut("printing the stack", || {
                with!(&p, q => run(q, leaf_toks(w), recording_map(g, &e), lim, |d| {
                    st.transitions += 1;
                    st.state(hash((salt(&p), &d.states)));
                    if bad.is_ok() {
                        bad = look(d);
                    }
                }))
            })?;
            bad.and_then(|()| look(&r.dfa)).map_err(|m| format!("{k}: while parsing {w:?}: {m}"))?;
            // steps by hand: more states than the symbols ask for, and symbols behind those
            let d = &mut r.dfa;
            let last = p.tables().actions.len() - 1;
            for op in [Some(0), Some(last), None, Some(last / 2), Some(last), Some(0), None] {
                st.transitions += 1;
                sut("a step by hand", || match op {
                    Some(to) => d.goto(to).is_ok(),
                    None => d.shift(last).is_ok(),
                })?;
                look(d).map_err(|m| format!("{k}: by hand after parsing {w:?}: {m}"))?;
            }
            if let Err(x) = &r.res {
                error_text(x).map_err(|m| format!("{k}: after parsing {w:?}: {m}"))?;
            }
            Ok(())
        };
        each(&[ALIEN], st)?;
        explore_inputs(&ea, cfg, |c| {
            each(&ys(&c.w, &e), st)?;
            Ok(ea.alive(c))
        })?;
        if g.augmented() {
            explore_long(&ea, cfg, |c| each(&ys(&c.w, &e), st))?;
            if cfg.deep > 0 {
                explore_deep(&ea, g, &[9, 33], |c| each(&ys(&c.w, &e), st))?;
            }
        }
    }
    st.sample(|| format!("{} [{} items printed, every step of every run]", g.text(), prods.iter().map(|p| p.1.len() + 1).sum::<usize>()));
    Ok(())
}
