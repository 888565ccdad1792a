//! Very long inputs: sentences of tens of thousands of tokens, deep and flat, with and without an
//! error near their end, against a driver that runs the textbook automaton of the same kind.

use crate::engine::{sut, Stats};
use crate::gram::{is_t, str_name, sy_name, Sy, EOF, G};
use crate::lrref::{Act, Auto, Ref};
use crate::props::{run_kinds, with, AnyP, Cfg, LR_CAP, R};
use crate::pump::pumped_to;
use crate::sut::*;
use lrp::{Error, Parser, ReductMap, Token};
use std::cell::Cell;
use std::collections::BTreeSet;

thread_local! {
    static HASH: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
}

const fn mix(h: u64, x: u64) -> u64 {
    (h ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23)
}

fn noted(p: u16) {
    HASH.with(|h| {
        let (n, x) = h.get();
        h.set((n + 1, mix(x, u64::from(p) + 1)));
    });
}

/// The value of a reduction: which production, and the values and types of its operands.
fn red<const P: u16>(toks: &[Token<u64, Y>]) -> u64 {
    noted(P);
    toks.iter().fold(u64::from(P) + 7, |h, t| mix(mix(h, t.item), u64::from(t.ty.0)))
}

macro_rules! reds {
    ($($n:literal)*) => { [$(red::<$n>),*] };
}
const FEW: usize = 40;
const REDS: [lrp::ReductFn<u64, Y>; FEW] = reds!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39);

fn map(g: &G, e: &Enc) -> ReductMap<u64, Y> {
    let mut m: ReductMap<u64, Y> = ReductMap::new();
    for (i, (l, _, _)) in g.prods().iter().enumerate() {
        m.entry(e.y(*l)).or_default().push(REDS[i]);
    }
    m
}

/// What can be seen of a run.
#[derive(Clone, Debug, PartialEq, Eq)]
struct Seen {
    /// the wrong token and what was expected, or acceptance
    end: Result<(), (Y, BTreeSet<Y>)>,
    taken: usize,
    reductions: (u64, u64),
    /// symbols on the stack at the end, and the values they carry
    depth: usize,
    values: u64,
}

fn reference(auto: &Auto, rf: &Ref, w: &[Y], e: &Enc) -> Option<(Seen, usize)> {
    HASH.with(|h| h.set((0, 0)));
    let mut states = vec![0usize];
    let mut vals: Vec<(Y, u64)> = Vec::new();
    let (mut at, mut steps) = (0, 0);
    let end = loop {
        steps += 1;
        let y = w.get(at).copied().unwrap_or(e.y(EOF));
        let row = &auto.cells[*states.last()?];
        let act = e.back(y).and_then(|s| row.get(&s));
        let tokens = || row.iter().filter(|(s, _)| is_t(**s) || **s == EOF).map(|(s, _)| e.y(*s)).collect();
        match act.map(|a| a.iter().collect::<Vec<_>>()).as_deref() {
            None | Some([Act::Goto(_)]) => break Err((y, tokens())),
            Some([Act::Shift(to)]) => {
                vals.push((y, at as u64));
                states.push(*to);
                at += 1;
            }
            Some([Act::Acc]) => break Ok(()),
            Some([Act::Reduce(p)]) => {
                let (l, r, _) = &rf.prods[*p];
                let from = vals.len() - r.len();
                noted(*p as u16);
                let v = vals[from..].iter().fold(*p as u64 + 7, |h, t| mix(mix(h, t.1), u64::from(t.0 .0)));
                vals.truncate(from);
                states.truncate(from + 1);
                vals.push((e.y(*l), v));
                states.push(*auto.trans[*states.last()?].get(l)?);
            }
            _ => return None,
        }
    };
    let values = vals.iter().fold(0, |h, (y, v)| mix(mix(h, *v), u64::from(y.0)));
    // the token that was looked at last is taken from the source too
    let taken = (at + 1).min(w.len());
    Some((Seen { end, taken, reductions: HASH.with(Cell::get), depth: vals.len(), values }, steps))
}

fn toks(w: &[Y]) -> Vec<Token<u64, Y>> {
    w.iter().enumerate().map(|(i, t)| Token::new(i as u64, *t)).collect()
}

/// Steps through a word; also what must hold all along (C13).
fn real(p: &AnyP, w: &[Y], m: ReductMap<u64, Y>, limit: usize, st: &mut Stats) -> Result<(Seen, Option<u64>), String> {
    HASH.with(|h| h.set((0, 0)));
    st.runs += 1;
    let k = p.kind();
    let mut bad = None;
    let mut n = 0usize;
    let r = sut(&format!("{k} parser"), || {
        with!(p, q => run(q, toks(w), m, limit, |d| {
            n += 1;
            if d.states.len() != d.items.len() + 1 || d.states.last() != Some(&d.top) {
                bad.get_or_insert(format!("{} states, {} symbols, on top {:?}, in state {}", d.states.len(), d.items.len(), d.states.last(), d.top));
            }
            if n % 20_000 == 0 {
                for (i, it) in d.items.iter().enumerate() {
                    let ok = matches!(d.table[d.states[i]].get(&it.ty), Some(lrp::Action::Shift(t) | lrp::Action::Goto(t)) if *t == d.states[i + 1]);
                    if !ok {
                        bad.get_or_insert(format!("symbol {i} of the stack does not lead from its state to the next"));
                    }
                }
            }
        }))
    })?;
    st.transitions += n as u64;
    st.states += n as u64;
    if let Some(b) = bad {
        return Err(format!("{k}: {b}"));
    }
    if r.limit {
        return Err(format!("{k}: more than {limit} steps without finishing"));
    }
    if r.polled_after_end {
        return Err(format!("{k}: the source is asked again after its end"));
    }
    let end = match &r.res {
        Ok(()) => Ok(()),
        Err(Error::UnexpectedToken(y, x)) => Err((*y, x.iter().copied().collect())),
        Err(x) => return Err(format!("{k}: the error is {x:?}")),
    };
    let values = r.dfa.items.iter().fold(0, |h, t| mix(mix(h, t.item), u64::from(t.ty.0)));
    let seen = Seen { end, taken: r.polls, reductions: HASH.with(Cell::get), depth: r.dfa.items.len(), values };
    Ok((seen, r.dfa.items.last().map(|t| t.item)))
}

fn result(r: Result<u64, Error<Y>>) -> Result<u64, (Y, BTreeSet<Y>)> {
    match r {
        Ok(v) => Ok(v),
        Err(Error::UnexpectedToken(y, x)) => Err((y, x.iter().copied().collect())),
        Err(_) => Err((ALIEN, BTreeSet::new())),
    }
}

/// `cfg.deep`: length of the inputs.
pub fn far(id: &str, g: &G, cfg: &Cfg, style: u8, st: &mut Stats) -> R {
    if !g.augmented() || g.prods().len() > FEW || !g.reduced() {
        return Ok(());
    }
    let e = Enc::style(style);
    let rf = Ref::new(g);
    let Some(clr) = rf.clr(LR_CAP) else { return Ok(()) };
    let mut words = pumped_to(g, cfg.deep);
    words.sort_by_key(Vec::len);
    // loops of different shapes: the first, the last and one in the middle
    let n = words.len();
    if n > 3 {
        words = vec![words[0].clone(), words[n / 2].clone(), words[n - 1].clone()];
    }
    if words.is_empty() {
        return Ok(());
    }
    let mut any = false;
    for k in run_kinds(g) {
        let auto = match *k {
            "CLR" => clr.clone(),
            "LALR" => rf.lalr(&clr),
            _ => rf.slr(LR_CAP).unwrap(),
        };
        if auto.conflicts() > 0 {
            continue;
        }
        any = true;
        let mut p = AnyP::build(k, g, &e)?;
        if id == "C10" {
            sut("reduce_equals", || p.reduce_equals())?;
        }
        for w in &words {
            let whole: Vec<Y> = w.iter().map(|s| e.y(*s)).collect();
            let cut = whole[..whole.len() - 1].to_vec();
            let foreign = [&cut[..], &[ALIEN], &whole[whole.len() - 1..]].concat();
            let more = [&whole[..], &whole[whole.len() - 1..]].concat();
            let name = |v: usize| {
                let head: Vec<Sy> = w.iter().copied().take(6).collect();
                format!("{k}: a sentence of {} tokens that begins `{}`{}", w.len(), str_name(&head), ["", ", without the last", ", with a foreign symbol before the last", ", with the last twice"][v])
            };
            let want: Vec<(Seen, usize)> = {
                let mut v = Vec::new();
                for x in [&whole, &cut, &foreign, &more] {
                    let Some(r) = reference(&auto, &rf, x, &e) else { return Ok(()) };
                    v.push(r);
                }
                v
            };
            for (v, x) in [&whole, &cut, &foreign, &more].into_iter().enumerate() {
                if v > 0 && matches!(id, "C04" | "C09") {
                    continue;
                }
                let (seen, last) = real(&p, x, map(g, &e), 2 * want[v].1 + 100, st).map_err(|m| format!("{}: {m}", name(v)))?;
                let ws = &want[v].0;
                let differs = match id {
                    "C01" => seen.end.is_ok() != ws.end.is_ok(),
                    "C05" => seen.end != ws.end || seen.taken != ws.taken,
                    "C07" => false,
                    "C13" => seen.depth != ws.depth,
                    _ => seen != *ws,
                };
                if differs {
                    let show = |s: &Seen| {
                        let end = match &s.end {
                            Ok(()) => "accepted".to_string(),
                            Err((y, x)) => format!("wrong token {}, expected [{}]", e.back(*y).map_or("foreign".into(), sy_name), str_name(&e.back_all(x))),
                        };
                        format!("{end}, {} tokens taken, {} reductions ({:x}), {} symbols left ({:x})", s.taken, s.reductions.0, s.reductions.1, s.depth, s.values)
                    };
                    return Err(format!("{}: {}; the textbook's machine: {}", name(v), show(&seen), show(ws)));
                }
                let fresh = match &seen.end {
                    Ok(()) => last.ok_or((ALIEN, BTreeSet::new())),
                    Err(x) => Err(x.clone()),
                };
                if id == "C01" {
                    let ok = sut("validate", || with!(&p, q => q.validate(unit_toks(x))))?;
                    if ok != seen.end.is_ok() {
                        return Err(format!("{}: validate says {ok}", name(v)));
                    }
                }
                if id == "C04" || id == "C10" {
                    let r = result(sut("parse", || with!(&p, q => q.parse(toks(x), map(g, &e))))?);
                    if r != fresh {
                        return Err(format!("{}: parse gives another value than stepping", name(v)));
                    }
                }
                if id == "C09" {
                    let err = sut("a machine used again", || with!(&p, q => {
                        let mut d = q.dfa(Feed::new(toks(&[])).0, map(g, &e));
                        for (i, (x, v)) in [(&whole, 0), (&cut, 1), (&whole, 0), (&foreign, 2), (&more, 3), (&whole, 0)].into_iter().enumerate() {
                            let got = result(d.parse(Feed::new(toks(x)).0));
                            let good = match (&got, &want[v].0.end) {
                                (Ok(a), Ok(())) => v > 0 || Ok(a) == fresh.as_ref(),
                                (Err(a), Err(b)) => a == b,
                                _ => false,
                            };
                            if !good {
                                return Some((i, v, format!("{:?}", got.map_err(|x| x.0))));
                            }
                        }
                        None
                    }))?;
                    if let Some((i, v, got)) = err {
                        return Err(format!("{}: as parse number {} of one machine it gives {got}", name(v), i + 1));
                    }
                }
            }
        }
    }
    if any {
        st.decided += 1;
        st.out_n("inputs of tens of thousands of tokens", words.len() as u64);
    }
    Ok(())
}
