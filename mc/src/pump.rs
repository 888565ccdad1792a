//! Long sentences: every way to repeat a recursive part of a grammar, `k` times, for given `k`.
//!
//! For every nonterminal A that can derive a string containing itself, and every production of A
//! and place in it from which A can be reached again, the shortest such loop A =>+ u A v is
//! repeated `k` times inside the shortest context S =>* x A y around the shortest string of A.

use crate::gram::{is_t, Sy, G};

/// Longest sentence produced.
pub const LONGEST: usize = 1300;

struct Min {
    /// shortest terminal string of every nonterminal
    str: Vec<Option<Vec<Sy>>>,
}

fn flat(m: &Min, p: &[Sy]) -> Option<Vec<Sy>> {
    let mut v = Vec::new();
    for s in p {
        if is_t(*s) {
            v.push(*s);
        } else {
            v.extend(m.str[*s as usize].as_ref()?);
        }
    }
    Some(v)
}

fn shortest(g: &G) -> Min {
    let mut m = Min { str: vec![None; g.rules.len()] };
    loop {
        let mut ch = false;
        for (n, r) in g.rules.iter().enumerate() {
            for p in r {
                if let Some(v) = flat(&m, p) {
                    if m.str[n].as_ref().is_none_or(|o| v.len() < o.len()) {
                        m.str[n] = Some(v);
                        ch = true;
                    }
                }
            }
        }
        if !ch {
            return m;
        }
    }
}

type Ctx = (Vec<Sy>, Vec<Sy>);

/// Contexts of one production step from `a`: (nonterminal reached, left, right).
fn steps(g: &G, m: &Min, a: usize) -> Vec<(usize, Vec<Sy>, Vec<Sy>)> {
    let mut out = Vec::new();
    for p in &g.rules[a] {
        for (i, s) in p.iter().enumerate() {
            if !is_t(*s) {
                if let (Some(l), Some(r)) = (flat(m, &p[..i]), flat(m, &p[i + 1..])) {
                    if m.str[*s as usize].is_some() {
                        out.push((*s as usize, l, r));
                    }
                }
            }
        }
    }
    out
}

/// Shortest contexts from `a` to every nonterminal (to itself: the empty one).
fn contexts(g: &G, m: &Min, a: usize) -> Vec<Option<Ctx>> {
    let mut c: Vec<Option<Ctx>> = vec![None; g.rules.len()];
    c[a] = Some((Vec::new(), Vec::new()));
    loop {
        let mut ch = false;
        for b in 0..g.rules.len() {
            let Some((l, r)) = c[b].clone() else { continue };
            for (to, l2, r2) in steps(g, m, b) {
                let n = l.len() + r.len() + l2.len() + r2.len();
                if c[to].as_ref().is_none_or(|o| n < o.0.len() + o.1.len()) {
                    c[to] = Some(([l.clone(), l2].concat(), [r2, r.clone()].concat()));
                    ch = true;
                }
            }
        }
        if !ch {
            return c;
        }
    }
}

pub fn pumped(g: &G, ks: &[usize]) -> Vec<Vec<Sy>> {
    let mut out = loops(g, |_| ks.to_vec(), LONGEST);
    out.extend(spanning(g));
    out.sort();
    out.dedup();
    out
}

/// For every production the shortest sentence that takes it in its shortest context.
fn spanning(g: &G) -> Vec<Vec<Sy>> {
    let m = shortest(g);
    let from_start = contexts(g, &m, 0);
    let mut out = Vec::new();
    for (a, r) in g.rules.iter().enumerate() {
        let Some((x, y)) = &from_start[a] else { continue };
        for p in r {
            if let Some(mid) = flat(&m, p) {
                out.push([x.clone(), mid, y.clone()].concat());
            }
        }
    }
    out
}

/// Every loop repeated until the sentence has about `len` tokens.
pub fn pumped_to(g: &G, len: usize) -> Vec<Vec<Sy>> {
    loops(g, |n| vec![len / n], len * 2)
}

/// `ks`: how often to repeat a loop of that many tokens.
fn loops(g: &G, ks: impl Fn(usize) -> Vec<usize>, longest: usize) -> Vec<Vec<Sy>> {
    let m = shortest(g);
    let mut out: Vec<Vec<Sy>> = Vec::new();
    if m.str[0].is_none() {
        return out;
    }
    let from_start = contexts(g, &m, 0);
    for a in 0..g.rules.len() {
        let (Some((x, y)), Some(mid)) = (&from_start[a], &m.str[a]) else { continue };
        for (b, l, r) in steps(g, &m, a) {
            let Some((l2, r2)) = contexts(g, &m, b)[a].clone() else { continue };
            let (u, v) = ([l, l2].concat(), [r2, r].concat());
            if u.is_empty() && v.is_empty() {
                continue;
            }
            for k in ks(u.len() + v.len()) {
                let w = [x.clone(), u.repeat(k), mid.clone(), v.repeat(k), y.clone()].concat();
                if w.len() <= longest {
                    out.push(w);
                }
            }
        }
    }
    out.sort();
    out.dedup();
    out
}
