//! Independent language oracle: an incremental Earley recogniser for grammars without empty
//! productions. On a grammar whose nonterminals are all productive, a prefix has a non-empty
//! last column exactly when some sentence extends it, so `alive` decides viability with no bound
//! on the length of the completion.

use crate::gram::{is_t, Sy, EOF, G};
use std::rc::Rc;

pub struct Earley {
    pub prods: Vec<(Sy, Vec<Sy>)>,
    by_lhs: Vec<Vec<usize>>,
    pub terms: Vec<Sy>,
}

/// (production, dot, origin column)
type It = (u16, u16, u16);

#[derive(Clone)]
pub struct Chart {
    /// column i: all items, plus for every nonterminal the items waiting for it
    cols: Vec<Rc<Vec<It>>>,
    pub w: Vec<Sy>,
}

impl Earley {
    /// The oracle works on the productive part of `g`; `g`'s language is unchanged by that.
    pub fn new(g: &G) -> Self {
        let pr = g.productive();
        let mut prods = Vec::new();
        let mut by_lhs = vec![Vec::new(); g.rules.len()];
        for (n, r) in g.rules.iter().enumerate() {
            for p in r {
                if p.iter().all(|s| is_t(*s) || pr[*s as usize]) {
                    by_lhs[n].push(prods.len());
                    prods.push((n as Sy, p.clone()));
                }
            }
        }
        let mut terms: Vec<Sy> = g.rules.iter().flatten().flatten().copied().filter(|s| is_t(*s)).collect();
        terms.sort_unstable();
        terms.dedup();
        Self { prods, by_lhs, terms }
    }

    fn complete_col(&self, cols: &[Rc<Vec<It>>], mut col: Vec<It>, here: usize) -> Vec<It> {
        let mut predicted = vec![false; self.by_lhs.len()];
        let mut i = 0;
        while i < col.len() {
            let (p, d, o) = col[i];
            i += 1;
            let (lhs, rhs) = &self.prods[p as usize];
            if (d as usize) == rhs.len() {
                // ε-free: origin < here, so that column is final
                debug_assert!((o as usize) < here);
                for &(p2, d2, o2) in cols[o as usize].iter() {
                    let r2 = &self.prods[p2 as usize].1;
                    if (d2 as usize) < r2.len() && r2[d2 as usize] == *lhs {
                        let n = (p2, d2 + 1, o2);
                        if !col.contains(&n) {
                            col.push(n);
                        }
                    }
                }
            } else {
                let s = rhs[d as usize];
                if !is_t(s) && !predicted[s as usize] {
                    predicted[s as usize] = true;
                    for &q in &self.by_lhs[s as usize] {
                        let n = (q as u16, 0, here as u16);
                        if !col.contains(&n) {
                            col.push(n);
                        }
                    }
                }
            }
        }
        col
    }

    pub fn start(&self) -> Chart {
        let seed: Vec<It> = self.by_lhs[0].iter().map(|p| (*p as u16, 0, 0)).collect();
        let c = self.complete_col(&[], seed, 0);
        Chart {
            cols: vec![Rc::new(c)],
            w: Vec::new(),
        }
    }

    pub fn feed(&self, c: &Chart, t: Sy) -> Chart {
        let here = c.cols.len();
        let mut seed = Vec::new();
        for &(p, d, o) in c.cols[here - 1].iter() {
            let r = &self.prods[p as usize].1;
            if (d as usize) < r.len() && r[d as usize] == t {
                seed.push((p, d + 1, o));
            }
        }
        let col = self.complete_col(&c.cols, seed, here);
        let mut cols = c.cols.clone();
        cols.push(Rc::new(col));
        let mut w = c.w.clone();
        w.push(t);
        Chart { cols, w }
    }

    pub fn alive(&self, c: &Chart) -> bool {
        !c.cols.last().unwrap().is_empty()
    }

    pub fn sentence(&self, c: &Chart) -> bool {
        c.cols.last().unwrap().iter().any(|&(p, d, o)| {
            let (l, r) = &self.prods[p as usize];
            *l == 0 && o == 0 && (d as usize) == r.len()
        })
    }

    /// Tokens (EOF included) that may come next.
    pub fn next(&self, c: &Chart) -> Vec<Sy> {
        let mut v: Vec<Sy> = c
            .cols
            .last()
            .unwrap()
            .iter()
            .filter_map(|&(p, d, _)| self.prods[p as usize].1.get(d as usize).copied())
            .filter(|s| is_t(*s))
            .collect();
        if self.sentence(c) {
            v.push(EOF);
        }
        v.sort_unstable();
        v.dedup();
        v
    }

    /// Shortest sentence extending an alive prefix.
    pub fn completion(&self, c: &Chart) -> Option<Vec<Sy>> {
        if !self.alive(c) {
            return None;
        }
        // Greedy by minimal remaining length is enough: take, at every step, the token that
        // leads to the smallest distance; distance is found by bounded BFS.
        let mut frontier = vec![c.clone()];
        for _ in 0..40 {
            let mut nf = Vec::new();
            for f in &frontier {
                if self.sentence(f) {
                    return Some(f.w.clone());
                }
                for t in self.next(f) {
                    if t != EOF {
                        nf.push(self.feed(f, t));
                    }
                }
                if nf.len() > 4000 {
                    break;
                }
            }
            frontier = nf;
        }
        None
    }
}
