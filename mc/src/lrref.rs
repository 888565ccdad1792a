//! Textbook reference constructions: FIRST/FOLLOW, LR(0), canonical LR(1), LALR(1) (canonical
//! LR(1) states with equal cores merged) and SLR(1). Written for clarity, not taken from lrp.

use crate::gram::{is_t, Sy, EOF, G, T0};
use std::collections::{BTreeMap, BTreeSet, HashMap};

/// terminals as bits; EOF is bit 127
pub type Mask = u128;
pub fn bit(s: Sy) -> Mask {
    if s == EOF {
        1 << 127
    } else {
        1 << (s - T0)
    }
}
pub fn unmask(m: Mask) -> Vec<Sy> {
    let mut v = Vec::new();
    for i in 0..127u8 {
        if m & (1 << i) != 0 {
            v.push(T0 + i);
        }
    }
    if m & (1 << 127) != 0 {
        v.push(EOF);
    }
    v
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub enum Act {
    Shift(usize),
    Goto(usize),
    Reduce(usize),
    Acc,
}

pub type Item = (u16, u16);
pub type St = Vec<(Item, Mask)>;

#[derive(Clone)]
pub struct Auto {
    pub states: Vec<St>,
    pub trans: Vec<BTreeMap<Sy, usize>>,
    pub cells: Vec<BTreeMap<Sy, BTreeSet<Act>>>,
}

impl Auto {
    pub fn conflicts(&self) -> usize {
        self.cells.iter().flat_map(|r| r.values()).filter(|s| s.len() > 1).count()
    }
}

pub struct Ref<'a> {
    pub g: &'a G,
    pub prods: Vec<(Sy, Vec<Sy>, usize)>,
    pub by_lhs: Vec<Vec<usize>>,
    pub first: Vec<Mask>,
    pub follow: Vec<Mask>,
}

impl<'a> Ref<'a> {
    pub fn new(g: &'a G) -> Self {
        let prods = g.prods();
        let mut by_lhs = vec![Vec::new(); g.rules.len()];
        for (i, p) in prods.iter().enumerate() {
            by_lhs[p.0 as usize].push(i);
        }
        let mut first = vec![0; g.rules.len()];
        loop {
            let mut ch = false;
            for (l, r, _) in &prods {
                let f = if is_t(r[0]) { bit(r[0]) } else { first[r[0] as usize] };
                if first[*l as usize] | f != first[*l as usize] {
                    first[*l as usize] |= f;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        let mut follow = vec![0; g.rules.len()];
        follow[0] = bit(EOF);
        loop {
            let mut ch = false;
            for (l, r, _) in &prods {
                for i in 0..r.len() {
                    if is_t(r[i]) {
                        continue;
                    }
                    let f = match r.get(i + 1) {
                        None => follow[*l as usize],
                        Some(s) if is_t(*s) => bit(*s),
                        Some(s) => first[*s as usize],
                    };
                    let e = &mut follow[r[i] as usize];
                    if *e | f != *e {
                        *e |= f;
                        ch = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        Self {
            g,
            prods,
            by_lhs,
            first,
            follow,
        }
    }

    fn first_sym(&self, s: Sy) -> Mask {
        if is_t(s) {
            bit(s)
        } else {
            self.first[s as usize]
        }
    }

    /// `lr1 = false` gives LR(0) closures (all masks 0).
    pub fn closure(&self, kernel: &St, lr1: bool) -> St {
        let mut m: BTreeMap<Item, Mask> = kernel.iter().copied().collect();
        let mut work: Vec<Item> = m.keys().copied().collect();
        while let Some(it) = work.pop() {
            let mask = m[&it];
            let r = &self.prods[it.0 as usize].1;
            let Some(&s) = r.get(it.1 as usize) else { continue };
            if is_t(s) {
                continue;
            }
            let look = if lr1 {
                r.get(it.1 as usize + 1).map_or(mask, |n| self.first_sym(*n))
            } else {
                0
            };
            for &p in &self.by_lhs[s as usize] {
                let n = (p as u16, 0);
                match m.get_mut(&n) {
                    None => {
                        m.insert(n, look);
                        work.push(n);
                    }
                    Some(e) if *e | look != *e => {
                        *e |= look;
                        work.push(n);
                    }
                    _ => {}
                }
            }
        }
        m.into_iter().collect()
    }

    fn build(&self, lr1: bool, cap: usize) -> Option<(Vec<St>, Vec<BTreeMap<Sy, usize>>)> {
        let start: St = vec![((self.by_lhs[0][0] as u16, 0), if lr1 { bit(EOF) } else { 0 })];
        let mut idx: HashMap<St, usize> = HashMap::new();
        let s0 = self.closure(&start, lr1);
        idx.insert(s0.clone(), 0);
        let mut states = vec![s0];
        let mut trans: Vec<BTreeMap<Sy, usize>> = Vec::new();
        let mut i = 0;
        while i < states.len() {
            let mut by: BTreeMap<Sy, St> = BTreeMap::new();
            for &((p, d), m) in &states[i] {
                if let Some(&s) = self.prods[p as usize].1.get(d as usize) {
                    by.entry(s).or_default().push(((p, d + 1), m));
                }
            }
            let mut tr = BTreeMap::new();
            for (s, k) in by {
                let c = self.closure(&k, lr1);
                let n = states.len();
                let j = *idx.entry(c.clone()).or_insert(n);
                if j == n {
                    states.push(c);
                    if states.len() > cap {
                        return None;
                    }
                }
                tr.insert(s, j);
            }
            trans.push(tr);
            i += 1;
        }
        Some((states, trans))
    }

    fn cells(&self, states: &[St], trans: &[BTreeMap<Sy, usize>], look: impl Fn(usize, Mask) -> Mask) -> Vec<BTreeMap<Sy, BTreeSet<Act>>> {
        states
            .iter()
            .zip(trans)
            .map(|(st, tr)| {
                let mut row: BTreeMap<Sy, BTreeSet<Act>> = BTreeMap::new();
                for (s, j) in tr {
                    let a = if is_t(*s) { Act::Shift(*j) } else { Act::Goto(*j) };
                    row.entry(*s).or_default().insert(a);
                }
                for &((p, d), m) in st {
                    let pr = &self.prods[p as usize];
                    if d as usize == pr.1.len() {
                        let a = if pr.0 == 0 { Act::Acc } else { Act::Reduce(p as usize) };
                        for t in unmask(look(p as usize, m)) {
                            row.entry(t).or_default().insert(a);
                        }
                    }
                }
                row
            })
            .collect()
    }

    pub fn clr(&self, cap: usize) -> Option<Auto> {
        let (states, trans) = self.build(true, cap)?;
        let cells = self.cells(&states, &trans, |_, m| m);
        Some(Auto { states, trans, cells })
    }

    pub fn slr(&self, cap: usize) -> Option<Auto> {
        let (states, trans) = self.build(false, cap)?;
        let cells = self.cells(&states, &trans, |p, _| self.follow[self.prods[p].0 as usize]);
        Some(Auto { states, trans, cells })
    }

    pub fn lalr(&self, clr: &Auto) -> Auto {
        let mut idx: HashMap<Vec<Item>, usize> = HashMap::new();
        let mut of = Vec::new();
        let mut states: Vec<BTreeMap<Item, Mask>> = Vec::new();
        for st in &clr.states {
            let core: Vec<Item> = st.iter().map(|x| x.0).collect();
            let n = states.len();
            let j = *idx.entry(core).or_insert(n);
            if j == n {
                states.push(BTreeMap::new());
            }
            for (it, m) in st {
                *states[j].entry(*it).or_default() |= m;
            }
            of.push(j);
        }
        let states: Vec<St> = states.into_iter().map(|m| m.into_iter().collect()).collect();
        let mut trans = vec![BTreeMap::new(); states.len()];
        for (i, tr) in clr.trans.iter().enumerate() {
            for (s, j) in tr {
                trans[of[i]].insert(*s, of[*j]);
            }
        }
        let cells = self.cells(&states, &trans, |_, m| m);
        Auto { states, trans, cells }
    }
}
