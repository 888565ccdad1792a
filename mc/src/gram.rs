//! Grammar representation used by the explorer, enumeration of the bounded grammar spaces,
//! and a small text format used in replay files.

/// Symbol: `0..T0` are nonterminals (0 is the entry symbol), `T0..EOF` are terminals.
pub type Sy = u8;
pub const T0: Sy = 100;
pub const EOF: Sy = 255;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct G {
    /// `rules[n]` is the list of right-hand sides of nonterminal `n`.
    pub rules: Vec<Vec<Vec<Sy>>>,
}

pub const fn is_t(s: Sy) -> bool {
    s >= T0
}

impl G {
    pub fn k(&self) -> usize {
        let mut m = 0;
        for r in self.rules.iter().flatten().flatten() {
            if is_t(*r) {
                m = m.max((*r - T0) as usize + 1);
            }
        }
        m
    }

    pub fn size(&self) -> usize {
        self.rules.iter().flatten().map(|p| p.len()).sum()
    }

    pub fn prods(&self) -> Vec<(Sy, Vec<Sy>, usize)> {
        let mut v = Vec::new();
        for (n, r) in self.rules.iter().enumerate() {
            for (i, p) in r.iter().enumerate() {
                v.push((n as Sy, p.clone(), i));
            }
        }
        v
    }

    pub fn productive(&self) -> Vec<bool> {
        let mut p = vec![false; self.rules.len()];
        loop {
            let mut ch = false;
            for (n, r) in self.rules.iter().enumerate() {
                if !p[n] && r.iter().any(|b| b.iter().all(|s| is_t(*s) || p[*s as usize])) {
                    p[n] = true;
                    ch = true;
                }
            }
            if !ch {
                return p;
            }
        }
    }

    pub fn reachable(&self) -> Vec<bool> {
        let mut r = vec![false; self.rules.len()];
        let mut st = vec![0usize];
        r[0] = true;
        while let Some(n) = st.pop() {
            for s in self.rules[n].iter().flatten() {
                if !is_t(*s) && !r[*s as usize] {
                    r[*s as usize] = true;
                    st.push(*s as usize);
                }
            }
        }
        r
    }

    /// Every nonterminal is reachable and derives some terminal string.
    pub fn reduced(&self) -> bool {
        self.productive().iter().all(|x| *x) && self.reachable().iter().all(|x| *x)
    }

    /// Some nonterminal derives itself (there are no empty productions: a cycle of unit productions).
    pub fn cyclic(&self) -> bool {
        let n = self.rules.len();
        let mut r = vec![vec![false; n]; n];
        for (i, ps) in self.rules.iter().enumerate() {
            for p in ps {
                if p.len() == 1 && !is_t(p[0]) {
                    r[i][p[0] as usize] = true;
                }
            }
        }
        for k in 0..n {
            for i in 0..n {
                for j in 0..n {
                    r[i][j] |= r[i][k] && r[k][j];
                }
            }
        }
        (0..n).any(|i| r[i][i])
    }

    /// One entry production and the entry symbol in no right-hand side.
    pub fn augmented(&self) -> bool {
        self.rules[0].len() == 1 && !self.rules.iter().flatten().flatten().any(|s| *s == 0)
    }

    pub fn well_formed(&self) -> bool {
        !self.rules.is_empty()
            && self.rules.len() < T0 as usize
            && self.rules.iter().all(|r| !r.is_empty() && r.iter().all(|p| !p.is_empty()))
            && self
                .rules
                .iter()
                .flatten()
                .flatten()
                .all(|s| is_t(*s) || (*s as usize) < self.rules.len())
    }

    pub fn text(&self) -> String {
        self.rules
            .iter()
            .enumerate()
            .map(|(n, r)| {
                let alts: Vec<String> = r
                    .iter()
                    .map(|p| p.iter().map(|s| sy_name(*s)).collect::<Vec<_>>().join(" "))
                    .collect();
                format!("{} -> {}", sy_name(n as Sy), alts.join(" | "))
            })
            .collect::<Vec<_>>()
            .join(" ; ")
    }

    /// Parses `S -> A b | c ; A -> ...`: the symbols that have a rule are nonterminals, the first
    /// rule is the entry. Names are arbitrary words.
    pub fn parse(txt: &str) -> (Self, Vec<String>) {
        let mut names: Vec<String> = Vec::new();
        let mut tnames: Vec<String> = Vec::new();
        let decls: Vec<(&str, &str)> = txt
            .split(" ; ")
            .filter(|s| !s.trim().is_empty())
            .map(|d| {
                let (l, r) = d.split_once("->").expect("rule without ->");
                (l.trim(), r)
            })
            .collect();
        for (l, _) in &decls {
            assert!(!names.contains(&l.to_string()), "rule {l} twice");
            names.push(l.to_string());
        }
        let mut rules = Vec::new();
        for (_, r) in &decls {
            let mut alts = Vec::new();
            for a in r.split(" | ") {
                let mut p = Vec::new();
                for w in a.split_whitespace() {
                    if let Some(i) = names.iter().position(|n| n == w) {
                        p.push(i as Sy);
                    } else if let Some(i) = tnames.iter().position(|n| n == w) {
                        p.push(T0 + i as Sy);
                    } else {
                        tnames.push(w.to_string());
                        p.push(T0 + tnames.len() as Sy - 1);
                    }
                }
                alts.push(p);
            }
            rules.push(alts);
        }
        (Self { rules }, tnames)
    }
}

pub fn sy_name(s: Sy) -> String {
    if s == EOF {
        "$".into()
    } else if is_t(s) {
        let i = s - T0;
        if i < 26 {
            ((b'a' + i) as char).to_string()
        } else {
            format!("t{i}")
        }
    } else if s == 0 {
        "S".into()
    } else {
        format!("N{s}")
    }
}

pub fn str_name(w: &[Sy]) -> String {
    w.iter().map(|s| sy_name(*s)).collect::<Vec<_>>().join(" ")
}

/// Bounds of an exhaustive grammar space. All grammars (modulo renaming of symbols and order of
/// productions within a rule) with at most `nts` nonterminals besides the entry, `ts` terminals,
/// `alts` productions per nonterminal, `rhs` symbols per production, and `size` symbols in all
/// non-entry right-hand sides together; entry production of exactly `entry` symbols.
#[derive(Clone, Copy, Debug)]
pub struct Space {
    pub nts: usize,
    pub ts: usize,
    pub alts: usize,
    pub rhs: usize,
    pub size: usize,
    pub entry: usize,
}

struct En<'a, F: FnMut(G)> {
    sp: Space,
    rules: Vec<Vec<Vec<Sy>>>,
    f: &'a mut F,
}

impl<F: FnMut(G)> En<'_, F> {
    /// rule `i` is under construction and its last production is `cur` (partial, target length `len`)
    fn go_rule(&mut self, i: usize, un: usize, ut: usize, left: usize) {
        if i > un {
            (self.f)(G {
                rules: self.rules.clone(),
            });
            return;
        }
        self.rules.push(Vec::new());
        self.go_prod(i, un, ut, left, 1);
        self.rules.pop();
    }

    fn go_prod(&mut self, i: usize, un: usize, ut: usize, left: usize, minlen: usize) {
        // every nonterminal still to be defined needs at least one symbol
        let max = self.sp.rhs.min(left);
        for len in minlen..=max {
            let mut cur = Vec::with_capacity(len);
            self.go_sym(i, un, ut, left - len, len, &mut cur);
        }
    }

    fn go_sym(&mut self, i: usize, un: usize, ut: usize, left: usize, len: usize, cur: &mut Vec<Sy>) {
        // nonterminals introduced but not yet given a rule
        let pending = un - i;
        if pending > left {
            return;
        }
        if cur.len() == len {
            if self.rules[i].contains(cur) {
                return;
            }
            self.rules[i].push(cur.clone());
            // finish this rule
            self.go_rule(i + 1, un, ut, left);
            // or add another production
            if self.rules[i].len() < self.sp.alts {
                self.go_prod(i, un, ut, left, len);
            }
            self.rules[i].pop();
            return;
        }
        for n in 1..=(un + 1).min(self.sp.nts) {
            cur.push(n as Sy);
            self.go_sym(i, un.max(n), ut, left, len, cur);
            cur.pop();
        }
        for t in 0..=ut.min(self.sp.ts - 1) {
            cur.push(T0 + t as Sy);
            self.go_sym(i, un, ut.max(t + 1), left, len, cur);
            cur.pop();
        }
    }
}

pub fn enumerate(sp: Space, mut f: impl FnMut(G)) {
    // entry bodies of exactly sp.entry symbols, canonical numbering
    fn bodies(sp: &Space, un: usize, ut: usize, cur: &mut Vec<Sy>, out: &mut Vec<(Vec<Sy>, usize, usize)>) {
        if cur.len() == sp.entry {
            if un > 0 || sp.entry > 1 {
                out.push((cur.clone(), un, ut));
            }
            return;
        }
        for n in 1..=(un + 1).min(sp.nts) {
            cur.push(n as Sy);
            bodies(sp, un.max(n), ut, cur, out);
            cur.pop();
        }
        for t in 0..=ut.min(sp.ts - 1) {
            cur.push(T0 + t as Sy);
            bodies(sp, un, ut.max(t + 1), cur, out);
            cur.pop();
        }
    }
    let mut out = Vec::new();
    bodies(&sp, 0, 0, &mut Vec::new(), &mut out);
    for (b, un, ut) in out {
        let mut e = En {
            sp,
            rules: vec![vec![b]],
            f: &mut f,
        };
        e.go_rule(1, un, ut, sp.size);
    }
}
