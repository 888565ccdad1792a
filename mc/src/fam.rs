//! Families of grammars: exhaustive spaces, textbook grammars, their complete edit
//! neighbourhoods, and parametric families (one dimension swept completely).

use crate::gram::{enumerate, Space, Sy, G, T0};
use std::collections::HashSet;

pub const TEXTBOOK: &[(&str, &str)] = &[
    ("dragon", "S -> C C ; C -> c C | d"),
    ("dragon-aug", "S -> A ; A -> C C ; C -> c C | d"),
    ("assign", "S -> A ; A -> L = R | R ; L -> * R | i ; R -> L"),
    ("lalr-not-slr", "S -> A ; A -> B a | b B c | d c | b d a ; B -> d"),
    ("lr1-not-lalr", "S -> A ; A -> a B d | b C d | a C e | b B e ; B -> c ; C -> c"),
    ("ucalgary", "S -> E ; E -> d D | D | F ; F -> e C | C ; D -> d e B b | e A c ; C -> e d B c | d A b ; B -> a ; A -> a"),
    ("serokell", "S -> A ; A -> A + F | F ; F -> F * T | T ; T -> ( A ) | int | ident"),
    ("wikipedia", "S -> E ; E -> E * B | E + B | B ; B -> 0 | 1"),
    ("puncs", "S -> P ; P -> ( ) | ( P ) | [ ] | [ P ] | { } | { P }"),
    ("phrase", "S -> P ; P -> I s P | I ; I -> W | M ; W -> A W | A ; M -> D M | D ; A -> a | b ; D -> 0 | 1"),
    ("expr-amb", "S -> E ; E -> E + E | E * E | n"),
    ("else", "S -> I ; I -> i I | i I e I | x"),
    ("palindrome", "S -> P ; P -> a P a | b P b | a | b"),
    ("anbn", "S -> A ; A -> a A b | a b"),
    ("list-left", "S -> L ; L -> L , x | x"),
    ("list-right", "S -> L ; L -> x , L | x"),
    ("lcycle3", "S -> A ; A -> B x | a ; B -> C y ; C -> A z"),
    ("lcycle3b", "S -> A ; A -> B x | a ; B -> C y | b ; C -> A z | c"),
    ("rcycle3", "S -> A ; A -> x B | a ; B -> y C | b ; C -> z A | c"),
    ("units", "S -> A ; A -> B | a A ; B -> C | b ; C -> D | ( A ) ; D -> d"),
    ("calls", "S -> E ; E -> T | E + T ; T -> c | P ( E ) ; P -> T . i | i"),
    ("json", "S -> V ; V -> s | [ ] | [ L ] | { } | { M } ; L -> V | L , V ; M -> s : V | M , s : V"),
    ("stmts", "S -> B ; B -> { L } ; L -> L T | T ; T -> i = E ; | B | r E ; ; E -> E + i | i"),
    ("lr2", "S -> A ; A -> B a a | C a b ; B -> x ; C -> x"),
    ("lalr-prop", "S -> A ; A -> x B p | y B q | z D q ; D -> x B ; B -> m N | n ; N -> w B | w"),
    ("lalr-deep", "S -> A ; A -> a B | b C x ; B -> C y ; C -> D | c C ; D -> E ; E -> d | e D"),
    ("lalr-merge", "S -> A ; A -> a X c | b X d | c Y d ; X -> x Z ; Y -> x Z ; Z -> z | z Z"),
    ("opt-else", "S -> M ; M -> M T | T ; T -> i c T f | i c T l T f | a"),
    ("types", "S -> D ; D -> T v ; T -> T [ ] | P ; P -> i | P . i | ( T )"),
    ("null-free-opt", "S -> Q ; Q -> a b c | a b | a c | b c | a"),
    ("wop", "S -> Program ; Program -> Program Decl ; | Decl ; ; Decl -> use Path | use Path :: * | alias i Path | Path : Path = Rule ; Path -> Path :: i | i ; Rule -> Rule | Pipe | Pipe ; Pipe -> Pipe Item | Item ; Item -> Path | ( Rule ) ? | ( Rule )"),
    ("hidden-left", "S -> A ; A -> B c | c ; B -> A | b"),
    ("unproductive", "S -> A ; A -> a | B b ; B -> B c"),
    ("unproductive2", "S -> A ; A -> a A | B C | b ; B -> c ; C -> C d | D ; D -> C e"),
    ("unreachable", "S -> A ; A -> a | A b ; U -> c A | V ; V -> U d | U"),
    ("empty-lang", "S -> A ; A -> B a ; B -> A b"),
    ("self-unit", "S -> A ; A -> A | a"),
    ("unit-cycle", "S -> A ; A -> B | a ; B -> C ; C -> A | c"),
    ("dup", "S -> A ; A -> a b | a b | c"),
    ("entry-multi", "S -> x A y ; A -> a | a A | B ; B -> z B z | w"),
    ("entry-term", "S -> x y"),
    ("longprod", "S -> A ; A -> a b c d e f g | a b c d e A g"),
];

/// The text format uses ` ; ` and ` | ` as separators; grammars that need these as terminals
/// spell them `;` next to other symbols, which `parse` cannot see. So translate by hand.
pub fn textbook() -> Vec<(String, G)> {
    TEXTBOOK
        .iter()
        .map(|(n, t)| {
            let t = match *n {
                "stmts" => "S -> B ; B -> { L } ; L -> L T | T ; T -> i = E semi | B | r E semi ; E -> E + i | i".to_string(),
                "wop" => "S -> Program ; Program -> Program Decl semi | Decl semi ; Decl -> use Path | use Path :: * | alias i Path | Path : Path = Rule ; Path -> Path :: i | i ; Rule -> Rule pipe Pipe | Pipe ; Pipe -> Pipe Item | Item ; Item -> Path | ( Rule ) ? | ( Rule )".to_string(),
                _ => (*t).to_string(),
            };
            ((*n).to_string(), G::parse(&t).0)
        })
        .collect()
}

/// All grammars one edit away: drop a production, drop/replace/insert one symbol, add a
/// production of one symbol or of two symbols to any nonterminal. Symbols range over the
/// grammar's own non-entry symbols plus one fresh terminal. The entry production is edited too.
pub fn edits(g: &G) -> Vec<G> {
    let mut out = Vec::new();
    let mut alpha: Vec<Sy> = (1..g.rules.len() as Sy).collect();
    alpha.extend((0..=g.k() as Sy).map(|i| T0 + i));
    for n in 0..g.rules.len() {
        for i in 0..g.rules[n].len() {
            if g.rules[n].len() > 1 {
                let mut h = g.clone();
                h.rules[n].remove(i);
                out.push(h);
            }
            let len = g.rules[n][i].len();
            for j in 0..=len {
                if j < len && len > 1 {
                    let mut h = g.clone();
                    h.rules[n][i].remove(j);
                    out.push(h);
                }
                for &s in &alpha {
                    if j < len && g.rules[n][i][j] != s {
                        let mut h = g.clone();
                        h.rules[n][i][j] = s;
                        out.push(h);
                    }
                    let mut h = g.clone();
                    h.rules[n][i].insert(j, s);
                    out.push(h);
                }
            }
        }
        if n > 0 {
            for &s in &alpha {
                let mut h = g.clone();
                h.rules[n].push(vec![s]);
                out.push(h);
                for &s2 in &alpha {
                    let mut h = g.clone();
                    h.rules[n].push(vec![s, s2]);
                    out.push(h);
                }
            }
        }
    }
    out
}

fn t(i: usize) -> Sy {
    T0 + i as Sy
}

/// One-dimensional families, every value of the dimension up to `n`.
pub fn parametric(n: usize) -> Vec<(String, G)> {
    let mut v: Vec<(String, G)> = Vec::new();
    for i in 1..=n {
        // right-hand side of length i, and the same with a recursive tail
        v.push((format!("rhs{i}"), G { rules: vec![vec![vec![1]], vec![(0..i).map(t).collect()]] }));
        let mut r: Vec<Sy> = (0..i).map(t).collect();
        r.push(1);
        v.push((format!("rhsrec{i}"), G { rules: vec![vec![vec![1]], vec![r.clone(), vec![t(0)]]] }));
        r.rotate_right(1);
        v.push((format!("lhsrec{i}"), G { rules: vec![vec![vec![1]], vec![r, vec![t(0)]]] }));
        // i alternatives
        v.push((format!("alts{i}"), G { rules: vec![vec![vec![1]], (0..i).map(|j| vec![t(j)]).collect()] }));
        v.push((
            format!("altslist{i}"),
            G { rules: vec![vec![vec![1]], vec![vec![1, 2], vec![2]], (0..i).map(|j| vec![t(j)]).collect()] },
        ));
        // unit chain of i nonterminals
        let mut rules = vec![vec![vec![1]]];
        for j in 1..=i {
            rules.push(if j == i { vec![vec![t(0)]] } else { vec![vec![j as Sy + 1]] });
        }
        v.push((format!("units{i}"), G { rules: rules.clone() }));
        // chain with an alternative at every level
        let mut r2 = rules.clone();
        for (j, r) in r2.iter_mut().enumerate().skip(1) {
            if j < i {
                r.push(vec![t(j)]);
            }
        }
        v.push((format!("unitalts{i}"), G { rules: r2 }));
        // cyclic left / right recursion through i nonterminals; cyclic unit rules
        let cyc = |left: bool, dense: bool| {
            let mut rules = vec![vec![vec![1]]];
            for j in 1..=i {
                let nx = if j == i { 1 } else { j as Sy + 1 };
                let mut p = vec![nx, t(j)];
                if !left {
                    p.reverse();
                }
                let mut r = vec![p];
                if j == 1 || dense {
                    r.push(vec![t(0), t(j)]);
                }
                rules.push(r);
            }
            G { rules }
        };
        v.push((format!("lcyc{i}"), cyc(true, false)));
        v.push((format!("rcyc{i}"), cyc(false, false)));
        v.push((format!("lcycd{i}"), cyc(true, true)));
        v.push((format!("rcycd{i}"), cyc(false, true)));
        let mut rules = vec![vec![vec![1]]];
        for j in 1..=i {
            let nx = if j == i { 1 } else { j as Sy + 1 };
            rules.push(if j == 1 { vec![vec![nx], vec![t(0)]] } else { vec![vec![nx]] });
        }
        v.push((format!("ucyc{i}"), G { rules }));
        // i operator levels with parentheses
        let mut rules = vec![vec![vec![1]]];
        for j in 1..=i {
            rules.push(vec![vec![j as Sy, t(j), j as Sy + 1], vec![j as Sy + 1]]);
        }
        rules.push(vec![vec![t(0)], vec![t(i + 1), 1, t(i + 2)]]);
        if i <= 8 {
            v.push((format!("ops{i}"), G { rules }));
        }
        // i contexts that share one tail (LALR look-ahead merging over distance)
        if i <= 8 {
            let mut main = Vec::new();
            for j in 0..i {
                main.push(vec![t(2 * j), 2, t(2 * j + 1)]);
            }
            v.push((
                format!("ctx{i}"),
                G { rules: vec![vec![vec![1]], main, vec![vec![3]], vec![vec![4, t(40)], vec![4]], vec![vec![t(41), 2], vec![t(42)]]] },
            ));
            // same with a chain of i nonterminals carrying the look-ahead
            let mut rules = vec![vec![vec![1]], vec![vec![t(0), 2, t(1)], vec![t(2), 2, t(3)], vec![t(4), 2]]];
            for j in 0..i {
                rules.push(vec![vec![t(10 + j), j as Sy + 3], vec![t(20 + j)]]);
            }
            rules.push(vec![vec![t(5)]]);
            v.push((format!("carry{i}"), G { rules }));
        }
        // nesting by i bracket kinds
        if i <= 10 {
            let mut r: Vec<Vec<Sy>> = Vec::new();
            for j in 0..i {
                r.push(vec![t(2 * j), 1, t(2 * j + 1)]);
                r.push(vec![t(2 * j), t(2 * j + 1)]);
            }
            v.push((format!("brackets{i}"), G { rules: vec![vec![vec![1]], r] }));
        }
    }
    v
}

/// Families in which something must travel far - through a chain of rules, of states, of contexts or
/// of alternatives - for every distance up to `n`. Few terminals, so that distances can be large.
/// Grammars whose productions, states or alternatives are counted in hundreds.
pub fn vast(sizes: &[usize]) -> Vec<(String, G)> {
    let mut v: Vec<(String, G)> = Vec::new();
    for &n in sizes {
        let e = || vec![vec![1 as Sy]];
        let run = |a: Sy, n: usize, end: &[Sy]| {
            let mut p = vec![a; n];
            p.extend(end);
            p
        };
        v.push((format!("v-prefix{n}"), G { rules: vec![e(), vec![run(t(0), n, &[t(1)]), run(t(0), n, &[t(2)]), vec![t(1)]]] }));
        v.push((format!("v-two{n}"), G { rules: vec![e(), vec![run(t(0), n, &[]), run(t(1), n, &[t(2)]), vec![t(2), 1, t(2)]]] }));
        v.push((format!("v-nest{n}"), G { rules: vec![e(), vec![run(t(0), n, &[1, t(1)]), vec![t(2), 2], vec![t(2)]], vec![vec![t(3)], vec![1, t(4)]]] }));
        v.push((format!("v-list{n}"), G { rules: vec![e(), vec![run(2, n, &[]), run(2, n, &[t(1)])], vec![vec![t(0)]]] }));
        v.push((format!("v-clash{n}"), G { rules: vec![e(), vec![run(t(0), n, &[]), vec![2], vec![t(1), 1]], vec![run(t(0), n, &[]), run(t(0), n, &[t(1)])]] }));
        // every binary numeral below n, most significant digit first: a trie
        let bits = (usize::BITS - (n - 1).leading_zeros()) as usize;
        let word = |k: usize| (0..bits).rev().map(|b| t(k >> b & 1)).collect::<Vec<Sy>>();
        v.push((format!("v-words{n}"), G { rules: vec![e(), (0..n).map(word).collect()] }));
        // the same as prefixes of a shared end
        v.push((format!("v-heads{n}"), G { rules: vec![e(), (0..n).map(|k| { let mut p = word(k); p.push(2); p }).collect(), vec![vec![t(2)], vec![t(3), t(2)]]] }));
    }
    v
}

pub fn distant(n: usize) -> Vec<(String, G)> {
    let mut v: Vec<(String, G)> = Vec::new();
    let e = || vec![vec![1 as Sy]];
    for i in 1..=n {
        let nt = |j: usize| j as Sy;
        // N1 -> N2, ..., Ni -> a: pure unit chain; then with a tail, a head, both, at every level
        let chain = |f: &dyn Fn(usize) -> Vec<Vec<Sy>>, last: Vec<Vec<Sy>>| {
            let mut rules = vec![e()];
            for j in 1..=i {
                rules.push(if j == i { last.clone() } else { f(j) });
            }
            G { rules }
        };
        v.push((format!("d-unit{i}"), chain(&|j| vec![vec![nt(j + 1)]], vec![vec![t(0)]])));
        v.push((format!("d-unitalt{i}"), chain(&|j| vec![vec![nt(j + 1)], vec![t(1), nt(j + 1)]], vec![vec![t(0)]])));
        v.push((format!("d-tail{i}"), chain(&|j| vec![vec![nt(j + 1), t(1)]], vec![vec![t(0)]])));
        v.push((format!("d-head{i}"), chain(&|j| vec![vec![t(1), nt(j + 1)]], vec![vec![t(0)]])));
        v.push((format!("d-both{i}"), chain(&|j| vec![vec![t(1), nt(j + 1), t(2)], vec![t(3)]], vec![vec![t(0)]])));
        // the same, closed into a loop
        let back = |j: usize| nt(if j == i { 1 } else { j + 1 });
        for (k, left) in [true, false].into_iter().enumerate() {
            let mut rules = vec![e()];
            for j in 1..=i {
                let mut p = vec![back(j), t(1)];
                if !left {
                    p.reverse();
                }
                rules.push(vec![p, vec![t(0)]]);
            }
            v.push((format!("d-loop{k}-{i}"), G { rules }));
        }
        // two contexts with different ends of a shared chain: the look-aheads of both ends travel
        // down it; heads and no heads
        for k in 0..3 {
            let mut rules = vec![e(), vec![vec![t(0), 2, t(1)], vec![t(2), 2, t(3)], vec![t(4), 2]]];
            for j in 0..i {
                rules.push(match k {
                    0 => vec![vec![nt(j + 3)]],
                    1 => vec![vec![t(5), nt(j + 3)]],
                    _ => vec![vec![t(5), nt(j + 3)], vec![t(7)]],
                });
            }
            rules.push(vec![vec![t(6)]]);
            v.push((format!("d-carry{k}-{i}"), G { rules }));
        }
        // a left-recursive list whose element is found at the end of a chain
        let mut rules = vec![e(), vec![vec![1, t(1), 2], vec![2]]];
        for j in 0..i {
            rules.push(if j + 1 == i { vec![vec![t(0)], vec![t(2), 1, t(3)]] } else { vec![vec![nt(j + 3)]] });
        }
        v.push((format!("d-list{i}"), G { rules }));
        // FIRST and FOLLOW through sequences: A B where B begins with a chain, and A ends with one
        let mut rules = vec![e(), vec![vec![2, nt(2 + i)]]];
        for j in 0..i {
            rules.push(if j + 1 == i { vec![vec![t(0)]] } else { vec![vec![t(1), nt(j + 3)], vec![t(2)]] });
        }
        for j in 0..i {
            rules.push(if j + 1 == i { vec![vec![t(0)]] } else { vec![vec![nt(2 + i + j + 1), t(1)], vec![t(3)]] });
        }
        if 2 + 2 * i < 58 {
            v.push((format!("d-seq{i}"), G { rules }));
        }
    }
    v
}

/// Wide cells and many equal rows: `i` ways to reduce the same text, alone and against shifts, and
/// `i` alternatives with equal tails.
pub fn wide(n: usize) -> Vec<(String, G)> {
    let mut v: Vec<(String, G)> = Vec::new();
    for i in 1..=n {
        let nt = |j: usize| j as Sy;
        let alts: Vec<Vec<Sy>> = (0..i).map(|j| vec![nt(j + 2)]).collect();
        let unit = |last: &[Sy]| {
            let mut rules = vec![vec![vec![1 as Sy]], alts.clone()];
            rules.extend((0..i).map(|_| vec![last.to_vec()]));
            rules
        };
        v.push((format!("w-conf{i}"), G { rules: unit(&[t(0)]) }));
        v.push((format!("w-conf2-{i}"), G { rules: unit(&[t(0), t(0)]) }));
        // against a shift
        let mut r = unit(&[t(0)]);
        r[1].push(vec![t(0), t(1)]);
        r[1].push(vec![1, t(1)]);
        v.push((format!("w-confsh{i}"), G { rules: r }));
        // told apart by what follows, but some pair is not
        for same in 0..2 {
            let mut r = unit(&[t(0)]);
            for (j, p) in r[1].iter_mut().enumerate() {
                p.push(t(1 + if same == 1 && j + 1 == i { 0 } else { j }));
            }
            if i > 1 || same == 0 {
                v.push((format!("w-look{same}-{i}"), G { rules: r }));
            }
        }
        // told apart by what came before
        let mut r = unit(&[t(0)]);
        for (j, p) in r[1].iter_mut().enumerate() {
            p.insert(0, t(1 + j));
            p.push(t(1));
        }
        v.push((format!("w-head{i}"), G { rules: r }));
        // equal tails: many equal rows; conflicts in them
        for k in 1..=3 {
            let mut p: Vec<Vec<Sy>> = (0..i)
                .map(|j| {
                    let mut p = vec![t(1 + j)];
                    p.extend(std::iter::repeat_n(t(0), k));
                    p
                })
                .collect();
            v.push((format!("w-tails{k}-{i}"), G { rules: vec![vec![vec![1]], p.clone()] }));
            for x in &mut p {
                *x.last_mut().unwrap() = 2;
            }
            v.push((format!("w-ntails{k}-{i}"), G { rules: vec![vec![vec![1]], p.clone(), vec![vec![t(0)], vec![t(0), 2]]] }));
            v.push((format!("w-ctails{k}-{i}"), G { rules: vec![vec![vec![1]], p, vec![vec![t(0)], vec![3], vec![2, 2]], vec![vec![t(0)]]] }));
        }
        // i ambiguous binary operators
        let mut p: Vec<Vec<Sy>> = (0..i).map(|j| vec![1, t(1 + j), 1]).collect();
        p.push(vec![t(0)]);
        v.push((format!("w-amb{i}"), G { rules: vec![vec![vec![1]], p] }));
        // i nonterminals over a common prefix of length i
        let rules = {
            let mut r = vec![vec![vec![1 as Sy]], alts.clone()];
            for j in 0..i {
                let mut p = vec![t(0); i];
                p.push(t(1 + j));
                r.push(vec![p]);
            }
            r
        };
        v.push((format!("w-prefix{i}"), G { rules }));
    }
    v
}

/// Contexts for one nonterminal `B` (number 2) whose alternatives are left open: (rules without `B`'s,
/// terminals the context uses).
const SLOTS: &[(&str, usize)] = &[
    ("S -> X ; X -> A B ; B -> a ; A -> a", 1),
    ("S -> X ; X -> B B ; B -> a", 0),
    ("S -> X ; X -> A B | B ; B -> a ; A -> a | A a", 1),
    ("S -> X ; X -> X B | B ; B -> a", 0),
    ("S -> X ; X -> B X | A ; B -> a ; A -> a", 1),
    ("S -> X ; X -> a B b | b B a | B ; B -> a", 2),
    ("S -> X ; X -> A a | B b ; B -> a ; A -> B", 2),
    ("S -> X B ; X -> a X | a ; B -> a", 1),
];

/// One nonterminal with every set of at most `n` alternatives of at most two symbols out of four
/// terminals and itself, in each of the contexts; modulo renaming of the terminals that the context
/// does not use.
fn slots(n: usize) -> Vec<G> {
    let mut syms: Vec<Sy> = (0..4).map(t).collect();
    syms.push(2);
    let mut strings: Vec<Vec<Sy>> = syms.iter().map(|s| vec![*s]).collect();
    for a in &syms {
        strings.extend(syms.iter().map(|b| vec![*a, *b]));
    }
    let mut sets: Vec<Vec<usize>> = (0..strings.len()).map(|i| vec![i]).collect();
    let mut level = sets.clone();
    for _ in 1..n {
        level = level.iter().flat_map(|s| (s[s.len() - 1] + 1..strings.len()).map(|i| s.iter().copied().chain([i]).collect())).collect();
        sets.extend(level.iter().cloned());
    }
    let mut out = Vec::new();
    for (text, used) in SLOTS {
        let base = G::parse(text).0;
        let mut seen: HashSet<Vec<Vec<Sy>>> = HashSet::new();
        for s in &sets {
            let alts: Vec<Vec<Sy>> = s.iter().map(|i| strings[*i].clone()).collect();
            // first occurrence decides the names of the free terminals
            let mut least: Option<Vec<Vec<Sy>>> = None;
            for p in perms(4 - used) {
                let mut v: Vec<Vec<Sy>> = alts
                    .iter()
                    .map(|a| a.iter().map(|x| if *x >= t(*used) { t(used + p[(*x - t(*used)) as usize]) } else { *x }).collect())
                    .collect();
                v.sort();
                if least.as_ref().is_none_or(|l| v < *l) {
                    least = Some(v);
                }
            }
            let least = least.unwrap();
            if seen.insert(least.clone()) {
                let mut g = base.clone();
                g.rules[2] = least;
                out.push(g);
            }
        }
    }
    out
}

fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    perms(n - 1)
        .into_iter()
        .flat_map(|p| {
            (0..n).map(move |i| {
                let mut q = p.clone();
                q.insert(i, n - 1);
                q
            })
        })
        .collect()
}

#[derive(Clone, Debug)]
pub enum Fam {
    Space(Space),
    Textbook,
    /// all grammars within exactly `.0` edits of a textbook grammar with at most `.1` symbols
    Edits(usize, usize),
    Param(usize),
    Distant(usize),
    Wide(usize),
    /// one open nonterminal with up to `.0` alternatives
    Slots(usize),
    /// sizes past every power of two up to 256
    Vast(&'static [usize]),
    File(Vec<G>),
}

impl Fam {
    pub fn describe(&self) -> String {
        match self {
            Fam::Space(s) => format!(
                "all grammars with <={} nonterminals besides the entry, <={} terminals, <={} productions per nonterminal, <={} symbols per production, <={} symbols in all, entry production of {} symbol(s); modulo renaming and production order",
                s.nts, s.ts, s.alts, s.rhs, s.size, s.entry
            ),
            Fam::Textbook => format!("{} textbook grammars", TEXTBOOK.len()),
            Fam::Edits(1, m) => format!("all 1-edit neighbours of the textbook grammars of at most {m} symbols"),
            Fam::Edits(n, m) => format!("all grammars within {n} edits of the textbook grammars of at most {m} symbols"),
            Fam::Param(n) => format!("16 parametric families, every parameter value 1..={n}"),
            Fam::Distant(n) => format!("12 families in which FIRST, FOLLOW, look-aheads or reductions travel a distance, every distance 1..={n}"),
            Fam::Wide(n) => format!("16 families of wide conflicts, shared prefixes and equal rows, every width 1..={n}"),
            Fam::Slots(n) => format!("{} contexts around one nonterminal with every set of at most {n} alternatives of at most two symbols out of four terminals and itself, modulo renaming", SLOTS.len()),
            Fam::Vast(v) => format!("7 families of long productions, many states and many alternatives, of every size in {v:?}"),
            Fam::File(v) => format!("{} given grammars", v.len()),
        }
    }

    pub fn for_each(&self, f: &mut dyn FnMut(usize, &G)) {
        match self {
            Fam::Space(s) => {
                let mut i = 0;
                enumerate(*s, |g| {
                    f(i, &g);
                    i += 1;
                });
            }
            Fam::Textbook => {
                for (i, (_, g)) in textbook().iter().enumerate() {
                    f(i, g);
                }
            }
            Fam::Edits(n, m) => {
                let mut i = 0;
                for (_, g) in textbook() {
                    if g.size() > *m {
                        continue;
                    }
                    let mut seen: HashSet<G> = HashSet::new();
                    seen.insert(g.clone());
                    let mut frontier = vec![g];
                    for d in 0..*n {
                        let mut nf = Vec::new();
                        for h in &frontier {
                            for e in edits(h) {
                                if e.well_formed() && e.augmented() && seen.insert(e.clone()) {
                                    f(i, &e);
                                    i += 1;
                                    if d + 1 < *n {
                                        nf.push(e);
                                    }
                                }
                            }
                        }
                        frontier = nf;
                    }
                }
            }
            Fam::Param(n) => {
                for (i, (_, g)) in parametric(*n).iter().enumerate() {
                    f(i, g);
                }
            }
            Fam::Distant(n) => {
                for (i, (_, g)) in distant(*n).iter().enumerate() {
                    f(i, g);
                }
            }
            Fam::Wide(n) => {
                for (i, (_, g)) in wide(*n).iter().enumerate() {
                    f(i, g);
                }
            }
            Fam::Slots(n) => {
                for (i, g) in slots(*n).iter().enumerate() {
                    f(i, g);
                }
            }
            Fam::Vast(v) => {
                for (i, (_, g)) in vast(v).iter().enumerate() {
                    f(i, g);
                }
            }
            Fam::File(v) => {
                for (i, g) in v.iter().enumerate() {
                    f(i, g);
                }
            }
        }
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    use crate::gram::is_t;
    #[test]
    fn all_well_formed() {
        for (n, g) in textbook().into_iter().chain(parametric(12)).chain(distant(56)).chain(wide(12)).chain(vast(&[9, 257])).chain(slots(3).into_iter().map(|g| (String::new(), g))) {
            assert!(g.well_formed() && g.augmented(), "{n}");
            assert!(g.rules.iter().flatten().flatten().all(|s| if is_t(*s) { *s < T0 + 59 } else { *s < 60 }), "{n}");
        }
    }
}
