//! C22: grammars, rules, tokens and spans are what was written down.

use crate::ex::{each, sut, Bad, Ctx, Stats};
use crate::fam::Fam;
use crate::gram::{Space, Sy, EOF, G, T0};
use crate::sut::{Enc, Y};
use lrp::{Grammar, Meta, RuleMap, Span, Token};
use crate::gen;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::path::Path;
use std::process::exit;

type R = Result<(), String>;

/// The rules, held in no type of the crate.
type Plain<T> = BTreeMap<T, Vec<Vec<T>>>;

fn same_rules<T: Clone + Ord + std::fmt::Debug>(got: &RuleMap<T>, want: &Plain<T>) -> R {
    if !got.keys().eq(want.keys()) {
        return Err(format!("rules named {:?}, should be {:?}", got.keys().collect::<Vec<_>>(), want.keys().collect::<Vec<_>>()));
    }
    for (n, r) in got {
        if &r.name != n {
            return Err(format!("the rule stored under {n:?} is called {:?}", r.name));
        }
        let w: Vec<(Vec<T>, usize)> = want[n].iter().cloned().enumerate().map(|(i, p)| (p, i)).collect();
        let g: Vec<(Vec<T>, usize)> = r.prods.iter().map(|p| (**p).clone()).collect();
        let it: Vec<(Vec<T>, usize)> = r.prods().map(|p| (*p).clone()).collect();
        if g != w || it != w {
            return Err(format!("rule {n:?} has (production, index) {g:?}, should have {w:?}"));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- grammar_map!

/// Bodies of a rule: for every alternative its length.
fn alts(max: usize, len: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    let mut level: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..max {
        level = level.iter().flat_map(|v| (1..=len).map(move |l| [v.clone(), vec![l]].concat())).collect();
        out.extend(level.clone());
    }
    out
}

type Rules = Vec<(usize, Vec<Vec<usize>>)>;

/// All different symbols, numbered in order of writing.
fn distinct(rules: &[Vec<usize>]) -> Rules {
    let mut n = 0;
    let mut sy = || {
        n += 1;
        n - 1
    };
    rules.iter().map(|r| (sy(), r.iter().map(|l| (0..*l).map(|_| sy()).collect()).collect())).collect()
}

/// Every word of the given lengths over `k` symbols.
fn words(min: usize, max: usize, k: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    let mut level: Vec<Vec<usize>> = vec![vec![]];
    for l in 1..=max {
        level = level.iter().flat_map(|v| (0..k).map(move |s| [v.clone(), vec![s]].concat())).collect();
        if l >= min {
            out.extend(level.clone());
        }
    }
    out
}

fn shapes() -> Vec<Rules> {
    let mut cases: Vec<Rules> = vec![];
    for a in alts(3, 4) {
        cases.push(distinct(&[a]));
    }
    for l in 5..=12 {
        cases.push(distinct(&[vec![l]]));
        cases.push(distinct(&[vec![1; l]]));
        cases.push(distinct(&vec![vec![1]; l]));
    }
    for a in alts(2, 3) {
        for b in alts(2, 3) {
            cases.push(distinct(&[a.clone(), b]));
        }
    }
    for a in alts(2, 2) {
        for b in alts(2, 2) {
            for c in alts(2, 2) {
                cases.push(distinct(&[a.clone(), b.clone(), c]));
            }
        }
    }
    // equal symbols: in one alternative, in several, and the rule's own name
    for w in words(1, 4, 2) {
        cases.push(vec![(0, vec![w])]);
    }
    for a in words(1, 2, 3) {
        for b in words(1, 2, 3) {
            cases.push(vec![(0, vec![a.clone(), b])]);
        }
    }
    // rules in every order of their names
    for p in [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]] {
        cases.push(p.iter().map(|n| (*n, vec![vec![(n + 1) % 3, 3], vec![4]])).collect());
    }
    cases
}

/// The forms of the macro: name, type of the symbols, how symbol `s` is written.
type Form = (&'static str, &'static str, fn(usize) -> String);
const FORMS: [Form; 4] = [
    ("string literals", "&'static str", |s| format!("\"y{s:02}\"")),
    ("identifiers", "u8", |s| format!("y{s:02}")),
    ("character literals", "char", |s| format!("'{}'", (b'A' + s as u8) as char)),
    ("number literals", "u8", |s| format!("{s}u8")),
];

fn write_rules(c: &Rules, f: &dyn Fn(usize) -> String) -> String {
    c.iter()
        .map(|(n, r)| {
            let a: Vec<String> = r.iter().map(|p| p.iter().map(|s| f(*s)).collect::<Vec<_>>().join(" ")).collect();
            format!("{} -> {}", f(*n), a.join(" | "))
        })
        .collect::<Vec<_>>()
        .join(", ")
}

/// What a generated program prints for a map of rules, every symbol as its number.
fn dump(c: &Rules) -> String {
    let m: BTreeMap<usize, &Vec<Vec<usize>>> = c.iter().map(|(n, r)| (*n, r)).collect();
    m.iter().map(|(n, r)| format!("{n}:{n}:{:?}", r.iter().enumerate().map(|(i, p)| (p.clone(), i)).collect::<Vec<_>>())).collect::<Vec<_>>().join(";")
}

const HEAD: &str = r#"#![allow(warnings)]
trait Num { fn num(&self) -> usize; }
impl Num for &'static str { fn num(&self) -> usize { self[1..].parse().unwrap() } }
impl Num for u8 { fn num(&self) -> usize { *self as usize } }
impl Num for char { fn num(&self) -> usize { *self as usize - 'A' as usize } }
fn dump<T: Num + Clone + Ord + std::fmt::Debug>(k: usize, m: lrp::RuleMap<T>) {
    let v: Vec<String> = m.iter().map(|(n, r)| {
        let p: Vec<(Vec<usize>, usize)> = r.prods.iter().map(|p| (p.0.iter().map(|s| s.num()).collect(), p.1)).collect();
        format!("{}:{}:{:?}", n.num(), r.name.num(), p)
    }).collect();
    println!("{}\t{}", k, v.join(";"));
}
"#;

/// Every shape in every form, each in a function of its own; compiled against the crate and run.
/// Gives the first (case, what went wrong).
fn macros(ctx: &Ctx, cases: &[(usize, Rules)]) -> Option<(usize, String)> {
    const BINS: usize = 4;
    let (d, _) = gen::fresh(ctx, "genc22");
    let target = Path::new(&ctx.dir).join("target/genx");
    std::fs::write(d.join("Cargo.toml"), gen::manifest("genc22", "lrp = { path = \"/repo\" }", BINS)).unwrap();
    let mut head = HEAD.to_string();
    for s in 0..60 {
        let _ = writeln!(head, "const y{s:02}: u8 = {s};");
    }
    let mut starts = vec![];
    for (b, form) in FORMS.iter().enumerate() {
        let mut s = head.clone();
        starts.push(s.lines().count());
        let mut main = String::from("fn main() {\n");
        for (k, (_, c)) in cases.iter().enumerate() {
            let _ = writeln!(s, "fn c{k}() -> lrp::RuleMap<{}> {{ lrp::grammar_map! {{ {} }} }}", form.1, write_rules(c, &form.2));
            let _ = writeln!(main, "    dump({k}, c{k}());");
        }
        std::fs::write(d.join(format!("src/b{b}.rs")), s + &main + "}\n").unwrap();
    }
    if let Err(log) = gen::cargo(&d, &target) {
        let mut worst: Option<(usize, String)> = None;
        for (m, f, l) in gen::errors(&log) {
            let Some(b) = f.strip_prefix("src/b").and_then(|x| x.strip_suffix(".rs")).and_then(|x| x.parse::<usize>().ok()) else { continue };
            let k = l.saturating_sub(starts[b] + 1).min(cases.len() - 1);
            if worst.as_ref().is_none_or(|w| k < w.0) {
                worst = Some((k, format!("written with {}, it does not compile: {m}", FORMS[b].0)));
            }
        }
        if worst.is_none() {
            if let Some(m) = log.lines().find(|l| l.starts_with("error") && l.contains("src/b")) {
                worst = Some((0, format!("the programs do not compile: {m}")));
            }
        }
        if worst.is_none() {
            eprintln!("the programs that use grammar_map! cannot be built:\n{}", &log[log.len().saturating_sub(2000)..]);
            exit(2);
        }
        return worst;
    }
    let mut worst: Option<(usize, String)> = None;
    let mut note = |k: usize, m: String| {
        if worst.as_ref().is_none_or(|w| k < w.0) {
            worst = Some((k, m));
        }
    };
    for (b, form) in FORMS.iter().enumerate() {
        let out = match gen::output(&target.join(format!("debug/genc22-b{b}")), &[]) {
            Ok(o) => o,
            Err(part) => {
                note(gen::last_case(&part).map_or(0, |k| k + 1).min(cases.len() - 1), format!("written with {}, building the map panics", form.0));
                part
            }
        };
        let got: BTreeMap<usize, &str> = out.lines().filter_map(|l| l.split_once('\t')).filter_map(|(k, v)| Some((k.parse().ok()?, v))).collect();
        for (k, (_, c)) in cases.iter().enumerate() {
            match got.get(&k) {
                Some(v) if *v == dump(c) => {}
                Some(v) => note(k, format!("written with {}, it gives {v}, should give {} (name:name:[(production, index)])", form.0, dump(c))),
                None => {}
            }
        }
    }
    worst
}

// ---------------------------------------------------------------- Grammar::new

/// What `Grammar::new` makes of `g`, the end marker being `eof`.
fn grammar_case(g: &G, e: &Enc, eof: Y, entry: usize) -> R {
    let mut want: Plain<Y> = BTreeMap::new();
    for (n, r) in g.rules.iter().enumerate() {
        want.insert(e.y(n as Sy), r.iter().map(|p| p.iter().map(|s| e.y(*s)).collect()).collect());
    }
    let start = e.y(entry as Sy);
    let gr = sut("Grammar::new", || {
        let m: RuleMap<Y> = want
            .iter()
            .map(|(n, p)| {
                let rule = if p.len() == 1 { lrp::grammar::Rule::single(*n, p[0].clone()) } else { lrp::grammar::Rule::new(*n, p.clone()) };
                (*n, rule)
            })
            .collect();
        Grammar::new(start, m, eof)
    })?;
    same_rules(&gr.rules, &want)?;
    let listed: BTreeSet<Y> = gr.rules().map(|r| r.name).collect();
    if gr.rules().count() != want.len() || !listed.iter().eq(want.keys()) {
        return Err(format!("rules() lists {listed:?}"));
    }
    let mut terms: BTreeSet<Y> = want.values().flatten().flatten().copied().filter(|s| !want.contains_key(s)).collect();
    terms.insert(eof);
    if gr.terminals != terms {
        return Err(format!("terminals {:?}, should be {terms:?}", gr.terminals));
    }
    let all: BTreeSet<Y> = terms.iter().copied().chain(want.keys().copied()).collect();
    let syms: Vec<Y> = gr.symbols().collect();
    if gr.symbols != all || syms.len() != all.len() || syms.iter().copied().collect::<BTreeSet<_>>() != all {
        return Err(format!("symbols {:?} / {syms:?}, should be {all:?}", gr.symbols));
    }
    for s in &all {
        if gr.is_terminal(s) != terms.contains(s) {
            return Err(format!("is_terminal({s:?}) is {}", gr.is_terminal(s)));
        }
    }
    for b in [gr.basis(), gr.basis.clone()] {
        if b.rule != start || b.seq.0 != want[&start][0] || b.seq.1 != 0 || b.point != 0 || b.look != BTreeSet::from([eof]) {
            return Err(format!("the first item is {b:?}"));
        }
    }
    Ok(())
}

/// Spans, tokens and their conversions on a sequence of `n` things.
fn values_case(n: usize) -> R {
    let src: Vec<usize> = (0..n).map(|i| 10 * i + 3).collect();
    let text: String = (0..n).map(|i| (b'a' + i as u8) as char).collect();
    sut("tokens and spans", || {
        let toks: Vec<Token<(), usize>> = lrp::to_tokens(src.clone()).collect();
        if toks.iter().map(|t| t.ty).collect::<Vec<_>>() != src {
            return Err(format!("to_tokens({src:?}) is {toks:?}"));
        }
        for x in &src {
            if Token::empty(*x) != (Token { item: (), ty: *x }) || Token::new('v', *x) != (Token { item: 'v', ty: *x }) {
                return Err(format!("tokens of {x} are wrong"));
            }
        }
        for s in 0..=n {
            for t in s..=n {
                let sp = Span::new(s, t);
                if (sp.start, sp.end) != (s, t) || Span::from((s, t)) != sp || Span::from(s..t) != sp {
                    return Err(format!("the span of {s}, {t} is {sp:?}"));
                }
                let m = Meta::new(s, sp);
                if m.item != s || m.span != sp {
                    return Err(format!("the mark of {s}, {t} is {m:?}"));
                }
                let (a, b, c) = (sp.from_source(&src[..]), sp.from_source(&src), sp.from_source(&text[..]));
                let want: Vec<usize> = src.iter().copied().skip(s).take(t - s).collect();
                let wtext: String = text.chars().skip(s).take(t - s).collect();
                if a != want || b != want || c != wtext {
                    return Err(format!("{sp:?} selects {a:?} of {src:?} and {c:?} of {text:?}"));
                }
            }
        }
        Ok(())
    })?
}

fn families(thorough: bool) -> Vec<(Fam, Vec<u8>)> {
    let sp = |nts, ts, alts, rhs, size, entry| Fam::Space(Space { nts, ts, alts, rhs, size, entry });
    let all = vec![0, 1, 2, 3];
    let mut v = vec![
        (Fam::Textbook, all.clone()),
        (Fam::Param(12), all.clone()),
        (sp(3, 2, 4, 3, 5, 1), all.clone()),
        (sp(2, 2, 3, 3, 4, 2), all.clone()),
        (sp(2, 1, 2, 2, 3, 3), all.clone()),
        (Fam::Distant(20), vec![1]),
        (Fam::Wide(8), vec![2]),
        (Fam::Edits(1, 40), vec![3]),
        (sp(3, 3, 4, 4, 6, 1), vec![0]),
    ];
    if thorough {
        v.push((sp(3, 2, 3, 3, 5, 2), all.clone()));
        v.push((sp(2, 2, 3, 3, 4, 3), all));
        v.push((Fam::Edits(1, 60), vec![0, 1]));
        v.push((sp(3, 3, 4, 4, 7, 1), vec![0]));
        v.push((Fam::Edits(2, 8), vec![2]));
    }
    v
}

pub fn run(ctx: &Ctx, only: Option<&str>, st: &mut Stats) -> Option<Bad> {
    let name = |c: &Rules| format!("macro: {}", write_rules(c, &|s| format!("y{s:02}")));
    let picked: Vec<(usize, Rules)> = shapes().into_iter().enumerate().filter(|(_, c)| only.is_none_or(|o| o == name(c))).collect();
    if !picked.is_empty() {
        let t0 = std::time::Instant::now();
        let bad = macros(ctx, &picked);
        let n = picked.len() as u64;
        st.decided += n;
        st.states += n;
        st.runs += n * FORMS.len() as u64;
        st.transitions += picked.iter().flat_map(|c| &c.1).map(|r| r.1.len() as u64).sum::<u64>() * FORMS.len() as u64;
        st.notes.push(format!("shapes of grammar_map!, compiled and run in {} forms: {n} cases [{:.1}s]", FORMS.len(), t0.elapsed().as_secs_f64()));
        if let Some((k, msg)) = bad {
            return Some(Bad { case: name(&picked[k].1), msg });
        }
    }
    if only.is_none_or(|o| o.starts_with("values ")) {
        let b = each(ctx, "sequences of tokens and all spans of them", 24, &|k| format!("values {k}"), &|k, s| {
            s.decided += 1;
            s.states += (k as u64 + 1) * (k as u64 + 2) / 2;
            s.runs += 1;
            s.transitions += 1;
            values_case(k)
        }, st);
        if b.is_some() {
            return b;
        }
    }
    if only.is_some_and(|o| !o.starts_with("grammar ")) {
        return None;
    }
    for (fam, styles) in families(ctx.thorough()) {
        let mut gs: Vec<G> = Vec::new();
        fam.for_each(&mut |_, g| gs.push(g.clone()));
        if let Some(o) = only {
            let g = G::parse(o.trim_start_matches("grammar ")).0;
            gs.retain(|x| *x == g);
            if gs.is_empty() {
                continue;
            }
        }
        let b = each(ctx, &format!("grammars of {}", fam.describe()), gs.len(), &|k| format!("grammar {}", gs[k].text()), &|k, s| {
            let g = &gs[k];
            for style in &styles {
                let e = Enc::style(*style);
                // the end marker: a symbol of its own, or a terminal that occurs in the rules
                let mut eofs = vec![e.y(EOF)];
                if g.k() > 0 {
                    eofs.push(e.y(T0 + g.k() as Sy - 1));
                }
                for eof in eofs {
                    // every rule with one production can be the entry
                    for n in (0..g.rules.len()).filter(|n| g.rules[*n].len() == 1) {
                        s.states += 1;
                        s.runs += 1;
                        s.transitions += g.prods().len() as u64;
                        grammar_case(g, &e, eof, n)?;
                    }
                }
            }
            s.decided += 1;
            Ok(())
        }, st);
        if b.is_some() {
            return b;
        }
    }
    None
}

