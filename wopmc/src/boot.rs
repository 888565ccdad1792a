//! C20: the parser of grammar files that is shipped (`out.rs`) against the one the builder makes of
//! the shipped description (`wop.grammar`).

use crate::ast::{corpus, text};
use crate::ex::{sut, Bad, Ctx, Stats};
use crate::gen;
use std::process::exit;
use wop::builder::Builder;

const GRAMMAR: &str = include_str!("/repo/wop/src/wop.grammar");

const MAIN: &str = r##"#![allow(warnings)]
pub use wop::{Ast, Gramem, Sym};
use lrp::{Dfa, Meta, Parser, Slr, Span, Token};
use std::str::FromStr;

mod regen {
    use super::{Gramem, Meta};
    use lrp::Span;
    pub fn rules() -> lrp::RuleMap<super::Sym> {RULES}
    pub fn reds() -> lrp::ReductMap<Meta<super::Ast>, super::Sym> {REDS}
}

type M = Dfa<Meta<Ast>, Sym, std::vec::IntoIter<Gramem>>;

fn shape(r: &lrp::RuleMap<Sym>) -> Vec<(Sym, Vec<Vec<Sym>>)> {
    r.iter()
        .map(|(k, r)| {
            let mut v: Vec<Vec<Sym>> = r.prods.iter().map(|p| p.0.clone()).collect();
            v.sort();
            (*k, v)
        })
        .collect()
}

fn go(m: &M, t: Vec<Gramem>) -> String {
    let mut d = Dfa::new(t.into_iter(), m.table.clone(), m.reductors.clone(), m.eof);
    match d.start() {
        Ok(()) => format!("ok {:?}", d.items),
        Err(lrp::Error::UnexpectedToken(t, e)) => format!("unexpected {t:?} {e:?}"),
        Err(e) => format!("{e:?}"),
    }
}

fn main() {
    let shipped = wop::out::grammar();
    let (a, b) = (shape(&shipped.rules), shape(&regen::rules()));
    for (k, v) in &a {
        match b.iter().find(|x| x.0 == *k) {
            None => println!("BAD\tthe description has no rule {k:?}"),
            Some((_, w)) if v != w => println!("BAD\trule {k:?}: shipped {v:?}, described {w:?}"),
            _ => println!("SAME\t{}", v.len()),
        }
    }
    for (k, _) in &b {
        if !a.iter().any(|x| x.0 == *k) {
            println!("BAD\tthe shipped parser has no rule {k:?}");
        }
    }
    let entry = lrp::Grammar::new(Sym::EntryPoint, regen::rules(), Sym::Eof);
    if entry.basis.rule != shipped.basis.rule || entry.basis.look != shipped.basis.look {
        println!("BAD\tthe entry rules differ");
    }
    let old: M = Slr::new(shipped).dfa(Vec::new().into_iter(), wop::out::reduct_map());
    let new: M = Slr::new(entry).dfa(Vec::new().into_iter(), regen::reds());
    let file = std::env::args().nth(1).unwrap();
    let src = std::fs::read_to_string(&file).unwrap();
    let (mut n, mut ok) = (0, 0);
    for l in src.split('\u{1}') {
        let t: Vec<Gramem> = wop::lexer(l).collect();
        let (x, y) = (go(&old, t.clone()), go(&new, t));
        n += 1;
        ok += usize::from(x.starts_with("ok"));
        if x != y {
            println!("DIFF\t{}\t{}\t{}", l.replace('\n', " ").replace('\t', " "), &x[..x.len().min(300)], &y[..y.len().min(300)]);
            break;
        }
    }
    println!("RAN\t{n}\t{ok}");
}
"##;

pub fn run(c: &Ctx, st: &mut Stats) -> Option<Bad> {
    let bad = |msg: String| Some(Bad { case: "wop.grammar".into(), msg });
    let made = sut("the builder", || {
        let mut b: Builder = GRAMMAR.parse().map_err(|e| format!("{e:?}"))?;
        b.entry_type = "Gramem".to_string();
        Ok::<_, String>((b.dump_grammar(GRAMMAR), b.dump_reductor(GRAMMAR)))
    });
    let (g, r) = match made {
        Ok(Ok(x)) => x,
        Ok(Err(e)) | Err(e) => return bad(format!("the shipped parser does not get through its own description: {e}")),
    };
    let (d, target) = gen::fresh(c, "genboot");
    let m = gen::manifest("genboot", "wop = { path = \"/repo/wop\" }\nlrp = \"0.1.0\"", 1).replace("incremental = false", "incremental = false\nopt-level = 1");
    std::fs::write(d.join("Cargo.toml"), m).unwrap();
    std::fs::write(d.join("src/b0.rs"), MAIN.replace("{RULES}", &g).replace("{REDS}", &r)).unwrap();
    if let Err(log) = gen::cargo(&d, &target) {
        if let Some((m, _, l)) = gen::errors(&log).into_iter().find(|e| e.1 == "src/b0.rs") {
            return bad(format!("the parser made of the description does not compile: {m} (line {l} of work/genboot/src/b0.rs)"));
        }
        eprintln!("cannot build the generated parser:\n{}", &log[log.len().saturating_sub(2000)..]);
        exit(2);
    }
    let mut texts: Vec<String> = corpus(c.thorough()).iter().map(|k| text(k)).collect();
    texts.push(GRAMMAR.to_string());
    for s in crate::build::program_texts() {
        texts.push(s);
    }
    let f = d.join("corpus");
    std::fs::write(&f, texts.join("\u{1}")).unwrap();
    let Ok(out) = gen::output(&target.join("debug/genboot-b0"), &[f.to_str().unwrap()]) else {
        return bad("the parser made of the description, or the shipped one, panics or does not return".into());
    };
    let (mut same, mut ran, mut ok) = (0u64, 0u64, 0u64);
    for l in out.lines() {
        let p: Vec<&str> = l.split('\t').collect();
        match p[0] {
            "BAD" => return bad(p[1].to_string()),
            "DIFF" => return bad(format!("on `{}` the shipped parser gives {} and the described one {}", p[1], p[2], p[3])),
            "SAME" => same += p[1].parse::<u64>().unwrap(),
            _ => {
                ran = p[1].parse().unwrap();
                ok = p[2].parse().unwrap();
            }
        }
    }
    if ran != texts.len() as u64 || ok == 0 || same == 0 {
        eprintln!("the comparison did not run to its end");
        exit(2);
    }
    st.runs = 2 * ran;
    st.states = ran;
    st.transitions = same;
    st.decided = ran;
    st.add("same tree", ok);
    st.add("same error", ran - ok);
    st.notes.push(format!("{same} productions equal; {ran} inputs parsed by both, {ok} of them accepted"));
    st.samples = vec![texts[texts.len() / 2].clone()];
    None
}
