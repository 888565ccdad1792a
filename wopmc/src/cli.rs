//! C21: the command line tool, run in scratch directories on whole files, damaged files and bad
//! invocations.

use crate::build::{damaged, expected, model};
use crate::ex::{each, Bad, Ctx, Stats};
use crate::gen;
use crate::shapes::{self, bodies, write, Deco};
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::process::{exit, Command, Stdio};

const OLD: &str = "// what was there before\n";

/// Files the tool must translate. Symbols are the variants of `Sym`.
fn sources(thorough: bool) -> Vec<String> {
    let lits = |n: usize| (0..n).map(|k| format!("alias \"s{k}\" S{k};\n")).collect::<String>();
    let code = |tag: &str, names: &[String]| {
        let v: Vec<String> = names.iter().map(|n| format!("(\"{n}\", ob({n}))")).collect();
        format!("-> {{ rec(\"{tag}\", &[{}], toks) }}%", v.join(", "))
    };
    let mut out = Vec::new();
    let mut bs: Vec<_> = (1..=2).flat_map(|n| bodies(n, 2, Deco::OneAlias)).collect();
    bs.extend(bodies(3, 2, Deco::Opt));
    if thorough {
        bs.extend(bodies(3, 2, Deco::OneAlias));
    }
    for (i, b) in bs.iter().enumerate() {
        // literals without an alias are no symbols here: paths only, or the two first kinds
        let (t, n) = write(b, shapes::PATHS, i % 2 == 1);
        let head = ["use crate::Sym::*;\nuse crate::prelude::*;\n", "// all of them\nuse crate :: Sym :: * ; /* and ** this */ use crate::prelude::* ;"][i % 2];
        out.push(format!("{head}\n{}EntryPoint: Ast = N0 {};\nN0: Ast = {t} {};\n", lits(3), code("EntryPoint/0", &[]), code("N0/0", &n)));
    }
    for nr in 1..=3usize {
        for lit in 0..2usize {
            for style in 0..3usize {
                let tok = |k: usize| if lit == 1 { format!("\"s{k}\"") } else { format!("S{k}") };
                let p = if style == 2 { "Sym::" } else { "" };
                let mut rules = vec![format!("{p}EntryPoint: Ast = {p}N0 {}", code("EntryPoint/0", &[]))];
                for r in 0..nr {
                    let mut t = format!("{p}N{r}: Ast = {} {}? {}", tok(0), tok(1), code(&format!("N{r}/0"), &[]));
                    if r + 1 < nr {
                        let _ = write!(t, " | {p}N{} ({} | S5):&x {}", r + 1, tok(2), code(&format!("N{r}/1"), &["x".into()]));
                    }
                    rules.push(t);
                }
                if style == 1 {
                    rules.reverse();
                }
                out.push(format!(
                    "use crate::Sym::*;\nuse crate::Sym;\nuse crate::prelude::*;\n{}{}",
                    lits(3),
                    rules.iter().map(|r| format!("{r};\n")).collect::<String>()
                ));
            }
        }
    }
    // deep and long bodies
    for n in (4..=16).chain([31, 32, 33, 63, 64, 65]).chain(if thorough { vec![127, 128, 129, 255, 256, 257] } else { vec![] }) {
        let flat = |f: &dyn Fn(usize) -> String, sep: &str| (0..n).map(f).collect::<Vec<_>>().join(sep);
        for (k, body) in [
            format!("{}S0{}", "(".repeat(n), ")".repeat(n)),
            format!("{}S1{})", "(S0 ".repeat(n), ")?".repeat(n - 1)),
            format!("{}S1{}", "(S0 | ".repeat(n), ")".repeat(n)),
            flat(&|i| format!("S{}", i % 4), " "),
            flat(&|i| format!("S{}:a{i}", i % 4), " "),
        ]
        .into_iter()
        .enumerate()
        {
            let mut names: Vec<String> = if k == 4 { (0..n).map(|i| format!("a{i}")).collect() } else { vec![] };
            names.sort();
            out.push(format!("use crate::Sym::*;\nuse crate::prelude::*;\nEntryPoint: Ast = N0 {};\nN0: Ast = {body} {};\n", code("EntryPoint/0", &[]), code("N0/0", &names)));
        }
        let alts = flat(&|i| format!("S{} {}", i % 4, code(&format!("N0/{i}"), &[])), " | ");
        out.push(format!("use crate::Sym::*;\nuse crate::prelude::*;\nEntryPoint: Ast = N0 {};\nN0: Ast = {alts};\n", code("EntryPoint/0", &[])));
    }
    // long tokens of characters of every width, beginning at every offset
    for ch in ["x", "\u{e9}", "\u{4e2d}", "\u{1f642}"] {
        for off in 0..ch.len() {
            for kind in 0..6 {
                let long = format!("{}{}", "y".repeat(off), ch.repeat(if thorough { 9000 } else { 3000 } / ch.len()));
                // no letters
                let word = format!("w{}", long.replace(['\u{1f642}'], "\u{e9}"));
                let fill = |k: usize, yes: &str, no: &str| if kind == k { yes.to_string() } else { no.to_string() };
                out.push(format!(
                    "use crate::Sym::*;\nuse crate::prelude::*;\n// {}\n/* {} */alias {} S0;\nEntryPoint: Ast = N0 {};\nN0: Ast = {} S1 {};\n",
                    fill(0, &long, ""),
                    fill(1, &long, ""),
                    match kind {
                        2 => format!("\"{long}\""),
                        3 => word.clone(),
                        _ => "\"s\"".into(),
                    },
                    code("EntryPoint/0", &[]),
                    match kind {
                        2 => format!("\"{long}\""),
                        3 => word.clone(),
                        _ => "\"s\"".into(),
                    },
                    match kind {
                        4 => format!("-> {{ /* {long} */ rec(\"N0/0\", &[], toks) }}%"),
                        5 => format!("-> {{ rec(\"N0/0\", &[], toks) /* {long} */ }}%"),
                        _ => code("N0/0", &[]),
                    },
                ));
            }
        }
    }
    out
}

/// Runs the tool on `src` in its own directory; gives its exit code and what `out.rs` is afterwards.
fn tool(bin: &Path, d: &Path, args: &[&str], src: Option<&[u8]>, before: Option<&str>) -> (Option<i32>, Option<String>) {
    let _ = std::fs::remove_dir_all(d);
    std::fs::create_dir_all(d).unwrap();
    if let Some(s) = src {
        std::fs::write(d.join("in.grammar"), s).unwrap();
    }
    if let Some(b) = before {
        std::fs::write(d.join("out.rs"), b).unwrap();
    }
    let st = Command::new("timeout")
        .arg("60")
        .arg(bin)
        .args(args)
        .current_dir(d)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status()
        .unwrap_or_else(|e| {
            eprintln!("cannot start the tool: {e}");
            exit(2)
        });
    (st.code(), std::fs::read(d.join("out.rs")).ok().map(|b| String::from_utf8_lossy(&b).to_string()))
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn judge(bin: &Path, d: &Path, src: &str, st: &mut Stats) -> Result<Option<String>, String> {
    let ok = model(src);
    let mut text = None;
    for before in [None, Some(OLD)] {
        let (code, out) = tool(bin, d, &["in.grammar"], Some(src.as_bytes()), before);
        st.runs += 1;
        st.transitions += 1;
        let kept = out.as_deref() == before;
        match (&ok, code) {
            (_, Some(124) | None) => return Err(format!("the tool does not end by itself ({code:?})")),
            (Ok(_), Some(0)) => {
                if kept || out.is_none() {
                    return Err("exit code 0, but out.rs was not written".into());
                }
                st.out("translated");
                text = out;
            }
            (Ok(_), Some(c)) => return Err(format!("a valid grammar file: exit code {c}")),
            (Err(w), Some(0)) => return Err(format!("exit code 0 although the file must be refused: {w}")),
            (Err(_), Some(c)) => {
                if !kept {
                    return Err(format!("exit code {c}, but out.rs was {}", if before.is_some() { "overwritten" } else { "created" }));
                }
                st.out("refused, out.rs untouched");
            }
        }
    }
    st.states += 1;
    st.decided += 1;
    Ok(text)
}

fn syms() -> String {
    let mut v: Vec<String> = vec!["EntryPoint".into(), "Eof".into()];
    for k in 0..shapes::LEAVES {
        v.push(format!("S{k}"));
        v.push(format!("N{k}"));
    }
    format!(
        "#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]\npub enum Sym {{ {} }}\nimpl std::fmt::Display for Sym {{\n    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {{ write!(f, \"{{self:?}}\") }}\n}}\npub use lrp::Meta;\npub use prelude::{{Ast, Gramem}};\n",
        v.join(", ")
    )
}

/// Compiles what the tool wrote for every source and compares what it does.
fn compile(c: &Ctx, srcs: &[String], outs: &[String], st: &mut Stats) -> Option<Bad> {
    let t0 = std::time::Instant::now();
    let (d, target) = gen::fresh(c, "gencli");
    let bins = 4;
    std::fs::write(d.join("Cargo.toml"), gen::manifest("gencli", "lrp = { path = \"/repo\" }", bins)).unwrap();
    for b in 0..bins {
        let mut s = gen::prelude("pub use crate::Sym as Sy;") + &syms();
        let mut main = String::from("fn main() {\n    std::panic::set_hook(Box::new(|_| {}));\n");
        for k in (0..srcs.len()).filter(|k| k % bins == b) {
            std::fs::write(d.join(format!("src/out{k}.rs")), &outs[k]).unwrap();
            let _ = writeln!(s, "pub mod out{k};");
            let _ = writeln!(
                main,
                "    let g = out{k}::grammar();\n    println!(\"{k}\\tentry\\t{{}}\\t{{:?}}\", g.basis.rule, g.basis.look);\n    prelude::run({k}, g.rules.clone(), out{k}::reduct_map());"
            );
        }
        std::fs::write(d.join(format!("src/b{b}.rs")), format!("{s}{main}}}\n")).unwrap();
    }
    if let Err(log) = gen::cargo(&d, &target) {
        let worst = gen::errors(&log)
            .into_iter()
            .filter_map(|(m, f, _)| Some((f.strip_prefix("src/out")?.strip_suffix(".rs")?.parse::<usize>().ok()?, m)))
            .min();
        if let Some((k, m)) = worst {
            return Some(Bad { case: srcs[k].clone(), msg: format!("the out.rs written does not compile: {m}") });
        }
        // an error in a program that uses the files: one of them lacks what it should define
        if let Some(m) = gen::unattributed(&log) {
            let k = (0..srcs.len()).rev().find(|k| log.contains(&format!("out{k}::")) || log.contains(&format!("`out{k}`"))).unwrap_or(0);
            return Some(Bad { case: srcs[k].clone(), msg: format!("the out.rs written cannot be used: {m}") });
        }
        eprintln!("the generated programs cannot be built:\n{}", &log[log.len().saturating_sub(2000)..]);
        exit(2);
    }
    let mut have: Vec<Vec<String>> = vec![Vec::new(); srcs.len()];
    for b in 0..bins {
        let o = match gen::output(&target.join(format!("debug/gencli-b{b}")), &[]) {
            Ok(o) => o,
            Err(part) => {
                let k = gen::last_case(&part).unwrap_or(0).min(srcs.len() - 1);
                return Some(Bad { case: srcs[k].clone(), msg: "the program that uses the out.rs, which ran up to this one, does not end well".into() });
            }
        };
        for l in o.lines() {
            let Some((k, rest)) = l.split_once('\t') else { continue };
            let Ok(k) = k.parse::<usize>() else { continue };
            have[k].push(rest.to_string());
        }
    }
    for (s, mut h) in srcs.iter().zip(have) {
        let mut want = expected(&model(s).unwrap());
        want.push("entry\tEntryPoint\t{Eof}".to_string());
        want.sort();
        h.sort();
        st.runs += h.len() as u64;
        st.states += want.len() as u64;
        st.out("out.rs compiled and run");
        if h != want {
            let miss: Vec<_> = want.iter().filter(|x| !h.contains(x)).collect();
            let more: Vec<_> = h.iter().filter(|x| !want.contains(x)).collect();
            return Some(Bad { case: s.clone(), msg: format!("the out.rs written: expected but not seen: {miss:?}; seen but not expected: {more:?}") });
        }
    }
    st.notes.push(format!("the out.rs of {} files compiled and run [{:.1}s]", srcs.len(), t0.elapsed().as_secs_f64()));
    None
}

pub fn run(c: &Ctx, only: Option<&str>, st: &mut Stats) -> Option<Bad> {
    let bin = std::env::current_exe().unwrap().with_file_name("wopcli");
    let scratch = Scratch(Path::new(&c.dir).join(format!("work/cli{}", std::process::id())));
    let dir = |i: usize| scratch.0.join(i.to_string());
    if let Some(src) = only {
        return match judge(&bin, &dir(0), src, st) {
            Err(msg) => Some(Bad { case: src.to_string(), msg }),
            Ok(Some(out)) => compile(c, &[src.to_string()], &[out], st),
            Ok(None) => None,
        };
    }
    let srcs = sources(c.thorough());
    if let Some(s) = srcs.iter().find(|s| model(s).is_err()) {
        eprintln!("no grammar file: {s}");
        exit(2);
    }
    let outs: Vec<std::sync::Mutex<Option<String>>> = srcs.iter().map(|_| std::sync::Mutex::new(None)).collect();
    let b = each(
        c,
        "whole files",
        srcs.len(),
        &|i| srcs[i].clone(),
        &|i, st| {
            let o = judge(&bin, &dir(i), &srcs[i], st)?;
            *outs[i].lock().unwrap() = o;
            Ok(())
        },
        st,
    );
    if b.is_some() {
        return b;
    }
    let outs: Vec<String> = outs.into_iter().map(|m| m.into_inner().unwrap().unwrap_or_default()).collect();
    let b = compile(c, &srcs, &outs, st);
    if b.is_some() {
        return b;
    }
    let step = if c.thorough() { 1 } else { 4 };
    let mut bad: Vec<String> = srcs.iter().rev().step_by(step).flat_map(|s| damaged(s)).collect();
    for s in srcs.iter().rev().step_by(step) {
        // twice the same rules; an alternative without a code block
        bad.push(format!("{s}{s}"));
        bad.push(format!("{s}N9: Ast = S0;\n"));
        bad.push(format!("{s}N9: Ast = S0 -> {{ rec(\"N9/0\", &[], toks) }}% | S1;\n"));
        bad.push(format!("{s}N9: Ast = (S0 -> {{ 1 }}%) -> {{ rec(\"N9/0\", &[], toks) }}%;\n"));
    }
    bad.push(String::new());
    bad.push("use a; x".into());
    bad.push("use a; \"".into());
    bad.sort();
    bad.dedup();
    let b = each(c, "damaged files", bad.len(), &|i| bad[i].clone(), &|i, st| judge(&bin, &dir(i), &bad[i], st).map(|_| ()), st);
    if b.is_some() {
        return b;
    }
    // bad invocations
    let good = srcs[0].as_bytes();
    let mut latin = good.to_vec();
    latin.extend(b"// \xe9\n");
    let cases: [(&str, &[&str], Option<&[u8]>); 3] =
        [("no argument", &[], Some(good)), ("a file that does not exist", &["nothing.grammar"], Some(good)), ("a file that is not text", &["in.grammar"], Some(&latin))];
    for (name, args, src) in cases {
        for before in [None, Some(OLD)] {
            let (code, out) = tool(&bin, &dir(0), args, src, before);
            st.runs += 1;
            st.out("bad invocation");
            if code == Some(0) || out.as_deref() != before {
                return Some(Bad { case: String::new(), msg: format!("{name}: exit code {code:?}, out.rs {out:?}") });
            }
        }
    }
    st.samples = vec![srcs[srcs.len() - 1].clone(), bad[bad.len() / 2].clone()];
    None
}
