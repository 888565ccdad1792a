//! Compiles what the builder generated and runs it: the generated code itself is observed, not its
//! text.

use crate::ex::Ctx;
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::process::{exit, Command, Stdio};

pub struct Case {
    pub grammar: String,
    pub reductor: String,
}

/// The code every generated program starts with; `sy` says what a symbol is.
pub fn prelude(sy: &str) -> String {
    PRELUDE.replace("{SY}", sy)
}

const PRELUDE: &str = r#"#![allow(warnings)]
pub mod prelude {
    {SY}
    #[derive(Clone, Debug)]
    pub struct Ast(pub String);
    pub type Gramem = lrp::Token<lrp::Meta<Ast>, Sy>;
    pub type Rules = lrp::RuleMap<Sy>;
    pub type Reds = lrp::ReductMap<lrp::Meta<Ast>, Sy>;
    pub fn idx(t: &Gramem) -> String {
        format!("{}", t.item.span.start / 10)
    }
    pub trait Obs {
        const KIND: &'static str;
        fn show(self) -> String;
    }
    impl<'a> Obs for &'a Gramem {
        const KIND: &'static str = "ref";
        fn show(self) -> String { format!("ref {}", idx(self)) }
    }
    impl Obs for Gramem {
        const KIND: &'static str = "own";
        fn show(self) -> String { format!("own {}", idx(&self)) }
    }
    fn list(v: &[Gramem]) -> String {
        v.iter().map(idx).collect::<Vec<_>>().join(",")
    }
    impl<'a> Obs for &'a [Gramem] {
        const KIND: &'static str = "slice";
        fn show(self) -> String { format!("slice {}", list(self)) }
    }
    impl Obs for Vec<Gramem> {
        const KIND: &'static str = "vec";
        fn show(self) -> String { format!("vec {}", list(&self)) }
    }
    impl<T: Obs> Obs for Option<T> {
        const KIND: &'static str = "option";
        fn show(self) -> String {
            match self {
                Some(x) => format!("some({})", x.show()),
                None => format!("none({})", T::KIND),
            }
        }
    }
    #[inline(never)]
    pub fn ob<T: Obs>(x: T) -> String {
        x.show()
    }
    #[inline(never)]
    pub fn rec(tag: &str, v: &[(&str, String)], toks: &[Gramem]) -> Ast {
        let l: Vec<String> = v.iter().map(|(n, x)| format!("{n}={x}")).collect();
        Ast(format!("{tag} [{}] {}", l.join("; "), toks.len()))
    }
    pub fn run(k: usize, rules: Rules, reds: Reds) {
        for (name, r) in &rules {
            let fs = reds.get(name).cloned().unwrap_or_default();
            println!("{k}\trule\t{name}\t{}\t{}\t{}", r.prods.len(), fs.len(), r.name);
            for (i, p) in r.prods.iter().enumerate() {
                let toks: Vec<Gramem> = p.0.iter().enumerate()
                    .map(|(j, s)| lrp::Token::new(lrp::Meta::new(Ast(format!("t{j}")), lrp::Span::new(10 * j, 10 * j + 5)), s.clone()))
                    .collect();
                let m = match fs.get(i) {
                    Some(f) => {
                        let f = *f;
                        match std::panic::catch_unwind(move || f(&toks)) {
                            Ok(m) => m,
                            Err(_) => lrp::Meta::new(Ast("panic".to_string()), lrp::Span::new(0, 0)),
                        }
                    }
                    None => lrp::Meta::new(Ast("no action".to_string()), lrp::Span::new(0, 0)),
                };
                println!("{k}\tprod\t{name}\t{}\t{}\t{}\t{}..{}", p.1 == i, p.0.iter().map(|s| s.to_string()).collect::<Vec<_>>().join(" "), m.item.0, m.span.start, m.span.end);
            }
        }
        for name in reds.keys() {
            if !rules.contains_key(name) {
                println!("{k}\tactions without a rule\t{name}");
            }
        }
    }
}
pub mod acts {
    pub fn tag(s: &str) -> &str { s }
}
"#;

fn syms() -> String {
    let mut s = String::from("pub mod syms {\n    pub const R: &str = \"R\";\n");
    for k in 0..crate::shapes::LEAVES {
        let _ = writeln!(s, "    pub const S{k}: &str = \"S{k}\";\n    pub const N{k}: &str = \"N{k}\";");
    }
    s.push_str("    pub mod q {\n");
    for k in 0..3 {
        let _ = writeln!(s, "        pub const Q{k}: &str = \"Q{k}\";");
    }
    s.push_str("    }\n    pub mod w {\n");
    for n in HARD.iter().filter(|n| !n.contains("::")) {
        let _ = writeln!(s, "        pub const {n}: &str = \"{n}\";");
    }
    for m in HARD_MODULES {
        let _ = writeln!(s, "        pub mod {m} {{");
        for n in HARD.iter().filter_map(|n| n.strip_prefix(m)?.strip_prefix("::")) {
            let _ = writeln!(s, "            pub const {n}: &str = \"{m}::{n}\";");
        }
        s.push_str("        }\n");
    }
    s.push_str("    }\n}\n");
    s
}

/// Names that differ little.
pub const HARD: [&str; 10] = ["a_b", "a::b", "a__b", "a::_b", "a_::b", "A_b", "a_0", "a_::_0", "a", "ab"];
const HARD_MODULES: [&str; 2] = ["a", "a_"];

pub fn manifest(name: &str, deps: &str, bins: usize) -> String {
    let mut m = format!("[package]\nname = \"{name}\"\nversion = \"0.1.0\"\nedition = \"2021\"\nautobins = false\n\n[workspace]\n\n[dependencies]\n{deps}\n\n[profile.dev]\ndebug = 0\nincremental = false\n\n");
    for b in 0..bins {
        let _ = write!(m, "[[bin]]\nname = \"{name}-b{b}\"\npath = \"src/b{b}.rs\"\n\n");
    }
    m
}

/// A fresh directory for a generated crate, and the directory its programs end up in.
pub fn fresh(ctx: &Ctx, name: &str) -> (PathBuf, PathBuf) {
    let d = Path::new(&ctx.dir).join("work").join(name);
    let _ = std::fs::remove_dir_all(d.join("src"));
    std::fs::create_dir_all(d.join("src")).unwrap();
    (d, Path::new(&ctx.dir).join("target/gen"))
}

/// `Err`: what the compiler says.
pub fn cargo(d: &Path, target: &Path) -> Result<(), String> {
    let out = Command::new("cargo")
        .args(["build", "--offline", "--keep-going"])
        .env("CARGO_TARGET_DIR", target)
        .env("CARGO_TERM_COLOR", "never")
        .current_dir(d)
        .stdin(Stdio::null())
        .output()
        .unwrap_or_else(|e| {
            eprintln!("cannot start cargo: {e}");
            exit(2)
        });
    if out.status.success() {
        Ok(())
    } else {
        Err(String::from_utf8_lossy(&out.stderr).to_string())
    }
}

/// (message, file, line) of every error in the compiler's output.
pub fn errors(log: &str) -> Vec<(String, String, usize)> {
    let mut v = Vec::new();
    let mut msg: Option<String> = None;
    for l in log.lines() {
        if l.starts_with("error") {
            msg = Some(l.to_string());
        } else if let (Some(m), Some(p)) = (&msg, l.trim_start().strip_prefix("--> ")) {
            let mut it = p.split(':');
            if let (Some(f), Some(Ok(n))) = (it.next(), it.next().map(str::parse)) {
                v.push((m.clone(), f.to_string(), n));
            }
            msg = None;
        }
    }
    v
}

/// Runs one program; `Err` with what it wrote so far if it does not end well.
pub fn output(bin: &Path, args: &[&str]) -> Result<String, String> {
    let out = Command::new("timeout").arg("120").arg(bin).args(args).stdin(Stdio::null()).stderr(Stdio::null()).output().unwrap_or_else(|e| {
        eprintln!("cannot start {}: {e}", bin.display());
        exit(2)
    });
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    if out.status.success() {
        Ok(text)
    } else {
        Err(text)
    }
}

/// The number the last complete line begins with: the case that was under way.
pub fn last_case(text: &str) -> Option<usize> {
    text.lines().rev().find_map(|l| l.split_once('\t')?.0.parse().ok())
}

/// The error to report if none can be attributed to a case, unless a dependency failed to build.
pub fn unattributed(log: &str) -> Option<String> {
    errors(log).into_iter().find(|e| e.1.starts_with("src/b")).map(|e| e.0)
}

/// The lines every case prints. `Err((case, what))` if one does not compile.
pub fn compile_and_run(ctx: &Ctx, cases: &[Case]) -> Result<Vec<Vec<String>>, (usize, String)> {
    const BINS: usize = 8;
    let name = format!("gen{}", ctx.id.to_lowercase());
    let (d, target) = fresh(ctx, &name);
    std::fs::write(d.join("Cargo.toml"), manifest(&name, "lrp = { path = \"/repo\" }", BINS)).unwrap();
    // which lines of which program belong to a case
    let mut ranges: Vec<Vec<(usize, usize)>> = vec![Vec::new(); BINS];
    for b in 0..BINS {
        let mut s = prelude("pub type Sy = &'static str;") + &syms();
        let mut line = s.lines().count();
        let mut main = String::from("fn main() {\n    std::panic::set_hook(Box::new(|_| {}));\n");
        for (k, c) in cases.iter().enumerate().filter(|(k, _)| k % BINS == b) {
            let t = format!(
                "mod c{k} {{\n    use super::prelude::*;\n    pub fn rules() -> Rules {}\n    pub fn reds() -> Reds {}\n}}\n",
                c.grammar, c.reductor
            );
            line += t.lines().count();
            ranges[b].push((line, k));
            s.push_str(&t);
            let _ = writeln!(main, "    prelude::run({k}, c{k}::rules(), c{k}::reds());");
        }
        s.push_str(&main);
        s.push_str("}\n");
        std::fs::write(d.join(format!("src/b{b}.rs")), s).unwrap();
    }
    if let Err(log) = cargo(&d, &target) {
        let mut worst: Option<(usize, String)> = None;
        for (m, f, l) in errors(&log) {
            let Some(b) = f.strip_prefix("src/b").and_then(|x| x.strip_suffix(".rs")).and_then(|x| x.parse::<usize>().ok()) else { continue };
            let Some((_, k)) = ranges[b].iter().find(|(end, _)| l <= *end) else { continue };
            if worst.as_ref().is_none_or(|w| *k < w.0) {
                worst = Some((*k, format!("the generated code does not compile: {m}")));
            }
        }
        if let Some(w) = worst {
            return Err(w);
        }
        if let Some(m) = unattributed(&log) {
            return Err((0, format!("the generated code does not compile: {m}")));
        }
        eprintln!("the generated programs cannot be built:\n{}", &log[log.len().saturating_sub(2000)..]);
        exit(2);
    }
    let mut out = vec![Vec::new(); cases.len()];
    let outs: Vec<Result<String, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..BINS)
            .map(|b| {
                let bin = target.join(format!("debug/{name}-b{b}"));
                sc.spawn(move || output(&bin, &[]))
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (b, o) in outs.iter().enumerate() {
        let o = match o {
            Ok(o) => o,
            Err(part) => {
                let k = last_case(part).unwrap_or(b).min(cases.len() - 1);
                return Err((k, "the generated program, which ran up to this case, does not end well".into()));
            }
        };
        for l in o.lines() {
            let Some((k, rest)) = l.split_once('\t') else { continue };
            let Ok(k) = k.parse::<usize>() else { continue };
            out[k].push(rest.to_string());
        }
    }
    Ok(out)
}
