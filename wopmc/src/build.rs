//! C17-C19: what the builder makes of a grammar file, against the reference expansion of it.

use crate::ex::{each, sut, Bad, Ctx, Stats};
use crate::front::{lex, parse, Alt, Body, Decl, Item, Sp};
use crate::gen::{self, Case};
use crate::shapes::{self, bodies, write, Deco};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::str::FromStr;
use wop::builder::Builder;

// ---------------------------------------------------------------- reference

#[derive(Clone, Debug, PartialEq, Eq)]
enum Bind {
    One(usize),
    Many(usize, usize),
}

#[derive(Clone, Debug, Default)]
struct Exp {
    syms: Vec<String>,
    env: BTreeMap<String, Bind>,
}

/// The static form of a name: (optional, kind of value)
type Form = (bool, &'static str);

pub struct Prod {
    pub syms: Vec<String>,
    pub env: BTreeMap<String, String>,
    /// index of the alternative the code block comes from
    pub alt: usize,
    pub code: Sp,
}

pub struct RuleX {
    pub name: String,
    pub ty: String,
    pub prods: Vec<Prod>,
}

pub struct Model {
    pub rules: Vec<RuleX>,
    pub imports: Vec<String>,
    pub aliases: BTreeMap<String, String>,
}

fn forms(alts: &[Alt], src: &str, inside: bool, out: &mut BTreeMap<String, Form>) {
    for i in alts.iter().flat_map(|a| &a.items) {
        if let Some(a) = i.alias {
            let kind = match (&i.body, i.clone) {
                (Body::Group(_), false) => "slice",
                (Body::Group(_), true) => "vec",
                (_, false) => "ref",
                (_, true) => "own",
            };
            out.insert(src[a.0..a.1].to_string(), (inside || i.opt, kind));
        }
        if let Body::Group(v) = &i.body {
            forms(v, src, true, out);
        }
    }
}

fn expand(items: &[Item], src: &str, al: &BTreeMap<String, String>) -> Vec<Exp> {
    let mut acc = vec![Exp::default()];
    for i in items {
        let name = i.alias.map(|a| src[a.0..a.1].to_string());
        let mut ways: Vec<(Vec<String>, BTreeMap<String, Bind>, bool)> = match &i.body {
            Body::Group(alts) => {
                alts.iter().flat_map(|a| expand(&a.items, src, al)).map(|e| (e.syms, e.env, true)).collect()
            }
            _ => {
                let t = &src[i.inner.0..i.inner.1];
                vec![(vec![al.get(t).cloned().unwrap_or_else(|| t.to_string())], BTreeMap::new(), true)]
            }
        };
        if i.opt {
            ways.push((Vec::new(), BTreeMap::new(), false));
        }
        let group = matches!(i.body, Body::Group(_));
        let mut next = Vec::new();
        for a in &acc {
            for (syms, env, present) in &ways {
                let at = a.syms.len();
                let mut e = a.clone();
                e.syms.extend(syms.iter().cloned());
                for (k, v) in env {
                    let v = match v {
                        Bind::One(j) => Bind::One(j + at),
                        Bind::Many(j, k) => Bind::Many(j + at, k + at),
                    };
                    e.env.insert(k.clone(), v);
                }
                if let (Some(n), true) = (&name, present) {
                    e.env.insert(n.clone(), if group { Bind::Many(at, e.syms.len()) } else { Bind::One(at) });
                }
                next.push(e);
            }
        }
        acc = next;
    }
    acc
}

fn shown(form: Form, b: Option<&Bind>) -> String {
    let v = match b {
        None => return format!("none({})", form.1),
        Some(Bind::One(i)) => format!("{} {i}", form.1),
        Some(Bind::Many(i, j)) => format!("{} {}", form.1, (*i..*j).map(|k| k.to_string()).collect::<Vec<_>>().join(",")),
    };
    if form.0 {
        format!("some({v})")
    } else {
        v
    }
}

/// What the file means; `Err` if it must be refused.
pub fn model(src: &str) -> Result<Model, String> {
    let t = lex(src);
    let p = parse(&t).map_err(|i| format!("token {i} cannot come there"))?;
    let mut m = Model { rules: Vec::new(), imports: Vec::new(), aliases: BTreeMap::new() };
    let cut = |s: Sp| src[s.0..s.1].to_string();
    fn no_code(items: &[Item]) -> bool {
        items.iter().all(|i| match &i.body {
            Body::Group(v) => v.iter().all(|a| a.code.is_none() && no_code(&a.items)),
            _ => true,
        })
    }
    for d in p {
        match d {
            Decl::Use { path, .. } => m.imports.push(cut(path)),
            Decl::Alias { from, to, .. } => {
                if m.aliases.insert(cut(from), cut(to)).is_some() {
                    return Err(format!("two aliases for {}", cut(from)));
                }
            }
            Decl::Rule { name, ty, alts, .. } => {
                if m.rules.iter().any(|r| r.name == cut(name)) {
                    return Err(format!("two rules {}", cut(name)));
                }
                let mut prods = Vec::new();
                for (k, a) in alts.iter().enumerate() {
                    let Some(code) = a.code else { return Err("an alternative without a code block".into()) };
                    if !no_code(&a.items) {
                        return Err("a code block inside a group".into());
                    }
                    let mut f = BTreeMap::new();
                    forms(std::slice::from_ref(a), src, false, &mut f);
                    for e in expand(&a.items, src, &m.aliases) {
                        let env = f.iter().map(|(n, f)| (n.clone(), shown(*f, e.env.get(n)))).collect();
                        prods.push(Prod { syms: e.syms, env, alt: k, code });
                    }
                }
                m.rules.push(RuleX { name: cut(name), ty: cut(ty), prods });
            }
        }
    }
    Ok(m)
}

// ---------------------------------------------------------------- the real builder

pub fn real(src: &str) -> Result<Result<Builder, String>, String> {
    crate::ex::crumb(src);
    sut("the builder", || Builder::from_str(src).map_err(|e| format!("{e:?}")))
}

/// The productions of every rule and where their code blocks are, as the builder keeps them.
fn same_productions(m: &Model, b: &Builder, src: &str) -> Result<(), String> {
    let names: BTreeSet<&str> = m.rules.iter().map(|r| r.name.as_str()).collect();
    let got: BTreeSet<&str> = b.rules.keys().map(String::as_str).collect();
    if names != got {
        return Err(format!("rules {names:?} expected, {got:?} built"));
    }
    for r in &m.rules {
        let mut want: Vec<(Vec<String>, String, String)> =
            r.prods.iter().map(|p| (p.syms.clone(), src[p.code.0..p.code.1].to_string(), r.ty.clone())).collect();
        let mut have: Vec<(Vec<String>, String, String)> = b.rules[&r.name]
            .iter()
            .map(|p| {
                (
                    p.production.iter().map(|s| s.from_source(src).to_string()).collect(),
                    p.codeblock.from_source(src).to_string(),
                    p.ty.from_source(src).to_string(),
                )
            })
            .collect();
        want.sort();
        have.sort();
        if want != have {
            let miss: Vec<_> = want.iter().filter(|x| !have.contains(x)).collect();
            let more: Vec<_> = have.iter().filter(|x| !want.contains(x)).collect();
            return Err(format!("rule {}: missing {miss:?}, extra {more:?} ({} expected, {} built)", r.name, want.len(), have.len()));
        }
    }
    Ok(())
}

/// Builds `src` with the real builder and compares the productions, or checks the refusal.
fn judge_productions(src: &str, st: &mut Stats) -> Result<(), String> {
    st.runs += 1;
    st.decided += 1;
    match model(src) {
        Ok(m) => {
            st.out("built");
            let b = real(src)?.map_err(|e| format!("a valid grammar file is refused: {e}"))?;
            let n = m.rules.iter().map(|r| r.prods.len()).sum::<usize>() as u64;
            st.states += n;
            st.transitions += m.rules.iter().flat_map(|r| &r.prods).map(|p| p.syms.len() as u64).sum::<u64>();
            same_productions(&m, &b, src)
        }
        Err(why) => {
            st.out("refused");
            st.states += 1;
            match real(src) {
                Ok(Ok(_)) => Err(format!("must be refused ({why}), but is built")),
                _ => Ok(()),
            }
        }
    }
}

// ---------------------------------------------------------------- C17

fn wrap(bodies: &[String]) -> String {
    let alts: Vec<String> = bodies.iter().enumerate().map(|(i, b)| format!("{b} -> {{ {i} }}%")).collect();
    let t = alts.join("\n  | ");
    format!("{}R: Ast = {t};\n", shapes::aliases(&t))
}

pub fn expansions(c: &Ctx, only: Option<&str>, st: &mut Stats) -> Option<Bad> {
    if let Some(src) = only {
        return judge_productions(src, st).err().map(|msg| Bad { case: src.to_string(), msg });
    }
    let top = if c.thorough() { 8 } else { 7 };
    for n in 1..=top {
        for deco in [Deco::Opt, Deco::OneAlias] {
            if deco == Deco::OneAlias && n + 1 > top {
                continue;
            }
            let v = bodies(n, 3, deco);
            // small bodies in every style, large ones in one of them each
            let k = if n + 1 < top || deco == Deco::Opt && n < top { shapes::STYLES as usize } else { 1 };
            let text = |i: usize| wrap(&[write(&v[i / k], (if k > 1 { i % k } else { i % shapes::STYLES as usize }) as u8, i % 2 == 1).0]);
            let b = each(c, &format!("all bodies of {n} nodes, {deco:?}, {k} styles"), v.len() * k, &text, &|i, st| judge_productions(&text(i), st), st);
            if b.is_some() {
                return b;
            }
        }
    }
    for (label, v) in shapes::long(if c.thorough() { 2 } else { 1 }).into_iter().chain(shapes::huge(false, c.thorough())) {
        let k = shapes::STYLES as usize;
        let text = |i: usize| wrap(&[write(&v[i / k], (i % k) as u8, i % 2 == 1).0]);
        let b = each(c, &label, v.len() * k, &text, &|i, st| judge_productions(&text(i), st), st);
        if b.is_some() {
            return b;
        }
    }
    // two alternatives, each with its own code block
    let v: Vec<String> = (1..=if c.thorough() { 4 } else { 3 }).flat_map(|n| bodies(n, 2, Deco::Opt)).map(|b| write(&b, 0, false).0).collect();
    let k = v.len();
    let text = |i: usize| wrap(&[v[i / k].clone(), v[i % k].clone()]);
    let b = each(c, "all pairs of small bodies as alternatives of a rule", k * k, &text, &|i, st| judge_productions(&text(i), st), st);
    st.samples = vec![text(0), text(k * k - 1)];
    b
}

// ---------------------------------------------------------------- C18

fn actions(names: &[String], tag: &str) -> String {
    let v: Vec<String> = names.iter().map(|n| format!("(\"{n}\", ob({n}))")).collect();
    format!("-> {{ rec(\"{tag}\", &[{}], toks) }}%", v.join(", "))
}

pub fn value(sym: &str) -> String {
    let mut s = sym.trim_matches('"').to_string();
    while let Some((a, b)) = s.clone().split_once("/*") {
        s = format!("{a}{}", b.split_once("*/").map_or("", |x| x.1));
    }
    while let Some((a, b)) = s.clone().split_once("//").filter(|_| !sym.starts_with('"')) {
        s = format!("{a}{}", b.split_once('\n').map_or("", |x| x.1));
    }
    s.retain(|c| !c.is_whitespace());
    let mut t = s.as_str();
    for m in ["crate::", "syms::", "Sym::", "q::", "w::"] {
        t = t.strip_prefix(m).unwrap_or(t);
    }
    t.to_string()
}

/// What the generated program should print for a file.
pub fn expected(m: &Model) -> Vec<String> {
    let mut v = Vec::new();
    for r in &m.rules {
        let n = value(&r.name);
        v.push(format!("rule\t{n}\t{}\t{}\t{n}", r.prods.len(), r.prods.len()));
        for p in &r.prods {
            let env: Vec<String> = p.env.iter().map(|(n, v)| format!("{n}={v}")).collect();
            let syms: Vec<String> = p.syms.iter().map(|s| value(s)).collect();
            let k = syms.len();
            v.push(format!("prod\t{n}\ttrue\t{}\t{n}/{} [{}] {k}\t0..{}", syms.join(" "), p.alt, env.join("; "), 10 * k - 5));
        }
    }
    v.sort();
    v
}

/// Builds all files, compiles and runs what was generated, and compares.
fn compile_all(c: &Ctx, label: &str, srcs: &[String], st: &mut Stats) -> Option<Bad> {
    let t0 = std::time::Instant::now();
    let mut cases = Vec::new();
    for s in srcs {
        let dumped = match real(s) {
            Ok(Ok(mut b)) => {
                b.entry_type = "Gramem".to_string();
                sut("the dump", || (b.dump_grammar(s), b.dump_reductor(s)))
            }
            Ok(Err(e)) => Err(format!("a valid grammar file is refused: {e}")),
            Err(e) => Err(e),
        };
        match dumped {
            Ok((grammar, reductor)) => cases.push(Case { grammar, reductor }),
            Err(msg) => return Some(Bad { case: s.clone(), msg }),
        }
    }
    let out = match gen::compile_and_run(c, &cases) {
        Ok(o) => o,
        Err((i, msg)) => return Some(Bad { case: srcs[i].clone(), msg }),
    };
    let (mut states, mut trans) = (0, 0);
    for (s, have) in srcs.iter().zip(out) {
        let m = model(s).unwrap();
        let want = expected(&m);
        let mut have = have;
        have.sort();
        st.runs += have.len() as u64;
        st.decided += 1;
        st.out("compiled and run");
        states += want.len() as u64;
        trans += m.rules.iter().flat_map(|r| &r.prods).map(|p| p.env.len() as u64).sum::<u64>();
        if want != have {
            let miss: Vec<_> = want.iter().filter(|x| !have.contains(x)).collect();
            let more: Vec<_> = have.iter().filter(|x| !want.contains(x)).collect();
            return Some(Bad { case: s.clone(), msg: format!("expected but not seen: {miss:?}; seen but not expected: {more:?}") });
        }
    }
    st.states += states;
    st.transitions += trans;
    st.notes.push(format!("{label}: {} files built, compiled and run, {states} productions, {trans} bindings [{:.1}s]", srcs.len(), t0.elapsed().as_secs_f64()));
    None
}

pub fn bindings(c: &Ctx, only: Option<&str>, st: &mut Stats) -> Option<Bad> {
    if let Some(src) = only {
        return compile_all(c, "case", &[src.to_string()], st);
    }
    let one = |s: &[shapes::D], style: u8, shared: bool| {
        let (t, names) = write(s, style, shared);
        format!("use crate::syms::*;\n{}R: Ast = {t} {};\n", shapes::aliases(&t), actions(&names, "R/0"))
    };
    let mut fams: Vec<(String, Vec<String>)> = Vec::new();
    let top = if c.thorough() { 5 } else { 4 };
    let mut v = Vec::new();
    for n in 1..=3 {
        for (i, s) in bodies(n, 2, Deco::All).iter().enumerate() {
            let style = (i % shapes::STYLES as usize) as u8;
            v.push(one(s, style, false));
            let w = one(s, style, true);
            if *v.last().unwrap() != w {
                v.push(w);
            }
        }
    }
    fams.push(("all bodies of at most 3 nodes, all decorations".into(), v));
    for n in 4..=top + 1 {
        let v: Vec<String> = bodies(n, 3, Deco::OneAlias).iter().enumerate().map(|(i, s)| one(s, (i % shapes::STYLES as usize) as u8, false)).collect();
        fams.push((format!("all bodies of {n} nodes, one of them named"), v));
    }
    // every leaf and group named, only `?` varies
    for n in 4..=top {
        let mut v = Vec::new();
        for form in 1..=2u8 {
            for (i, s) in bodies(n, 3, Deco::Opt).iter().enumerate() {
                fn name_all(s: &mut [shapes::D], f: u8) {
                    for d in s {
                        d.alias = f;
                        if let shapes::Node::Group(a) = &mut d.node {
                            for x in a {
                                name_all(x, f);
                            }
                        }
                    }
                }
                let mut s = s.clone();
                name_all(&mut s, form);
                v.push(one(&s, (i % shapes::STYLES as usize) as u8, i % 2 == 1));
            }
        }
        fams.push((format!("all bodies of {n} nodes, all of them named"), v));
    }
    // two alternatives with their own names
    let small: Vec<Vec<shapes::D>> = (1..=2).flat_map(|n| bodies(n, 1, Deco::OneAlias)).collect();
    let mut v = Vec::new();
    for a in &small {
        for b in &small {
            let (t, n) = write(a, shapes::PATHS, false);
            let (u, o) = write(b, 0, false);
            v.push(format!("use crate::syms::*;\n{}R: Ast = {t} {} | {u} {};\n", shapes::aliases(&(t.clone() + &u)), actions(&n, "R/0"), actions(&o, "R/1")));
        }
    }
    fams.push(("two alternatives".into(), v));
    for (label, v) in shapes::long(1 + c.thorough() as usize).into_iter().chain(shapes::huge(true, c.thorough())) {
        fams.push((label, v.iter().enumerate().map(|(i, s)| one(s, (i % shapes::STYLES as usize) as u8, false)).collect()));
    }
    for (label, v) in fams {
        st.samples.push(v[v.len() / 2].lines().last().unwrap_or("").to_string());
        for chunk in v.chunks(8000) {
            if std::time::Instant::now() > c.deadline {
                st.capped = true;
                st.notes.push(format!("{label}: stopped at the time cap"));
                return None;
            }
            let b = compile_all(c, &label, chunk, st);
            if b.is_some() {
                return b;
            }
        }
    }
    None
}

// ---------------------------------------------------------------- C19

/// Programs that vary everything around the rule bodies.
pub fn program_texts() -> Vec<String> {
    let mut out = Vec::new();
    for imp in 0..4usize {
        for al in 0..4usize {
            for nr in 1..=3usize {
                for path in 0..2usize {
                    for order in 0..3usize {
                        let s = |k: usize| if imp == 3 || path == 1 { format!("syms::S{k}") } else { format!("S{k}") };
                        let n = |k: usize| if imp == 3 || path == 1 { format!("syms::N{k}") } else { format!("N{k}") };
                        let mut imports: Vec<String> = match imp {
                            0 => vec!["use crate::syms::*".into()],
                            1 => (0..3).map(|k| format!("use crate::syms::N{k}")).chain((0..6).map(|k| format!("use crate::syms::S{k}"))).collect(),
                            2 => vec!["use /* all */ crate :: syms :: *".into()],
                            _ => vec![],
                        };
                        if imp == 3 || path == 1 {
                            imports.push("use crate::syms".into());
                        }
                        imports.push("use crate::acts::tag".into());
                        let (aliases, lit): (Vec<String>, Vec<String>) = match al {
                            0 => (vec![], (0..3).map(|k| format!("\"l{k}\"")).collect()),
                            1 => ((0..3).map(|k| format!("alias \"+{k}\" {}", s(k))).collect(), (0..3).map(|k| format!("\"+{k}\"")).collect()),
                            2 => ((0..3).map(|k| format!("alias Tok{k} {}", s(k))).collect(), (0..3).map(|k| format!("Tok{k}")).collect()),
                            _ => ((0..3).map(|k| format!("alias \"a\\\"{k}\" crate::syms::q::Q{k}")).collect(), (0..3).map(|k| format!("\"a\\\"{k}\"")).collect()),
                        };
                        let ty = ["Ast", "crate::prelude::Ast"][order % 2];
                        let mut rules = Vec::new();
                        for r in 0..nr {
                            let code = |k: usize| format!("-> {{ rec(tag(\"N{r}/{k}\"), &[], toks) }}%");
                            let mut t = format!("{}: {ty} = {} {}? {} {}", n(r), s(3), lit[r], s(4), code(0));
                            if r + 1 < nr {
                                t += &format!("\n  | {} ({} | {}) {}", n(r + 1), s(5), lit[(r + 1) % 3], code(1));
                            }
                            rules.push(t);
                        }
                        let decls: Vec<String> = match order {
                            0 => imports.into_iter().chain(aliases).chain(rules).collect(),
                            1 => aliases.into_iter().chain(rules).chain(imports).collect(),
                            _ => {
                                rules.reverse();
                                let mut v = Vec::new();
                                let mut it = imports.into_iter();
                                v.extend(it.next());
                                v.extend(aliases);
                                for r in rules {
                                    v.push(r);
                                    v.extend(it.next());
                                }
                                v.extend(it);
                                v
                            }
                        };
                        out.push(decls.iter().map(|d| format!("{d};\n")).collect());
                    }
                }
            }
        }
    }
    out
}

/// Seven declarations that refer to each other, in every order.
fn orders() -> Vec<String> {
    let decls = [
        "use crate::syms::*",
        "use crate::acts::tag",
        "alias \"x\" S0",
        "alias w S1",
        "N0: Ast = w \"x\" N1 -> { rec(tag(\"N0/0\"), &[], toks) }%",
        "N1: Ast = w -> { rec(tag(\"N1/0\"), &[], toks) }% | \"x\"? (w | \"x\" S2) -> { rec(tag(\"N1/1\"), &[], toks) }%",
        "N2: Ast = S2 w -> { rec(tag(\"N2/0\"), &[], toks) }%",
    ];
    let mut out = Vec::new();
    let mut p: Vec<usize> = (0..decls.len()).collect();
    loop {
        out.push(p.iter().map(|i| format!("{};\n", decls[*i])).collect());
        // the next permutation
        let Some(i) = (0..p.len() - 1).rev().find(|i| p[*i] < p[i + 1]) else { return out };
        let j = (i + 1..p.len()).rev().find(|j| p[*j] > p[i]).unwrap();
        p.swap(i, j);
        p[i + 1..].reverse();
    }
}

/// Blanks and comments of every kind in every gap between the tokens of every path.
fn gaps() -> Vec<String> {
    const GAPS: &[&str] = &[" ", "\n\t", "/* c; */", "/***/ /* :: */", "// c\n", " // ; *\r\n\n", "/* \u{e9} */// \u{4e2d}\n"];
    let base = "use crate::syms::*;\nuse crate::syms;\nuse crate::acts::tag;\nalias \"x\" syms::q::Q0;\nalias w crate::syms::S1;\ncrate::syms::N0: crate::prelude::Ast = w crate::syms::S2? (syms::S3 | \"x\") crate::syms::N0 -> { rec(tag(\"N0/0\"), &[], toks) }%;\n";
    let toks = lex(base);
    let path = |i: usize| toks.get(i).is_some_and(|t| t.0 == crate::front::K::PathAccess);
    let mut out = Vec::new();
    let inside: Vec<usize> = (0..toks.len() - 1).filter(|i| path(*i) || path(*i + 1)).map(|i| toks[i].1 .1).collect();
    for gap in GAPS {
        for at in &inside {
            out.push(format!("{}{gap}{}", &base[..*at], &base[*at..]));
        }
        // in all of them
        let mut all = base.to_string();
        for at in inside.iter().rev() {
            all.insert_str(*at, gap);
        }
        out.push(all);
    }
    out
}

/// Many of each kind of declaration; each file also with one of them twice.
fn many(thorough: bool) -> Vec<String> {
    let mut out = Vec::new();
    let mut ns: Vec<usize> = (2..=20).chain([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]).collect();
    if thorough {
        ns.extend([1000, 1023, 1024, 1025]);
    }
    for n in ns {
        let rule = |i: usize, item: &str| format!("R{i}: T{} = {item} (a | b)? -> {{ {i} }}%", i % 3);
        for kind in 0..4 {
            let mut v: Vec<String> = match kind {
                0 => (0..n).map(|i| format!("use p::q{i}::*")).chain([rule(0, "a")]).collect(),
                1 => (0..n).map(|i| format!("alias \"k{i}\" K{i}")).chain((0..n).map(|i| rule(i, &format!("\"k{i}\"")))).collect(),
                2 => (0..n).flat_map(|i| [format!("alias w{i} V{i}"), rule(i, &format!("w{i} w{}", n - i))]).collect(),
                _ => (0..n).map(|i| rule(i, &format!("R{}", (i + 1) % n))).collect(),
            };
            let t = |v: &[String]| v.iter().map(|d| format!("{d};\n")).collect::<String>();
            out.push(t(&v));
            for i in [0, n / 2, v.len() - 1] {
                v.push(v[i].clone());
                out.push(t(&v));
                v.pop();
            }
        }
    }
    out
}

/// Every token of the text dropped, doubled, or replaced by its neighbour: texts cut at tokens.
pub fn damaged(src: &str) -> Vec<String> {
    let t = lex(src);
    let mut out = Vec::new();
    for i in 0..t.len() {
        let (a, b) = t[i].1;
        out.push(format!("{}{}", &src[..a], &src[b..]));
        out.push(format!("{} {} {}", &src[..b], &src[a..b], &src[b..]));
        out.push(src[..a].to_string());
        if i + 1 < t.len() {
            let (x, y) = t[i + 1].1;
            out.push(format!("{} {} {} {} {}", &src[..a], &src[x..y], &src[b..x], &src[a..b], &src[y..]));
        }
        out.push(format!("{} ! {}", &src[..a], &src[a..]));
    }
    out
}

pub fn programs(c: &Ctx, only: Option<&str>, st: &mut Stats) -> Option<Bad> {
    if let Some(src) = only {
        return match model(src) {
            Ok(_) => compile_all(c, "case", &[src.to_string()], st),
            Err(_) => judge_productions(src, st).err().map(|msg| Bad { case: src.to_string(), msg }),
        };
    }
    let all = program_texts();
    st.samples.push(all[all.len() - 1].clone());
    let fast = |src: &str, st: &mut Stats| -> Result<(), String> {
        judge_productions(src, st)?;
        // imports and aliases are kept, all of them
        if let (Ok(m), Ok(Ok(b))) = (model(src), real(src)) {
            let got: Vec<String> = b.imports.iter().map(|s| s.from_source(src).to_string()).collect();
            if got != m.imports {
                return Err(format!("imports {:?} expected, {got:?} kept", m.imports));
            }
            let got: HashMap<String, String> = b.aliases.iter().map(|(k, s)| (k.clone(), s.from_source(src).to_string())).collect();
            let want: HashMap<String, String> = m.aliases.clone().into_iter().collect();
            if got != want {
                return Err(format!("aliases {want:?} expected, {got:?} kept"));
            }
            if sut("a dump without an entry type", || b.dump_reductor(src)).is_ok() {
                return Err("reductors are dumped although no entry type was set".into());
            }
        }
        Ok(())
    };
    let b = each(c, "all program layouts (imports, aliases, names, order)", all.len(), &|i| all[i].clone(), &|i, st| fast(&all[i], st), st);
    if b.is_some() {
        return b;
    }
    let some = orders();
    let b = each(c, "seven declarations in every order", some.len(), &|i| some[i].clone(), &|i, st| fast(&some[i], st), st);
    if b.is_some() {
        return b;
    }
    let most = many(c.thorough());
    let b = each(c, "files of many imports, aliases and rules", most.len(), &|i| most[i].clone(), &|i, st| fast(&most[i], st), st);
    if b.is_some() {
        return b;
    }
    // damaged programs are refused, or mean what the reference says
    let step = if c.thorough() { 1 } else { 2 };
    let mut bad: Vec<String> = all.iter().step_by(step).flat_map(|s| damaged(s)).collect();
    for s in all.iter().step_by(step) {
        let semi: Vec<usize> = lex(s).iter().filter(|t| t.0 == crate::front::K::Sc).map(|t| t.1 .1).collect();
        let mut a = 0;
        for e in semi {
            // the declaration once more at the end, and once more right behind
            bad.push(format!("{s}{}", &s[a..e]));
            bad.push(format!("{}{}{}", &s[..e], &s[a..e], &s[e..]));
            a = e;
        }
        for (k, t) in lex(s).iter().enumerate() {
            if t.0 == crate::front::K::Ident {
                // a group with a code block of its own in place of the item
                bad.push(format!("{}({} -> {{ {k} }}%){}", &s[..t.1 .0], &s[t.1 .0..t.1 .1], &s[t.1 .1..]));
            }
        }
    }
    bad.sort();
    bad.dedup();
    let b = each(c, "damaged programs", bad.len(), &|i| bad[i].clone(), &|i, st| fast(&bad[i], st), st);
    if b.is_some() {
        return b;
    }
    let b = compile_all(c, "all program layouts", &all, st);
    if b.is_some() {
        return b;
    }
    let some = gaps();
    let b = each(c, "blanks and comments inside paths", some.len(), &|i| some[i].clone(), &|i, st| fast(&some[i], st), st);
    if b.is_some() {
        return b;
    }
    let b = compile_all(c, "blanks and comments inside paths", &some, st);
    if b.is_some() {
        return b;
    }
    for (label, v) in rule_texts(c.thorough()) {
        // any one code block missing, or all but one
        let cut: Vec<String> = v
            .iter()
            .flat_map(|s| {
                let codes: Vec<(usize, usize)> = lex(s).iter().filter(|t| t.0 == crate::front::K::Code).map(|t| t.1).collect();
                let without = |drop: &dyn Fn(usize) -> bool| {
                    let mut o = s.clone();
                    for (i, (a, b)) in codes.iter().enumerate().rev() {
                        if drop(i) {
                            o.replace_range(*a..*b, " ");
                        }
                    }
                    o
                };
                (0..codes.len()).flat_map(|k| [without(&|i| i == k), without(&|i| i != k)]).collect::<Vec<_>>()
            })
            .collect();
        let b = each(c, &format!("{label}, with code blocks missing"), cut.len(), &|i| cut[i].clone(), &|i, st| fast(&cut[i], st), st);
        if b.is_some() {
            return b;
        }
        let b = each(c, &label, v.len(), &|i| v[i].clone(), &|i, st| fast(&v[i], st), st);
        if b.is_some() {
            return b;
        }
        let b = compile_all(c, &label, &v, st);
        if b.is_some() {
            return b;
        }
    }
    None
}

/// Rules with many alternatives, and many rules: which action goes with which production.
pub fn rule_texts(thorough: bool) -> Vec<(String, Vec<String>)> {
    let alt = |r: usize, k: usize, names: usize, first: usize| {
        let v: Vec<String> = (0..names).map(|i| format!("a{i}")).collect();
        let mut t: Vec<String> = v.iter().enumerate().map(|(i, n)| format!("S{}:{n}", first + i)).collect();
        if names == 0 {
            t.push(format!("S{first}"));
        }
        format!("{} {}", t.join(" "), actions(&v, &format!("N{r}/{k}")))
    };
    let mut fams = Vec::new();
    // alternatives with any numbers of names
    let top = if thorough { 6 } else { 5 };
    let mut v = Vec::new();
    for m in 1..=top {
        for code in 0..3usize.pow(m as u32) {
            let alts: Vec<String> = (0..m).map(|k| alt(0, k, code / 3usize.pow(k as u32) % 3, k)).collect();
            v.push(format!("use crate::syms::*;\nN0: Ast = {};\n", alts.join("\n  | ")));
        }
    }
    fams.push((format!("rules of up to {top} alternatives with up to 2 names each"), v));
    // long lists of alternatives, equal or different, some of which expand
    let top = if thorough { 20 } else { 12 };
    let mut v = Vec::new();
    for m in 1..=top {
        for opt in 0..=m {
            for kind in 0..3 {
                let alts: Vec<String> = (0..m)
                    .map(|k| {
                        let s = [k, m - 1 - k, 0][kind];
                        let tail = if k == opt { format!(" S{}?:b (S1 | S2 S3)", s + 1) } else { String::new() };
                        let names: &[&str] = if k == opt { &["a", "b"] } else { &["a"] };
                        let names: Vec<String> = names.iter().map(|n| n.to_string()).collect();
                        format!("S{s}:a{tail} {}", actions(&names, &format!("N0/{k}")))
                    })
                    .collect();
                v.push(format!("use crate::syms::*;\nN0: Ast = {};\n", alts.join("\n  | ")));
            }
        }
    }
    fams.push((format!("rules of up to {top} alternatives, one of which expands"), v));
    // many rules
    let top = if thorough { 16 } else { 10 };
    let mut v = Vec::new();
    for n in 2..=top {
        for wide in 0..n {
            for back in [false, true] {
                let mut r: Vec<String> = (0..n)
                    .map(|k| {
                        let m = if k == wide { 4 } else { 1 + k % 2 };
                        let alts: Vec<String> = (0..m).map(|j| alt(k, j, (j + k) % 3, (j + k) % 16)).collect();
                        format!("N{k}: Ast = {};\n", alts.join(" | "))
                    })
                    .collect();
                if back {
                    r.reverse();
                }
                v.push(format!("use crate::syms::*;\n{}", r.concat()));
            }
        }
    }
    fams.push((format!("up to {top} rules"), v));
    // names that differ little, and spellings of them
    let mut v = Vec::new();
    for style in 0..5 {
        let spell = |n: &str| match style {
            0 => n.to_string(),
            1 => format!("w::{n}"),
            2 => format!("crate::syms::w::{n}").replace("::", " :: "),
            3 => format!("syms::w::{n}").replace("::", "/* \u{b2} - */::"),
            _ => format!("syms::w::{n}").replace("::", "\n\t::"),
        };
        let h = &gen::HARD;
        let rule = |k: usize, of: usize| {
            let alts: Vec<String> = (0..of).map(|j| format!("S{j}{} {}", if j > 0 { " S5" } else { "" }, actions(&[], &format!("{}/{j}", h[k])))).collect();
            format!("{}: Ast = {};\n", spell(h[k]), alts.join(" | "))
        };
        for i in 0..h.len() {
            for j in 0..h.len() {
                if i != j {
                    v.push(format!("use crate::syms;\nuse crate::syms::*;\nuse crate::syms::w::*;\n{}{}", rule(i, 2), rule(j, 2)));
                }
            }
        }
        v.push(format!("use crate::syms;\nuse crate::syms::*;\nuse crate::syms::w::*;\n{}", (0..h.len()).map(|i| rule(i, 1 + i % 3)).collect::<String>()));
    }
    fams.push(("rules whose names differ little".into(), v));
    // half of the files with code blocks that begin and end alike
    for s in fams.iter_mut().flat_map(|f| f.1.iter_mut().skip(1).step_by(2)) {
        *s = s.replace("-> { ", "-> { /* the same words at the start of all of them */ ").replace(" }%", " /* and others at the end of all of them, too */ }%");
    }
    fams
}

