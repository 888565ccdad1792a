//! C16: the parser of grammar files against the reference parser, on every token sequence up to a
//! depth in several contexts: verdict, position of the error, number of tokens taken, and tree.

use crate::ex::{each, sut, Bad, Ctx, Stats};
use crate::front::{lex, parse, Alt, Body, Decl, Item, Sp, Tok, K, KINDS};
use lrp::{Meta, Span, Token};
use std::cell::Cell;
use std::rc::Rc;
use wop::{Ast, Gramem, Sym};

type Machine = lrp::Dfa<Meta<Ast>, Sym, std::vec::IntoIter<Gramem>>;

struct Count {
    v: std::vec::IntoIter<Gramem>,
    n: Rc<Cell<usize>>,
}

impl Iterator for Count {
    type Item = Gramem;
    fn next(&mut self) -> Option<Gramem> {
        let r = self.v.next();
        if r.is_some() {
            self.n.set(self.n.get() + 1);
        }
        r
    }
}

thread_local! {
    // building the tables is slow; the machine's parts are public and are copied from here
    static BASE: std::cell::OnceCell<Machine> = const { std::cell::OnceCell::new() };
}

pub fn tokens(t: &[Tok]) -> Vec<Gramem> {
    t.iter().map(|(k, (a, b))| Token::new(Meta::new(Ast::Token(k.sym()), Span::new(*a, *b)), k.sym())).collect()
}

fn sp(s: Sp) -> Span {
    Span::new(s.0, s.1)
}

fn want(what: &str, g: &Gramem, ty: Sym, span: Sp) -> Result<(), String> {
    if g.ty != ty {
        return Err(format!("{what} should be a {ty:?}, is a {:?}", g.ty));
    }
    if g.item.span != sp(span) {
        return Err(format!("{what} ({ty:?}) should span {span:?}, spans {:?}", g.item.span));
    }
    Ok(())
}

fn alts_eq(a: &[Alt], b: &[wop::RulePipe]) -> Result<(), String> {
    if a.len() != b.len() {
        return Err(format!("{} alternatives expected, {} found", a.len(), b.len()));
    }
    for (x, (items, code)) in a.iter().zip(b) {
        let c = x.code.unwrap_or((0, 0));
        if *code != sp(c) {
            return Err(format!("code block expected at {c:?}, found at {code:?}"));
        }
        if items.len() != x.items.len() {
            return Err(format!("{} items expected, {} found", x.items.len(), items.len()));
        }
        for (i, g) in x.items.iter().zip(items) {
            item_eq(i, g)?;
        }
    }
    Ok(())
}

fn item_eq(i: &Item, g: &Gramem) -> Result<(), String> {
    want("item", g, Sym::RuleItem, i.span)?;
    let Ast::RuleItem(inner, opt, alias, clone) = &g.item.item else {
        return Err(format!("an item is {:?}", g.item.item));
    };
    if *opt != i.opt || *alias != i.alias.map(sp) || *clone != i.clone {
        return Err(format!(
            "item at {:?}: expected optional {}, alias {:?}, clone {}; found {opt}, {alias:?}, {clone}",
            i.span, i.opt, i.alias, i.clone
        ));
    }
    match &i.body {
        Body::Lit => {
            want("literal", inner, Sym::StrLit, i.inner)?;
            if inner.item.item == Ast::Token(Sym::StrLit) {
                Ok(())
            } else {
                Err(format!("a literal is {:?}", inner.item.item))
            }
        }
        Body::Path => {
            want("path", inner, Sym::IdentPath, i.inner)?;
            if inner.item.item == Ast::IdentPath(sp(i.inner)) {
                Ok(())
            } else {
                Err(format!("a path at {:?} is {:?}", i.inner, inner.item.item))
            }
        }
        Body::Group(alts) => {
            want("group", inner, Sym::Rule, i.inner)?;
            match &inner.item.item {
                Ast::Rule(v) => alts_eq(alts, v),
                o => Err(format!("a group is {o:?}")),
            }
        }
    }
}

pub fn program_eq(want_p: &[Decl], g: &Gramem) -> Result<(), String> {
    let Ast::Program(v) = &g.item.item else {
        return Err(format!("the result is {:?}", g.item.item));
    };
    if g.ty != Sym::Program {
        return Err(format!("the result has type {:?}", g.ty));
    }
    if v.len() != want_p.len() {
        return Err(format!("{} declarations expected, {} found", want_p.len(), v.len()));
    }
    for (d, g) in want_p.iter().zip(v) {
        match d {
            Decl::Use { path, span } => {
                want("import", g, Sym::Import, *span)?;
                if g.item.item != Ast::Import(sp(*path)) {
                    return Err(format!("import of {path:?} is {:?}", g.item.item));
                }
            }
            Decl::Alias { from, to, span } => {
                want("alias", g, Sym::Alias, *span)?;
                if g.item.item != Ast::Alias(sp(*from), sp(*to)) {
                    return Err(format!("alias of {from:?} to {to:?} is {:?}", g.item.item));
                }
            }
            Decl::Rule { name, ty, alts, span } => {
                want("rule", g, Sym::RuleDecl, *span)?;
                let Ast::RuleDecl((n, t, v)) = &g.item.item else {
                    return Err(format!("a rule is {:?}", g.item.item));
                };
                if *n != sp(*name) || *t != sp(*ty) {
                    return Err(format!("rule with name {name:?} and type {ty:?} has {n:?} and {t:?}"));
                }
                alts_eq(alts, v)?;
            }
        }
    }
    Ok(())
}

/// Runs the real machine on the tokens and compares everything.
fn judge(t: &[Tok], st: &mut Stats) -> Result<(), String> {
    let n = Rc::new(Cell::new(0));
    let src = Count { v: tokens(t).into_iter(), n: n.clone() };
    let (res, items) = sut("the parser", || {
        let mut m = BASE.with(|b| {
            let b = b.get_or_init(|| wop::build_parser(Vec::new().into_iter()));
            lrp::Dfa::new(src, b.table.clone(), b.reductors.clone(), b.eof)
        });
        let mut steps = 0usize;
        let limit = 1000 + 200 * t.len();
        let r = m.trace(|_| {
            steps += 1;
            assert!(steps < limit, "the parser keeps going without reading");
        });
        (r, m.items)
    })?;
    st.runs += 1;
    let k = |i: usize| t.get(i).map_or(Sym::Eof, |t| t.0.sym());
    match (parse(t), res) {
        (Ok(p), Ok(())) => {
            st.out("accepted");
            if items.len() != 1 {
                return Err(format!("accepted with {} symbols on the stack", items.len()));
            }
            program_eq(&p, &items[0])
        }
        (Ok(_), Err(e)) => Err(format!("a valid grammar file is rejected: {e:?}")),
        (Err(i), Ok(())) => Err(format!("accepted although {:?} (token {i}) cannot come there", k(i))),
        (Err(i), Err(lrp::Error::UnexpectedToken(s, _))) => {
            st.out("rejected");
            if s != k(i) {
                return Err(format!("token {i} ({:?}) is the first wrong one, the error names {s:?}", k(i)));
            }
            // everything up to the wrong token has been taken, and nothing after it
            let took = n.get();
            if took != (i + 1).min(t.len()) {
                return Err(format!("token {i} is the first wrong one, but {took} tokens were taken"));
            }
            Ok(())
        }
        (Err(i), Err(e)) => Err(format!("token {i} ({:?}) is wrong; the error is {e:?}", k(i))),
    }
}

/// The tokens written out, with texts of different lengths at different distances.
fn spell(ks: &[K]) -> (String, Vec<Tok>) {
    let mut s = String::new();
    let mut v = Vec::new();
    for (i, k) in ks.iter().enumerate() {
        if i > 0 {
            s.push_str([" ", "\n  ", " ", "/* - */", "\t"][i % 5]);
        }
        let at = s.len();
        s.push_str(match (k, i % 3) {
            (K::Ident, 1) => "name",
            (K::Ident, 2) => "x_1",
            (K::Str, 1) => "\"\\\"\"",
            (K::Str, 2) => "\"long text\"",
            (K::Code, 1) => "->}%",
            _ => k.sample(),
        });
        v.push((*k, (at, s.len())));
    }
    (s, v)
}

pub fn layout(ks: &[K]) -> Vec<Tok> {
    spell(ks).1
}

pub fn text(ks: &[K]) -> String {
    spell(ks).0
}

fn alive(ks: &[K]) -> bool {
    match parse(&layout(ks)) {
        Ok(_) => true,
        Err(i) => i == ks.len(),
    }
}

/// (what comes before the explored part, what comes after it, quick depth, thorough depth)
const CONTEXTS: &[(&str, &str, usize, usize)] = &[
    ("", "", 9, 11),
    ("x : x =", "-> { 1 }% ;", 6, 8),
    ("x : x = x", ";", 6, 8),
    ("x : x = (", ") -> { 1 }% ;", 6, 8),
    ("x : x = x ( x", ") x -> { 1 }% ;", 6, 8),
    ("x : x = ( ( x", ") ) ;", 5, 7),
    ("x : x = x -> { 1 }%", ";", 6, 8),
    ("x : x = ( x )", "-> { 1 }% ;", 6, 8),
    ("x : x = \"s\" ? : &", ";", 5, 7),
    ("use x ;", "", 7, 9),
    ("use x ::", ";", 7, 9),
    ("alias \"s\" x ; x : x = \"s\" ;", "", 7, 9),
];

fn kinds(s: &str) -> Vec<K> {
    lex(s).iter().map(|t| t.0).collect()
}

/// All continuations of a context that some grammar file has, up to the depth.
fn continuations(pre: &[K], depth: usize) -> Vec<Vec<K>> {
    let mut level = vec![pre.to_vec()];
    let mut nodes = level.clone();
    for _ in 0..depth {
        let mut nl = Vec::new();
        for p in &level {
            for k in KINDS {
                let mut q = p.clone();
                q.push(k);
                if alive(&q) {
                    nl.push(q);
                }
            }
        }
        nodes.extend(nl.iter().cloned());
        level = nl;
    }
    nodes
}

/// A set of token sequences, good and bad, for comparing two parsers.
pub fn corpus(thorough: bool) -> Vec<Vec<K>> {
    let mut out = Vec::new();
    for (pre, post, q, t) in CONTEXTS {
        let depth = if thorough { *t - 1 } else { *q - 1 };
        for p in continuations(&kinds(pre), depth) {
            let mut w = p.clone();
            w.extend(kinds(post));
            out.push(w);
            out.push(p);
        }
    }
    for (a, b, z) in &REPEATED[..REPEATED.len() - 2] {
        for n in [2, 9, 17, 65, 130] {
            let mut v = kinds(a);
            for _ in 0..n {
                v.extend(kinds(b));
            }
            v.extend(kinds(z));
            out.push(v.clone());
            v.remove(v.len() / 2);
            out.push(v);
        }
    }
    out
}

/// (what comes before, what is repeated, what comes after): everything that can be repeated
const REPEATED: &[(&str, &str, &str)] = &[
    ("", "use x ;", ""),
    ("use x", ":: x", "; x : x = x ;"),
    ("use x", ":: x", ":: * ;"),
    ("", "alias \"s\" x ;", "x : x = x ;"),
    ("alias x x", ":: x", ";"),
    ("", "x : x = x -> { 1 }% ;", ""),
    ("x : x", ":: x", "= x ;"),
    ("x : x =", "x", "-> { 1 }% ;"),
    ("x : x =", "x ? : & x", ";"),
    ("x : x = x", "| \"s\" x -> { 1 }%", ";"),
    ("x : x = x (", "x :: x : x", ") : & x ;"),
    ("x : x = x ( x", "| x \"s\"", ") ? x ;"),
    ("x : x =", "( x", ""),
    ("x : x = ( x | x", ") ? : x ( x", ") ;"),
];

/// Long files: each repeated part n times, every small n and n around the powers of two, whole and
/// with one wrong token; and tokens that are far apart.
fn long(c: &Ctx, st: &mut Stats) -> Option<Bad> {
    let mut ns: Vec<usize> = (0..=40).collect();
    for k in if c.thorough() { vec![64, 128, 256, 512, 1024, 2048] } else { vec![64, 128, 256] } {
        ns.extend([k - 1, k, k + 1]);
    }
    let nested = REPEATED.len() - 2;
    let file = |i: usize| -> Vec<K> {
        let (r, n) = (i / ns.len(), ns[i % ns.len()]);
        let (a, b, z) = REPEATED[r];
        let mut v = kinds(a);
        for _ in 0..n {
            v.extend(kinds(b));
        }
        if r == nested {
            // groups in groups
            for j in 0..n {
                v.extend(kinds([")", ") ?", ") : x", ") : & x x"][j % 4]));
            }
            v.extend(kinds(if n == 0 { "x ;" } else { ";" }));
        } else {
            v.extend(kinds(z));
        }
        v
    };
    let b = each(
        c,
        "long files: every list and nesting, at every length up to 40 and around the powers of two",
        REPEATED.len() * ns.len(),
        &|i| text(&file(i)),
        &|i, st| {
            let p = file(i);
            st.states += 1;
            st.decided += 1;
            judge(&layout(&p), st)?;
            if p.is_empty() {
                return Ok(());
            }
            for j in [p.len() / 3, p.len() / 2, p.len() - 1] {
                let mut q = p.clone();
                q.remove(j.min(p.len() - 1));
                judge(&layout(&q), st).map_err(|m| format!("without token {j}: {m}"))?;
                let mut q = p.clone();
                q.insert(j, p[j]);
                judge(&layout(&q), st).map_err(|m| format!("with token {j} twice: {m}"))?;
                st.transitions += 2;
            }
            Ok(())
        },
        st,
    );
    if b.is_some() {
        return b;
    }
    // far apart: every place between two tokens of a file, blanks of every length around the powers of two
    let whole = kinds("use x :: x ; alias \"s\" x :: x ; x : x = x ? : & x \"s\" : x x ? x : & x ( x \"s\" ) : & x ( x : x | \"s\" ) ? : & x -> { 1 }% | x :: x ;");
    let gaps: Vec<usize> = [7usize, 8, 10, 12, 15, 16, 17].iter().flat_map(|k| [(1 << k) - 1, 1 << k, (1 << k) + 1]).collect();
    let far = |i: usize| -> String {
        let (at, n) = (i / gaps.len() % (whole.len() + 1), gaps[i % gaps.len()]);
        let t = spell(&whole);
        if at == t.1.len() {
            return t.0;
        }
        let cut = t.1[at].1 .0;
        // blanks before the token, or a longer token if it can be one
        if i >= (whole.len() + 1) * gaps.len() {
            let fill = match whole[at] {
                K::Ident => "x",
                K::Str => "\"s",
                K::Code => "->s",
                _ => return t.0,
            };
            let (head, more) = fill.split_at(fill.len() - 1);
            let skip = if whole[at] == K::Ident { 0 } else { head.len() };
            return format!("{}{head}{}{}", &t.0[..cut], more.repeat(n), &t.0[cut + skip..]);
        }
        format!("{}{}{}", &t.0[..cut], " ".repeat(n), &t.0[cut..])
    };
    each(
        c,
        "long distances: blanks before every token of a file, and every token longer",
        2 * (whole.len() + 1) * gaps.len(),
        &far,
        &|i, st| {
            let src = far(i);
            st.states += 1;
            st.decided += 1;
            st.transitions += 1;
            judge(&lex(&src), st)
        },
        st,
    )
}

pub fn run(c: &Ctx, only: Option<&str>, st: &mut Stats) -> Option<Bad> {
    if let Some(src) = only {
        return judge(&lex(src), st).err().map(|msg| Bad { case: src.to_string(), msg });
    }
    for (pre, post, q, t) in CONTEXTS {
        let depth = if c.thorough() { *t } else { *q };
        let (pre_k, post_k) = (kinds(pre), kinds(post));
        assert!(alive(&pre_k));
        let nodes = continuations(&pre_k, depth);
        let label = format!("all continuations of `{pre}` up to {depth} tokens, each alone, followed by each token, and by `{post}`");
        let b = each(
            c,
            &label,
            nodes.len(),
            &|i| text(&nodes[i]),
            &|i, st| {
                let p = &nodes[i];
                st.states += 1;
                st.decided += 1;
                let mut all = vec![p.clone()];
                for k in KINDS.iter().chain([&K::Err]) {
                    let mut q = p.clone();
                    q.push(*k);
                    st.transitions += 1;
                    if !alive(&q) {
                        // a wrong token, with something after it that must not be read
                        q.push(K::Sc);
                        all.push(q);
                    }
                }
                if !post_k.is_empty() {
                    all.push(p.iter().chain(&post_k).copied().collect());
                }
                for q in all {
                    judge(&layout(&q), st).map_err(|m| format!("{m} [{}]", text(&q)))?;
                }
                Ok(())
            },
            st,
        );
        if b.is_some() {
            return b;
        }
    }
    if let Some(b) = long(c, st) {
        return Some(b);
    }
    // whole files: long lists of declarations and items
    let reps: Vec<Vec<K>> = {
        let units = ["use x ;", "use x :: * ;", "use x :: x ;", "alias x x ;", "alias \"s\" x :: x ;", "x : x = x -> { 1 }% ;", "x : x = x ? | ( x : & x | \"s\" ) ? : x -> { 1 }% ;"];
        let n = if c.thorough() { 4 } else { 3 };
        let mut v: Vec<Vec<K>> = vec![vec![]];
        let mut out = Vec::new();
        for _ in 0..n {
            v = v.iter().flat_map(|p| units.iter().map(|u| p.iter().copied().chain(kinds(u)).collect())).collect();
            out.extend(v.iter().cloned());
        }
        out
    };
    let b = each(
        c,
        "all files of a few declarations, whole and with every token dropped or doubled",
        reps.len(),
        &|i| text(&reps[i]),
        &|i, st| {
            let p = &reps[i];
            st.states += 1;
            st.decided += 1;
            judge(&layout(p), st)?;
            for j in 0..p.len() {
                let mut q = p.clone();
                q.remove(j);
                judge(&layout(&q), st).map_err(|m| format!("{m} [{}]", text(&q)))?;
                let mut q = p.clone();
                q.insert(j, p[j]);
                judge(&layout(&q), st).map_err(|m| format!("{m} [{}]", text(&q)))?;
                st.transitions += 2;
            }
            Ok(())
        },
        st,
    );
    st.samples = vec![text(&reps[reps.len() - 1]), text(&reps[5])];
    b
}
