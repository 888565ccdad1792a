//! C15: the lexer against the reference tokenizer, on every string of pieces up to a length.

use crate::ex::{each, sut, Bad, Ctx, Stats};
use crate::front::{lex as reference, K};

struct Fam {
    label: &'static str,
    /// the strings are `pre` + any sequence of `len` pieces + `post`
    pre: &'static str,
    post: &'static str,
    pieces: &'static [&'static str],
    len: (usize, usize),
}

const FAMS: &[Fam] = &[
    Fam { label: "comments", pre: "", post: "", pieces: &["/", "*", "a", "\n", " "], len: (9, 10) },
    Fam { label: "inside a block comment", pre: "x/*", post: "*/y", pieces: &["/", "*", "a", "\n", "\"", "é"], len: (8, 9) },
    Fam { label: "line comments", pre: "x//", post: "\ny", pieces: &["/", "*", "a", "\r", "\n", "\"", "é"], len: (7, 8) },
    Fam { label: "strings", pre: "", post: "", pieces: &["\"", "\\", "a", "\n", "/", "*"], len: (8, 9) },
    Fam { label: "inside a string", pre: "x\"", post: "\"y", pieces: &["\\", "\"", "n", "\n", "//", "é", "}%"], len: (7, 8) },
    Fam { label: "code blocks", pre: "", post: "", pieces: &["->", "}", "%", "{", "a", " "], len: (8, 9) },
    Fam { label: "inside a code block", pre: "x->", post: "}%;y", pieces: &["}", "%", "{", "\n", "->", "\"", "/*", "é"], len: (7, 8) },
    Fam { label: "punctuation", pre: "", post: "", pieces: &[":", "=", "|", "(", ")", ";", "*", "?", "&", "-", ">", "/", "a", " "], len: (6, 7) },
    Fam { label: "words", pre: "", post: "", pieces: &["alias", "use", "al", "ias", "u", "s", "e", "_", "9", "A", " ", ":"], len: (6, 7) },
    Fam { label: "keywords in either case", pre: "", post: "", pieces: &["u", "U", "s", "S", "e", "E", " "], len: (5, 6) },
    Fam { label: "keywords in either case", pre: "", post: "", pieces: &["a", "A", "l", "L", "i", "I", "s", "S"], len: (5, 6) },
    Fam { label: "odd characters", pre: "", post: "", pieces: &["a", "é", "中", " ", "\t", "\r", "\n", "#", "{", "\u{0}", "%", "x9"], len: (6, 7) },
    Fam {
        label: "token sequences without separators",
        pre: "",
        post: "",
        pieces: &["alias", "use", "=", "|", "(", ")", ";", "::", ":", "*", "?", "&", "x", "\"s\"", "/*c*/", "//c\n", "-> { 1 }%", " "],
        len: (4, 5),
    },
];

fn judge(src: &str, st: &mut Stats) -> Result<(), String> {
    let want = reference(src);
    let got: Vec<(wop::Sym, usize, usize)> = sut("the lexer", || {
        let mut v = Vec::new();
        for t in wop::lexer(src) {
            let s = t.item.span;
            match &t.item.item {
                wop::Ast::Token(k) if *k == t.ty => {}
                o => panic!("a token of type {:?} carries {o:?}", t.ty),
            }
            v.push((t.ty, s.start, s.end));
            if v.len() > src.len() + 2 {
                panic!("more tokens than characters");
            }
        }
        v
    })?;
    st.runs += 1;
    st.decided += 1;
    st.states += src.len() as u64 + 1;
    st.transitions += got.len() as u64;
    let show = |k: wop::Sym, a: usize, b: usize| format!("{k:?} at {a}..{b} {:?}", src.get(a..b).unwrap_or("?"));
    let mut last = 0;
    for (k, a, b) in &got {
        if *a < last || b <= a || *b > src.len() || src.get(*a..*b).is_none() {
            return Err(format!("token {k:?} spans {a}..{b}, which does not follow {last} or is no part of the source"));
        }
        last = *b;
    }
    for (i, (k, (a, b))) in want.iter().enumerate() {
        let g = got.get(i);
        if *k == K::Err {
            st.out("no token possible");
            return match g {
                Some((wop::Sym::Error, s, _)) if s == a => Ok(()),
                Some(g) => Err(format!("no token starts at {a}; the lexer gives {}", show(g.0, g.1, g.2))),
                None => Err(format!("no token starts at {a}; the lexer ends without an error token")),
            };
        }
        match g {
            Some((s, x, y)) if *s == k.sym() && x == a && y == b => {}
            Some(g) => return Err(format!("expected {}, the lexer gives {}", show(k.sym(), *a, *b), show(g.0, g.1, g.2))),
            None => return Err(format!("expected {}, the lexer has ended", show(k.sym(), *a, *b))),
        }
    }
    st.out("all tokens");
    match got.get(want.len()) {
        None => Ok(()),
        Some(g) => Err(format!("expected the end, the lexer gives {}", show(g.0, g.1, g.2))),
    }
}

pub fn run(c: &Ctx, only: Option<&str>, st: &mut Stats) -> Option<Bad> {
    if let Some(src) = only {
        return judge(src, st).err().map(|msg| Bad { case: src.to_string(), msg });
    }
    for f in FAMS {
        let len = if c.thorough() { f.len.1 } else { f.len.0 };
        let k = f.pieces.len();
        // the strings of at most `len` pieces, numbered by length, then by digits
        let count: usize = (0..=len).map(|l| k.pow(l as u32)).sum();
        let text = |mut i: usize| {
            let mut l = 0;
            while i >= k.pow(l) {
                i -= k.pow(l);
                l += 1;
            }
            let mut d = Vec::new();
            for _ in 0..l {
                d.push(f.pieces[i % k]);
                i /= k;
            }
            d.reverse();
            format!("{}{}{}", f.pre, d.concat(), f.post)
        };
        let b = each(c, &format!("{}: all sequences of at most {len} of {:?}", f.label, f.pieces), count, &text, &|i, st| judge(&text(i), st), st);
        if b.is_some() {
            return b;
        }
    }
    // tokens and gaps of every length
    let lens: Vec<usize> = (1..=if c.thorough() { 1100 } else { 300 }).chain([511, 512, 1023, 1024, 4095, 4096, 65535, 65536, 70000]).collect();
    const LONG: &[(&str, &str, &str)] = &[
        ("a ", "x", " b"),
        ("a", "\u{e9}", " b"),
        ("a _", "9", ";b"),
        ("a \"", "x", "\" b"),
        ("a \"", "\u{4e2d}", "\" b"),
        ("a \"", "\\\"", "\" b"),
        ("a ->{ ", "x", " }% b"),
        ("a ->{ ", "{}", " }% b"),
        ("a ->{ ", "}", "% b"),
        ("a ->{ ", "\n\u{1f642}", " }% b"),
        ("a /*", "*", "/ b"),
        ("a /*", "x\u{e9}", "*/ b"),
        ("a //", "x", "\nb"),
        ("a //", "/", "\nb"),
        ("a", " ", "b"),
        ("a", "\r\n", "b"),
        ("a", ":", "b"),
        ("a", "(", "b"),
        ("a", "/**/", "b"),
    ];
    let text = |i: usize| {
        let (a, x, b) = LONG[i % LONG.len()];
        format!("{a}{}{b}", x.repeat(lens[i / LONG.len()]))
    };
    let b = each(c, "tokens, comments and gaps of every length", lens.len() * LONG.len(), &text, &|i, st| judge(&text(i), st), st);
    if b.is_some() {
        return b;
    }
    // every character there is, wherever one can stand (what beyond ASCII continues an identifier
    // is decided for the letters of the Latin blocks only)
    const AROUND: &[(&str, &str)] =
        &[("", ""), (" ", "x"), ("x", ";"), ("\"", "\" y"), ("\"\\", "\" y"), ("/*", "*/y"), ("/*", "/*/y"), ("//", "\ny"), ("->", "}%y"), ("->}", "}%y"), ("-", ""), (":", ":")];
    let all: Vec<char> = ('\0'..=char::MAX).collect();
    let text = |i: usize| format!("{}{}{}", AROUND[i % AROUND.len()].0, all[i / AROUND.len()], AROUND[i % AROUND.len()].1);
    let b = each(
        c,
        &format!("every character between each of {AROUND:?}"),
        all.len() * AROUND.len(),
        &text,
        &|i, st| {
            let ch = all[i / AROUND.len()];
            if AROUND[i % AROUND.len()].0 == "x" && !ch.is_ascii() && !(ch.is_alphabetic() && ch < '\u{2f0}') {
                return Ok(());
            }
            judge(&text(i), st)
        },
        st,
    );
    if b.is_some() {
        return b;
    }
    st.samples = vec!["x/***/y".into(), "-> { {}}%".into(), "\"\\\"\"".into()];
    None
}
