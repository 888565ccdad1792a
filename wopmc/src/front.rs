//! Reference front end for the grammar language: an independent tokenizer and recursive-descent
//! parser, written from the description of the language.

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum K {
    AliasWord,
    UseWord,
    Assign,
    Pipe,
    Open,
    Close,
    Sc,
    PathAccess,
    Colon,
    Glob,
    Opt,
    Clone,
    Ident,
    Str,
    Code,
    Err,
}

pub const KINDS: [K; 15] = [
    K::AliasWord,
    K::UseWord,
    K::Assign,
    K::Pipe,
    K::Open,
    K::Close,
    K::Sc,
    K::PathAccess,
    K::Colon,
    K::Glob,
    K::Opt,
    K::Clone,
    K::Ident,
    K::Str,
    K::Code,
];

impl K {
    pub fn sample(self) -> &'static str {
        match self {
            Self::AliasWord => "alias",
            Self::UseWord => "use",
            Self::Assign => "=",
            Self::Pipe => "|",
            Self::Open => "(",
            Self::Close => ")",
            Self::Sc => ";",
            Self::PathAccess => "::",
            Self::Colon => ":",
            Self::Glob => "*",
            Self::Opt => "?",
            Self::Clone => "&",
            Self::Ident => "x",
            Self::Str => "\"s\"",
            Self::Code => "-> { 1 }%",
            Self::Err => "!",
        }
    }
    pub fn sym(self) -> wop::Sym {
        use wop::Sym as S;
        match self {
            Self::AliasWord => S::AliasWord,
            Self::UseWord => S::UseWord,
            Self::Assign => S::Assign,
            Self::Pipe => S::Pipe,
            Self::Open => S::OpenParen,
            Self::Close => S::CloseParen,
            Self::Sc => S::Sc,
            Self::PathAccess => S::PathAccess,
            Self::Colon => S::TwoDots,
            Self::Glob => S::Glob,
            Self::Opt => S::Optional,
            Self::Clone => S::Clone,
            Self::Ident => S::Ident,
            Self::Str => S::StrLit,
            Self::Code => S::CodeBlock,
            Self::Err => S::Error,
        }
    }
}

pub type Sp = (usize, usize);
pub type Tok = (K, Sp);

/// Tokens up to the first character sequence that starts no token; that one is reported as `Err`
/// at its position and the scan stops.
pub fn lex(src: &str) -> Vec<Tok> {
    let b = src.as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        let rest = &src[i..];
        let c = rest.chars().next().unwrap();
        if matches!(c, ' ' | '\t' | '\n' | '\r') {
            i += 1;
            continue;
        }
        if rest.starts_with("//") {
            i += rest.find('\n').unwrap_or(rest.len());
            continue;
        }
        if rest.starts_with("/*") {
            if let Some(e) = rest[2..].find("*/") {
                i += 2 + e + 2;
                continue;
            }
            out.push((K::Err, (i, i)));
            return out;
        }
        let (k, n) = if rest.starts_with("->") {
            rest[2..].find("}%").map_or((K::Err, 0), |e| (K::Code, 2 + e + 2))
        } else if c == '"' {
            string(rest).map_or((K::Err, 0), |n| (K::Str, n))
        } else if c.is_ascii_alphabetic() || c == '_' {
            let n = rest.find(|c: char| !(c.is_alphanumeric() || c == '_')).unwrap_or(rest.len());
            match &rest[..n] {
                "alias" => (K::AliasWord, n),
                "use" => (K::UseWord, n),
                _ => (K::Ident, n),
            }
        } else if rest.starts_with("::") {
            (K::PathAccess, 2)
        } else {
            let k = match c {
                '=' => K::Assign,
                '|' => K::Pipe,
                '(' => K::Open,
                ')' => K::Close,
                ';' => K::Sc,
                ':' => K::Colon,
                '*' => K::Glob,
                '?' => K::Opt,
                '&' => K::Clone,
                _ => K::Err,
            };
            (k, 1)
        };
        if k == K::Err {
            out.push((K::Err, (i, i)));
            return out;
        }
        out.push((k, (i, i + n)));
        i += n;
    }
    out
}

/// Length of the string literal `rest` starts with.
fn string(rest: &str) -> Option<usize> {
    let mut it = rest.char_indices().skip(1);
    while let Some((j, c)) = it.next() {
        match c {
            '"' => return Some(j + 1),
            '\\' => {
                let (_, e) = it.next()?;
                if e == '\n' {
                    return None;
                }
            }
            _ => {}
        }
    }
    None
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Body {
    Path,
    Lit,
    Group(Vec<Alt>),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Item {
    pub body: Body,
    /// of the path, the literal, or the alternatives between the parentheses
    pub inner: Sp,
    pub span: Sp,
    pub opt: bool,
    pub alias: Option<Sp>,
    pub clone: bool,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Alt {
    pub items: Vec<Item>,
    pub code: Option<Sp>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Decl {
    Use { path: Sp, span: Sp },
    Alias { from: Sp, to: Sp, span: Sp },
    Rule { name: Sp, ty: Sp, alts: Vec<Alt>, span: Sp },
}

/// `Err(i)`: the token at index `i` (or the end, if `i` is the length) cannot come there.
pub fn parse(t: &[Tok]) -> Result<Vec<Decl>, usize> {
    let mut p = P { t, i: 0 };
    let mut out = Vec::new();
    loop {
        out.push(p.decl()?);
        p.eat(K::Sc)?;
        if p.i == t.len() {
            return Ok(out);
        }
    }
}

struct P<'a> {
    t: &'a [Tok],
    i: usize,
}

impl P<'_> {
    fn at(&self, k: K) -> bool {
        self.t.get(self.i).is_some_and(|t| t.0 == k)
    }
    fn eat(&mut self, k: K) -> Result<Sp, usize> {
        if self.at(k) {
            self.i += 1;
            Ok(self.t[self.i - 1].1)
        } else {
            Err(self.i)
        }
    }
    fn end(&self) -> usize {
        self.t[self.i - 1].1 .1
    }
    fn path(&mut self) -> Result<Sp, usize> {
        let s = self.eat(K::Ident)?.0;
        while self.at(K::PathAccess) {
            self.i += 1;
            self.eat(K::Ident)?;
        }
        Ok((s, self.end()))
    }
    fn decl(&mut self) -> Result<Decl, usize> {
        let s = self.t.get(self.i).ok_or(self.i)?.1 .0;
        if self.at(K::UseWord) {
            self.i += 1;
            let a = self.eat(K::Ident)?.0;
            while self.at(K::PathAccess) {
                self.i += 1;
                if self.at(K::Glob) {
                    self.i += 1;
                    break;
                }
                self.eat(K::Ident)?;
            }
            Ok(Decl::Use { path: (a, self.end()), span: (s, self.end()) })
        } else if self.at(K::AliasWord) {
            self.i += 1;
            let from = if self.at(K::Str) { self.eat(K::Str)? } else { self.eat(K::Ident)? };
            let to = self.path()?;
            Ok(Decl::Alias { from, to, span: (s, self.end()) })
        } else {
            let name = self.path()?;
            self.eat(K::Colon)?;
            let ty = self.path()?;
            self.eat(K::Assign)?;
            let alts = self.alts()?;
            Ok(Decl::Rule { name, ty, alts, span: (s, self.end()) })
        }
    }
    fn alts(&mut self) -> Result<Vec<Alt>, usize> {
        let mut v = Vec::new();
        loop {
            let mut items = vec![self.item()?];
            while self.at(K::Ident) || self.at(K::Str) || self.at(K::Open) {
                items.push(self.item()?);
            }
            let code = if self.at(K::Code) { Some(self.eat(K::Code)?) } else { None };
            v.push(Alt { items, code });
            if !self.at(K::Pipe) {
                return Ok(v);
            }
            self.i += 1;
        }
    }
    fn item(&mut self) -> Result<Item, usize> {
        let s = self.t.get(self.i).ok_or(self.i)?.1 .0;
        let (body, inner) = if self.at(K::Open) {
            self.i += 1;
            let a = self.t.get(self.i).ok_or(self.i)?.1 .0;
            let alts = self.alts()?;
            let e = self.end();
            self.eat(K::Close)?;
            (Body::Group(alts), (a, e))
        } else if self.at(K::Str) {
            (Body::Lit, self.eat(K::Str)?)
        } else {
            (Body::Path, self.path()?)
        };
        let opt = self.at(K::Opt);
        if opt {
            self.i += 1;
        }
        let (mut alias, mut clone) = (None, false);
        if self.at(K::Colon) {
            self.i += 1;
            if self.at(K::Clone) {
                self.i += 1;
                clone = true;
            }
            alias = Some(self.eat(K::Ident)?);
        }
        Ok(Item { body, inner, span: (s, self.end()), opt, alias, clone })
    }
}
