//! Enumeration of rule bodies: all nestings of leaves and groups up to a size, with every
//! combination of `?`, `:name` and `:&name`.

#[derive(Clone, Debug)]
pub enum Node {
    Leaf,
    Group(Vec<Vec<D>>),
}

/// A node with its decorations. `alias`: 0 none, 1 `:a`, 2 `:&a`.
#[derive(Clone, Debug)]
pub struct D {
    pub node: Node,
    pub opt: bool,
    pub alias: u8,
}

/// All undecorated sequences with `n` nodes in total and groups nested at most `depth` deep.
fn seqs(n: usize, depth: usize) -> Vec<Vec<D>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = Vec::new();
    for k in 1..=n {
        for it in items(k, depth) {
            for rest in seqs(n - k, depth) {
                let mut v = vec![it.clone()];
                v.extend(rest);
                out.push(v);
            }
        }
    }
    out
}

fn items(n: usize, depth: usize) -> Vec<D> {
    let d = |node| D { node, opt: false, alias: 0 };
    if n == 1 {
        return vec![d(Node::Leaf)];
    }
    if depth == 0 {
        return Vec::new();
    }
    alts(n - 1, depth - 1).into_iter().map(|a| d(Node::Group(a))).collect()
}

/// All ways to split `n` nodes into one or more non-empty alternatives.
fn alts(n: usize, depth: usize) -> Vec<Vec<Vec<D>>> {
    let mut out = Vec::new();
    for k in 1..=n {
        for first in seqs(k, depth) {
            if k == n {
                out.push(vec![first]);
            } else {
                for rest in alts(n - k, depth) {
                    let mut v = vec![first.clone()];
                    v.extend(rest);
                    out.push(v);
                }
            }
        }
    }
    out
}

/// Sets the decorations of all nodes, in order.
fn decorate(s: &mut [D], next: &mut dyn FnMut() -> (bool, u8)) {
    for d in s {
        (d.opt, d.alias) = next();
        if let Node::Group(a) = &mut d.node {
            for x in a {
                decorate(x, next);
            }
        }
    }
}

/// Which decorations to combine: (with or without `?`, how many alias forms).
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Deco {
    /// `?` or not, no alias
    Opt,
    /// `?` or not, no alias / `:a` / `:&a`
    All,
    /// `?` or not, and exactly one node with an alias, of either form
    OneAlias,
}

/// All decorated sequences of `n` nodes whose expansions are all non-empty.
pub fn bodies(n: usize, depth: usize, deco: Deco) -> Vec<Vec<D>> {
    let mut out = Vec::new();
    for s in seqs(n, depth) {
        let base: usize = if deco == Deco::All { 6 } else { 2 };
        let extra = if deco == Deco::OneAlias { 2 * n } else { 1 };
        for e in 0..extra {
            for c in 0..base.pow(n as u32) {
                let mut t = s.clone();
                let (mut c, mut i) = (c, 0);
                decorate(&mut t, &mut || {
                    let mut r = (c % base % 2 == 1, ((c % base) / 2) as u8);
                    if deco == Deco::OneAlias && e / 2 == i {
                        r.1 = 1 + (e % 2) as u8;
                    }
                    c /= base;
                    i += 1;
                    r
                });
                if !can_be_empty(&t) {
                    out.push(t);
                }
            }
        }
    }
    out
}

pub fn can_be_empty(s: &[D]) -> bool {
    s.iter().all(|d| {
        d.opt
            || match &d.node {
                Node::Leaf => false,
                Node::Group(a) => a.iter().any(|x| can_be_empty(x)),
            }
    })
}

pub const LEAVES: usize = 24;
pub const STYLES: u8 = 7;
/// The style in which every leaf is a path.
pub const PATHS: u8 = 4;

/// A leaf is a path `S3`, a literal with an alias `"s3"`, a plain literal `"l3"` or a word with an
/// alias `w3` (see `aliases`).
/// `style` 0..4: a mixture, shifted; 4: all paths; 5: two texts in turn; 6: always the same word.
fn leaf(k: usize, style: u8) -> String {
    let k = k % LEAVES;
    match style {
        PATHS => return format!("S{k}"),
        5 => return leaf(k % 2, 0),
        6 => return leaf(0, 3),
        _ => (),
    }
    match (style as usize + k) % 4 {
        0 => format!("S{k}"),
        1 => format!("\"s{k}\""),
        2 => format!("\"l{k}\""),
        _ => format!("w{k}"),
    }
}

/// Declarations of the aliases a text needs, and of one or two it does not.
pub fn aliases(text: &str) -> String {
    let n = (0..LEAVES).filter(|k| text.contains(&format!("\"s{k}\"")) || text.contains(&format!("w{k}"))).max().map_or(0, |k| k + 1);
    (0..=n.min(LEAVES - 1)).map(|k| format!("alias \"s{k}\" S{k};\nalias w{k} S{k};\n")).collect()
}

fn lf(alias: u8) -> D {
    D { node: Node::Leaf, opt: false, alias }
}

fn leaves(n: usize) -> Vec<D> {
    (0..n).map(|_| lf(0)).collect()
}

fn group(alts: Vec<Vec<D>>, opt: bool, alias: u8) -> D {
    D { node: Node::Group(alts), opt, alias }
}

/// Bodies of certain forms far larger than the ones enumerated in full. `big`: 0, 1 or 2.
pub fn long(big: usize) -> Vec<(String, Vec<Vec<D>>)> {
    let mut fams = Vec::new();
    // a row with a group somewhere in it
    let top = [8, 10, 14][big];
    let mut v = Vec::new();
    for n in 4..=top {
        for i in 0..n {
            for j in i + 1..=n {
                for form in 0..3 {
                    for opt in [false, true] {
                        let mut r = leaves(i);
                        r.push(group(vec![leaves(j - i)], opt, form));
                        r.extend(leaves(n - j));
                        if j < n {
                            r.last_mut().unwrap().alias = 1 + form % 2;
                        }
                        v.push(r);
                    }
                }
            }
        }
    }
    fams.push((format!("rows of up to {top} items with a group over any stretch of them"), v));
    // two alternatives of any lengths
    let (len, around) = [(4, 2), (6, 3), (8, 4)][big];
    let mut v = Vec::new();
    for a in 1..=len {
        for b in 1..=len {
            for p in 0..=around {
                for s in 0..=around {
                    for opt in [false, true] {
                        let form = ((a + b + p + s) % 3) as u8;
                        let mut r = leaves(p);
                        r.push(group(vec![leaves(a), leaves(b)], opt, form));
                        if let Node::Group(x) = &mut r[p].node {
                            x[0][a - 1].alias = (form + 1) % 3;
                            x[1][0].alias = (form + 1) % 3;
                        }
                        r.extend(leaves(s));
                        if s > 0 {
                            r.last_mut().unwrap().alias = 1 + form % 2;
                        }
                        v.push(r);
                    }
                }
            }
        }
    }
    fams.push((format!("groups of two alternatives of up to {len} items each, {around} before and after"), v));
    // many optional items
    let top = [5, 7, 9][big];
    let mut v = Vec::new();
    for n in 4..=top {
        for bits in 0..1usize << n {
            let r: Vec<D> = (0..n).map(|i| D { node: Node::Leaf, opt: bits >> i & 1 == 1, alias: ((i + bits) % 3) as u8 }).collect();
            v.push(r.clone());
            // the same as optional groups, all named
            v.push(r.into_iter().map(|d| group(vec![vec![lf((d.alias + 1) % 3)]], d.opt, 1 + d.alias % 2)).collect());
        }
    }
    fams.push((format!("up to {top} items, optional or not"), v));
    // deep nesting
    let top = [5, 7, 9][big];
    let mut v = Vec::new();
    for n in 2..=top {
        for bits in 0..1usize << n {
            for shape in 0..4 {
                let mut g = vec![lf(1)];
                for i in 0..n {
                    let form = ((i + shape) % 3) as u8;
                    let mut alts = vec![g];
                    match shape {
                        0 => alts[0].push(lf(form)),
                        1 => alts[0].insert(0, lf(form)),
                        2 => alts.push(vec![lf(form)]),
                        _ => alts.insert(0, vec![lf(0), lf(form)]),
                    }
                    g = vec![group(alts, bits >> i & 1 == 1, (form + 1) % 3)];
                }
                g.push(lf(2));
                v.push(g);
            }
        }
    }
    fams.push((format!("groups nested up to {top} deep"), v));
    // wide groups
    let top = [6, 10, 16][big];
    let mut v = Vec::new();
    for m in 3..=top {
        for named in 0..=m {
            for form in 0..3 {
                for opt in [false, true] {
                    // the `named`th alternative has two items, the rest one
                    let alts = (0..m).map(|k| if k == named { vec![lf(1), lf(2)] } else { vec![lf(((k + form as usize) % 3) as u8)] }).collect();
                    v.push(vec![lf(1), group(alts, opt, form), lf(2)]);
                }
            }
        }
    }
    fams.push((format!("groups of up to {top} alternatives"), v));
    // two groups, one behind the other
    let top = [2, 3, 4][big];
    let mut v = Vec::new();
    for a in 1..=top {
        for b in 1..=top {
            for c in 1..=top {
                for d in 1..=top {
                    for k in 0..16usize {
                        let gr = |x: usize, y: usize, opt: bool, f: u8| group(vec![leaves(x), leaves(y)], opt, f);
                        let mut r = vec![lf(0), gr(a, b, k & 1 == 1, 1 + (k >> 2 & 1) as u8), gr(c, d, k & 2 == 2, 1 + (k >> 3 & 1) as u8), lf(1)];
                        if k & 1 == 0 {
                            r.remove(0);
                        }
                        v.push(r);
                    }
                }
            }
        }
    }
    fams.push((format!("two groups of two alternatives of up to {top} items"), v));
    for f in &mut fams {
        f.1.retain(|b| !can_be_empty(b));
    }
    fams
}

/// Bodies of very many items, and bodies that stand for very many productions.
pub fn huge(compiled: bool, thorough: bool) -> Vec<(String, Vec<Vec<D>>)> {
    let mut ns: Vec<usize> = vec![15, 16, 17, 31, 32, 33, 63, 64, 65];
    if !compiled || thorough {
        ns.extend([127, 128, 129, 255, 256, 257, 300]);
    }
    let mut v = Vec::new();
    for &n in &ns {
        // the named item at the beginning, in the middle, before the last and last
        for at in [0, n / 2, n - 2, n - 1] {
            for form in 1..=2 {
                let mut r = leaves(n);
                r[at].alias = form;
                v.push(r.clone());
                r[at].opt = true;
                v.push(r.clone());
                r[n - 1].alias = 3 - form;
                v.push(r);
                // a named group of two, and one with something named inside
                let mut r = leaves(n);
                r[at] = group(vec![vec![lf(0), lf(form)], vec![lf(form)]], false, form);
                v.push(r.clone());
                r[at].opt = true;
                v.push(r);
            }
        }
        for form in 0..=2 {
            for opt in [false, true] {
                // a group of all of them, and a group of as many alternatives
                v.push(vec![lf(1), group(vec![leaves(n)], opt, form), lf(2)]);
                v.push(vec![lf(1), group((0..n).map(|_| vec![lf(form)]).collect(), opt, 1), lf(2)]);
            }
        }
    }
    let mut fams = vec![(format!("rows and groups of up to {} items", ns[ns.len() - 1]), v)];
    let mut v = Vec::new();
    let top = if compiled { 7 } else { 10 };
    for n in if compiled { 7 } else { 6 }..=top {
        for form in 0..=2u8 {
            let d = |node: D| D { opt: true, ..node };
            // n optional items; n groups of two alternatives; groups of two in groups of two
            let mut r = vec![lf(1)];
            r.extend((0..n).map(|i| d(lf(if i % 3 == 0 { form } else { 0 }))));
            v.push(r);
            let mut r: Vec<D> = (0..n).map(|i| group(vec![leaves(1), leaves(2)], false, if i % 3 == 0 { form } else { 0 })).collect();
            r.push(lf(form));
            v.push(r);
            let mut g = vec![lf(form)];
            for i in 0..n {
                g = vec![group(vec![g.clone(), vec![lf(0)]], i % 2 == 0, 0), d(lf(0))];
            }
            g.push(lf(1));
            v.push(g);
        }
    }
    fams.push((format!("bodies of up to {} productions", 1 << top), v));
    fams
}

/// Writes a body; returns it with the names it binds. With `shared`, named leaves of the same form
/// in different alternatives of a group bear the same name.
pub fn write(s: &[D], style: u8, shared: bool) -> (String, Vec<String>) {
    let mut w = W { leaf: 0, alias: 0, names: Vec::new(), style, shared };
    let t = w.seq(s, None);
    w.names.sort();
    w.names.dedup();
    (t, w.names)
}

const NAMES: [&str; 10] = ["a", "A", "_a", "a_", "aa", "Aa", "aA", "_a_", "a1", "a_1"];

struct W {
    leaf: usize,
    alias: usize,
    names: Vec<String>,
    style: u8,
    shared: bool,
}

impl W {
    fn fresh(&mut self) -> String {
        self.alias += 1;
        let k = self.alias - 1;
        // names that begin alike, in either order, or differ in little else than case
        match self.style % 4 {
            1 => "n".repeat(k + 1),
            2 if k < 40 => "n".repeat(40 - k),
            3 if k < NAMES.len() => NAMES[k].to_string(),
            _ => format!("a{k}"),
        }
    }

    /// `share`: the first named leaf of the form gets this name
    fn seq(&mut self, s: &[D], mut share: Option<&(String, u8)>) -> String {
        let mut o = Vec::new();
        for d in s {
            let leaf_node = matches!(d.node, Node::Leaf);
            let name = match share {
                _ if d.alias == 0 => None,
                Some((n, f)) if leaf_node && *f == d.alias => {
                    share = None;
                    Some(n.clone())
                }
                _ => Some(self.fresh()),
            };
            let mut t = match &d.node {
                Node::Leaf => {
                    self.leaf += 1;
                    leaf(self.leaf - 1, self.style)
                }
                Node::Group(alts) => {
                    let first = |a: &[D]| a.iter().find(|d| d.alias > 0 && matches!(d.node, Node::Leaf)).map(|d| d.alias);
                    let form = alts.iter().find_map(|a| first(a));
                    let sh = match form {
                        Some(f) if self.shared && alts.len() > 1 => Some((self.fresh(), f)),
                        _ => None,
                    };
                    let v: Vec<String> = alts.iter().map(|a| self.seq(a, sh.as_ref())).collect();
                    format!("({})", v.join(" | "))
                }
            };
            if d.opt {
                t.push('?');
            }
            if let Some(n) = name {
                t.push_str(if d.alias == 2 { ":&" } else { ":" });
                t.push_str(&n);
                self.names.push(n);
            }
            o.push(t);
        }
        o.join(" ")
    }
}
