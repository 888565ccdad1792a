//! Binding to the real crate: symbol encodings, grammar conversion, and controlled runs of the
//! real `Dfa` in which every answer of the token source is a choice of the explorer.

use crate::gram::{is_t, Sy, EOF, G, T0};
use lrp::{Dfa, Error, Grammar, Parser, ReductMap, RuleMap, Token};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Y(pub u16);

impl std::fmt::Debug for Y {
    /// In style 4 all symbols print alike: only `Ord` and `Eq` may tell symbols apart.
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.0 >= ALIKE {
            f.write_str("Y")
        } else {
            write!(f, "Y({})", self.0)
        }
    }
}

/// Symbols from here on print alike.
const ALIKE: u16 = 10000;

/// An assignment of crate-level names to symbols. The order of names is what the crate's ordered
/// maps see, so several encodings are used.
#[derive(Clone, Debug)]
pub struct Enc {
    fwd: Vec<u16>,
    back: BTreeMap<u16, Sy>,
}

impl Enc {
    pub fn style(st: u8) -> Self {
        let f = |s: Sy| -> u16 {
            let t = is_t(s);
            let i = if t { u16::from(s - T0) } else { u16::from(s) };
            match st {
                // eof < terminals < nonterminals
                0 => match s {
                    EOF => 1,
                    _ if t => 10 + i,
                    _ => 300 + i,
                },
                // nonterminals < terminals < eof
                1 => match s {
                    EOF => 900,
                    _ if t => 300 + i,
                    _ => 10 + i,
                },
                // reversed terminals < eof < reversed nonterminals
                2 => match s {
                    EOF => 500,
                    _ if t => 499 - i,
                    _ => 900 - i,
                },
                // eof < nonterminals < terminals, all with the same spelling
                4 => match s {
                    EOF => ALIKE + 1,
                    _ if t => ALIKE + 300 + i,
                    _ => ALIKE + 10 + i,
                },
                // interleaved, eof in the middle, entry last
                _ => match s {
                    EOF => 403,
                    0 => 999,
                    _ if t => 400 + 2 * (if i % 2 == 0 { i } else { 500 - 350 + i }) + 1,
                    _ => 398 + 2 * (i % 2) + 4 * (i / 2) + 2,
                },
            }
        };
        Self::from_fn(f)
    }

    pub fn from_fn(f: impl Fn(Sy) -> u16) -> Self {
        let mut fwd = vec![0; 256];
        let mut back = BTreeMap::new();
        for s in (0..=255u8).filter(|s| *s < 60 || (*s >= T0 && *s < T0 + 60) || *s == EOF) {
            let v = f(s);
            fwd[s as usize] = v;
            assert!(back.insert(v, s).is_none(), "encoding not injective at {s} -> {v}");
        }
        Self { fwd, back }
    }

    pub fn y(&self, s: Sy) -> Y {
        Y(self.fwd[s as usize])
    }

    pub fn back(&self, y: Y) -> Option<Sy> {
        self.back.get(&y.0).copied()
    }

    pub fn back_all<'a>(&self, ys: impl IntoIterator<Item = &'a Y>) -> Vec<Sy> {
        let mut v: Vec<Sy> = ys.into_iter().map(|y| self.back(*y).unwrap_or(254)).collect();
        v.sort_unstable();
        v
    }
}

/// A name no encoding uses.
pub const ALIEN: Y = Y(9999);

pub fn grammar(g: &G, e: &Enc) -> Grammar<Y> {
    let mut m: RuleMap<Y> = RuleMap::new();
    for (n, r) in g.rules.iter().enumerate() {
        let name = e.y(n as Sy);
        let prods: Vec<Vec<Y>> = r.iter().map(|p| p.iter().map(|s| e.y(*s)).collect()).collect();
        m.insert(name, lrp::grammar::Rule::new(name, prods));
    }
    Grammar::new(e.y(0), m, e.y(EOF))
}

/// The token source under the explorer's control.
#[derive(Default, Debug)]
pub struct FeedLog {
    pub polls: Cell<usize>,
    pub ended: Cell<bool>,
    pub polled_after_end: Cell<bool>,
}

pub struct Feed<M> {
    toks: Vec<Token<M, Y>>,
    pos: usize,
    log: Rc<FeedLog>,
}

impl<M: Clone> Feed<M> {
    pub fn new(toks: Vec<Token<M, Y>>) -> (Self, Rc<FeedLog>) {
        let log = Rc::new(FeedLog::default());
        (
            Self {
                toks,
                pos: 0,
                log: log.clone(),
            },
            log,
        )
    }
}

impl<M: Clone> Iterator for Feed<M> {
    type Item = Token<M, Y>;
    fn next(&mut self) -> Option<Self::Item> {
        if self.log.ended.get() {
            self.log.polled_after_end.set(true);
        }
        if self.pos < self.toks.len() {
            self.pos += 1;
            self.log.polls.set(self.log.polls.get() + 1);
            Some(self.toks[self.pos - 1].clone())
        } else {
            self.log.ended.set(true);
            None
        }
    }
}

pub struct StepLimit;

/// Semantic value that records how it was built.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum V {
    Leaf(u16),
    Node(u16, Rc<Vec<(V, Y)>>),
}

thread_local! {
    pub static LOG: RefCell<Vec<u16>> = const { RefCell::new(Vec::new()) };
}

fn red<const P: u16>(toks: &[Token<V, Y>]) -> V {
    LOG.with(|l| l.borrow_mut().push(P));
    V::Node(P, Rc::new(toks.iter().map(|t| (t.item.clone(), t.ty)).collect()))
}

macro_rules! reds {
    ($($n:literal)*) => { [$(red::<$n>),*] };
}
pub const MAXP: usize = 264;
pub const REDS: [lrp::ReductFn<V, Y>; MAXP] = reds!(
    0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23
    24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47
    48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69 70 71
    72 73 74 75 76 77 78 79 80 81 82 83 84 85 86 87 88 89 90 91 92 93 94 95
    96 97 98 99 100 101 102 103 104 105 106 107 108 109 110 111 112 113 114 115 116 117 118 119
    120 121 122 123 124 125 126 127 128 129 130 131 132 133 134 135 136 137 138 139 140 141 142 143
    144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159 160 161 162 163 164 165 166 167
    168 169 170 171 172 173 174 175 176 177 178 179 180 181 182 183 184 185 186 187 188 189 190 191
    192 193 194 195 196 197 198 199 200 201 202 203 204 205 206 207 208 209 210 211 212 213 214 215
    216 217 218 219 220 221 222 223 224 225 226 227 228 229 230 231 232 233 234 235 236 237 238 239
    240 241 242 243 244 245 246 247 248 249 250 251 252 253 254 255 256 257 258 259 260 261 262 263
);

/// Reductors that record the production they belong to (flat index in `G::prods` order).
pub fn recording_map(g: &G, e: &Enc) -> ReductMap<V, Y> {
    let mut m: ReductMap<V, Y> = ReductMap::new();
    for (i, (l, _, _)) in g.prods().iter().enumerate() {
        m.entry(e.y(*l)).or_default().push(REDS[i]);
    }
    m
}

pub fn unit_toks(w: &[Y]) -> Vec<Token<(), Y>> {
    w.iter().map(|t| Token::new((), *t)).collect()
}

pub fn leaf_toks(w: &[Y]) -> Vec<Token<V, Y>> {
    w.iter().enumerate().map(|(i, t)| Token::new(V::Leaf(i as u16), *t)).collect()
}

pub struct Run<M: Clone> {
    pub res: Result<(), Error<Y>>,
    /// tokens handed out
    pub polls: usize,
    /// the run learnt that the input has ended
    pub ended: bool,
    pub polled_after_end: bool,
    /// the step bound was hit
    pub limit: bool,
    pub dfa: Dfa<M, Y, Feed<M>>,
}

/// One controlled run through the public stepping interface.
pub fn run<P: Parser<Y>, M: Clone>(
    p: &P,
    toks: Vec<Token<M, Y>>,
    maps: ReductMap<M, Y>,
    limit: usize,
    mut on_step: impl FnMut(&mut Dfa<M, Y, Feed<M>>),
) -> Run<M> {
    let (feed, log) = Feed::new(toks);
    let mut dfa = p.dfa(feed, maps);
    let mut steps = 0;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        dfa.trace(|d| {
            steps += 1;
            if steps > limit {
                std::panic::panic_any(StepLimit);
            }
            on_step(d);
        })
    }));
    let (res, lim) = match r {
        Ok(r) => (r, false),
        Err(e) => {
            if e.is::<StepLimit>() {
                (Ok(()), true)
            } else {
                std::panic::resume_unwind(e)
            }
        }
    };
    Run {
        res,
        polls: log.polls.get(),
        ended: log.ended.get(),
        polled_after_end: log.polled_after_end.get(),
        limit: lim,
        dfa,
    }
}

pub fn step_limit(g: &G, n: usize) -> usize {
    64 + (n + 2) * 4 * (g.rules.len() + 2)
}
