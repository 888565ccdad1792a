//! C26: the step operations of the machine, in every order, against a model of the machine.

use crate::engine::{sut, Stats};
use crate::gram::{str_name, Sy, EOF, G, T0};
use crate::props::{hash, run_kinds, with, AnyP, Cfg, R};
use crate::sut::*;
use lrp::{Action, Dfa, Error, Parser, Token};
use std::collections::HashSet;
use std::rc::Rc;

type Toks = Vec<Token<V, Y>>;
type Real = Dfa<V, Y, std::vec::IntoIter<Token<V, Y>>>;

/// The machine as documented.
#[derive(Clone, PartialEq, Eq, Hash)]
struct Model {
    states: Vec<usize>,
    items: Vec<(V, Y)>,
    top: usize,
    finished: bool,
    /// the input (by number) and how much of it was consumed
    word: usize,
    pos: usize,
    /// an operation failed half way: only starting over is specified
    broken: bool,
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Shift(usize),
    Goto(usize),
    Accept,
    Travel(Y),
    Reduce(usize),
    Reset,
    Start,
    Parse(usize),
}

#[derive(Debug, PartialEq, Eq)]
enum Out {
    Done,
    Value(V),
    Fails(Error<Y>),
    /// one of two errors
    Either(Error<Y>, Error<Y>),
}

struct World<'a> {
    words: &'a [Vec<Y>],
    actions: &'a lrp::ActTable<Y>,
    prods: &'a [(Y, Rc<lrp::Production<Y>>)],
    eof: Y,
}

fn number(w: &World, name: Y, prod: &lrp::Production<Y>) -> Option<u16> {
    w.prods.iter().position(|(n, p)| *n == name && p.1 == prod.1).map(|i| i as u16)
}

impl Model {
    fn new(word: usize) -> Self {
        Self { states: vec![0], items: vec![], top: 0, finished: false, word, pos: 0, broken: false }
    }

    fn peek(&self, w: &World) -> Option<Y> {
        w.words[self.word].get(self.pos).copied()
    }

    fn reset(&mut self) {
        self.states = vec![0];
        self.items.clear();
        self.top = 0;
        self.finished = false;
        self.broken = false;
    }

    fn shift(&mut self, to: usize, w: &World) -> Out {
        let Some(t) = self.peek(w) else { return Out::Fails(Error::UnexpectedEof) };
        self.items.push((V::Leaf(self.pos as u16), t));
        self.pos += 1;
        self.states.push(to);
        self.top = to;
        Out::Done
    }

    fn accept(&mut self, w: &World) -> Out {
        if self.peek(w).is_none() {
            self.finished = true;
            Out::Done
        } else {
            self.broken = true;
            Out::Fails(Error::IncompleteExec)
        }
    }

    fn reduce(&mut self, name: Y, prod: &lrp::Production<Y>, w: &World) -> Out {
        let n = prod.0.len();
        let few_items = self.items.len() < n;
        let few_states = self.states.len() <= n;
        if few_items || few_states {
            self.broken = true;
            return match (few_items, few_states) {
                (true, true) => Out::Either(Error::UnexpectedEof, Error::MissingPreviousState),
                (true, false) => Out::Fails(Error::UnexpectedEof),
                _ => Out::Fails(Error::MissingPreviousState),
            };
        }
        let args = self.items.split_off(self.items.len() - n);
        self.items.push((V::Node(number(w, name, prod).unwrap(), Rc::new(args)), name));
        self.states.truncate(self.states.len() - n);
        self.top = *self.states.last().unwrap();
        match w.actions.get(self.top).and_then(|r| r.get(&name)) {
            Some(Action::Goto(to)) => {
                self.states.push(*to);
                self.top = *to;
                Out::Done
            }
            _ => {
                self.broken = true;
                Out::Fails(Error::MissingPreviousState)
            }
        }
    }

    fn travel(&mut self, s: Y, w: &World) -> Out {
        let Some(row) = w.actions.get(self.top) else { return Out::Fails(Error::StateNotSpecified) };
        match row.get(&s) {
            Some(Action::Shift(to)) => self.shift(*to, w),
            Some(Action::Reduce(name, prod)) => self.reduce(*name, prod, w),
            Some(Action::Acc) => self.accept(w),
            Some(Action::Conflict(a, b)) => Out::Fails(Error::Conflict((**a).clone(), (**b).clone())),
            Some(Action::Goto(_)) | None => {
                let ex = row.iter().filter(|(_, a)| !matches!(a, Action::Goto(_))).map(|(t, _)| *t).collect();
                Out::Fails(Error::UnexpectedToken(s, ex))
            }
        }
    }

    /// `None`: it goes on and on.
    fn start(&mut self, w: &World) -> Option<(Out, usize)> {
        for n in 0..200 {
            if self.finished {
                return Some((Out::Done, n));
            }
            let s = self.peek(w).unwrap_or(w.eof);
            match self.travel(s, w) {
                Out::Done => {}
                o => return Some((o, n + 1)),
            }
        }
        None
    }

    fn apply(&mut self, op: Op, w: &World) -> Option<(Out, usize)> {
        Some(match op {
            Op::Shift(to) => (self.shift(to, w), 0),
            Op::Goto(to) => {
                self.states.push(to);
                self.top = to;
                (Out::Done, 0)
            }
            Op::Accept => (self.accept(w), 0),
            Op::Travel(s) => (self.travel(s, w), 0),
            Op::Reduce(i) => {
                let (n, p) = &w.prods[i];
                (self.reduce(*n, &p.clone(), w), 0)
            }
            Op::Reset => {
                self.reset();
                (Out::Done, 0)
            }
            Op::Start => return self.start(w),
            Op::Parse(i) => {
                self.reset();
                self.word = i;
                self.pos = 0;
                let (o, n) = self.start(w)?;
                if o == Out::Done {
                    let v = self.items.pop().map(|x| x.0);
                    self.reset();
                    (v.map_or(Out::Fails(Error::MissingPreviousState), Out::Value), n)
                } else {
                    self.broken = true;
                    (o, n)
                }
            }
        })
    }
}

fn toks(w: &[Y]) -> Toks {
    leaf_toks(w)
}

/// The operation on the real machine: its result, and how often the callback of a run was called.
fn real_op(d: &mut Real, op: Op, w: &World) -> (Out, usize) {
    let (mut o, n) = real_op_as_is(d, op, w);
    // the order in which expected tokens are listed says nothing
    if let Out::Fails(Error::UnexpectedToken(_, ex)) = &mut o {
        ex.sort();
    }
    (o, n)
}

fn real_op_as_is(d: &mut Real, op: Op, w: &World) -> (Out, usize) {
    let unit = |r: Result<(), Error<Y>>| match r {
        Ok(()) => Out::Done,
        Err(e) => Out::Fails(e),
    };
    match op {
        Op::Shift(to) => (unit(d.shift(to)), 0),
        Op::Goto(to) => (unit(d.goto(to)), 0),
        Op::Accept => (unit(d.accept()), 0),
        Op::Travel(s) => (unit(d.travel(&s)), 0),
        Op::Reduce(i) => {
            let (n, p) = &w.prods[i];
            (unit(d.reduce(n, p)), 0)
        }
        Op::Reset => {
            d.reset();
            (Out::Done, 0)
        }
        Op::Start => {
            let mut n = 0;
            let r = d.trace(|_| {
                n += 1;
                assert!(n <= 400, "the run does not end");
            });
            (unit(r), n)
        }
        Op::Parse(i) => match d.parse(toks(&w.words[i]).into_iter()) {
            Ok(v) => (Out::Value(v), 0),
            Err(e) => (Out::Fails(e), 0),
        },
    }
}

fn same(m: &Model, d: &Real, w: &World) -> R {
    let items: Vec<(V, Y)> = d.items.iter().map(|t| (t.item.clone(), t.ty)).collect();
    if d.states != m.states || d.top != m.top {
        return Err(format!("states {:?} top {} instead of {:?} top {}", d.states, d.top, m.states, m.top));
    }
    if items != m.items {
        return Err(format!("symbols {items:?} instead of {:?}", m.items));
    }
    if d.finished != m.finished {
        return Err(format!("finished is {}", d.finished));
    }
    let left: Vec<Y> = d.buffer.clone().map(|t| t.ty).collect();
    let want = &w.words[m.word][m.pos..];
    if left != want {
        return Err(format!("{} tokens are left instead of {}", left.len(), want.len()));
    }
    Ok(())
}

/// All operation sequences up to a depth on the parser's machine, from every configuration on the
/// run of every word.
/// Configurations already reached at the same or a smaller depth are not continued again.
fn explore(p: &AnyP, words: &[Vec<Y>], syms: &[Y], all_syms: &str, g: &G, e: &Enc, depth: usize, nodes: usize, st: &mut Stats) -> R {
    let t = p.tables();
    let prods: Vec<(Y, Rc<lrp::Production<Y>>)> =
        g.prods().iter().map(|(l, _, i)| (e.y(*l), t.grammar.rules[&e.y(*l)].prods[*i].clone())).collect();
    let w = World { words, actions: &t.actions, prods: &prods, eof: e.y(EOF) };
    let n = t.actions.len();
    let to: Vec<usize> = if n <= 6 { (0..=n).collect() } else { vec![0, 1, n / 2, n - 1, n] };
    let mut ops = vec![Op::Accept, Op::Reset, Op::Start];
    ops.extend(syms.iter().map(|s| Op::Travel(*s)));
    ops.extend((0..prods.len()).map(Op::Reduce));
    ops.extend((0..words.len()).map(Op::Parse));
    ops.extend(to.iter().map(|t| Op::Shift(*t)));
    ops.extend(to.iter().map(|t| Op::Goto(*t)));
    let mut seen: HashSet<u64> = HashSet::new();
    // from a fresh machine for every word, and from every configuration on its run
    let mut level: Vec<(Model, Real, Vec<Op>)> = Vec::new();
    for i in 0..words.len() {
        let mut d = with!(p, q => q.dfa(toks(&words[i]).into_iter(), recording_map(g, e)));
        let mut m = Model::new(i);
        let mut path = Vec::new();
        for _ in 0..60 {
            if seen.insert(hash(&m)) {
                level.push((m.clone(), d.clone(), path.clone()));
            }
            let s = m.peek(&w).unwrap_or(w.eof);
            path.push(Op::Travel(s));
            if m.finished || m.travel(s, &w) != Out::Done {
                break;
            }
            let (o, _) = sut("the machine", || real_op(&mut d, Op::Travel(s), &w))?;
            if o != Out::Done {
                return Err(format!("{} machine: {path:?} ends in {o:?}", p.kind()));
            }
        }
    }
    let mut used = 0;
    for k in 0..depth {
        let mut next = Vec::new();
        for (m, d, path) in &level {
            for op in &ops {
                if m.broken && !matches!(op, Op::Reset | Op::Parse(_)) {
                    continue;
                }
                let mut m2 = m.clone();
                let Some((want, calls)) = m2.apply(*op, &w) else {
                    st.out("endless by hand, not run");
                    continue;
                };
                let mut d2 = d.clone();
                let told = |what: String| {
                    let input: Vec<Sy> = words[m.word].iter().map(|y| e.back(*y).unwrap_or(254)).collect();
                    format!(
                        "{} machine, input `{}`, symbols {all_syms}: after {path:?}, {op:?} {what}",
                        p.kind(),
                        str_name(&input)
                    )
                };
                st.runs += 1;
                st.transitions += 1;
                LOG.with(|l| l.borrow_mut().clear());
                let (have, n) = sut("the machine", || real_op(&mut d2, *op, &w)).map_err(|m| told(m))?;
                let fine = match (&want, &have) {
                    (Out::Either(a, b), Out::Fails(x)) => x == a || x == b,
                    _ => want == have,
                };
                if !fine {
                    return Err(told(format!("gives {have:?} instead of {want:?}")));
                }
                if matches!(op, Op::Start) && n != calls {
                    return Err(told(format!("calls back {n} times instead of {calls}")));
                }
                st.out(match want {
                    Out::Done => "done",
                    Out::Value(_) => "value",
                    _ => "error",
                });
                if !m2.broken {
                    same(&m2, &d2, &w).map_err(|m| told(format!("leaves {m}")))?;
                }
                if k + 1 < depth && seen.insert(hash(&m2)) {
                    if used < nodes {
                        used += 1;
                        st.states += 1;
                        let mut q = path.clone();
                        q.push(*op);
                        next.push((m2, d2, q));
                    } else {
                        st.out("configurations not continued (bound on their number)");
                    }
                }
            }
            if !m.broken {
                same(m, d, &w).map_err(|x| format!("{} machine: operating on copies of it changed the original: {x}", p.kind()))?;
            }
        }
        level = next;
    }
    Ok(())
}

/// Words the machine is given: all up to a length over the first terminals, and the shortest
/// sentences.
fn words(g: &G, len: usize, e: &Enc) -> Vec<Vec<Y>> {
    let nt = g.k().min(2);
    let mut out: Vec<Vec<Sy>> = vec![vec![]];
    let mut last = out.clone();
    for _ in 0..len {
        last = last
            .iter()
            .flat_map(|w| {
                (0..nt).map(move |t| {
                    let mut w = w.clone();
                    w.push(T0 + t as Sy);
                    w
                })
            })
            .collect();
        out.extend(last.clone());
    }
    let ea = crate::earley::Earley::new(g);
    let mut sentences = 0;
    let cfg = Cfg { nodes: 2000, len: 6, long: 0, orders: 0, deep: 0 };
    let _ = crate::props::explore_inputs(&ea, &cfg, |c| {
        if ea.sentence(c) && sentences < 3 {
            sentences += 1;
            if !out.contains(&c.w) {
                out.push(c.w.clone());
            }
        }
        Ok(sentences < 3)
    });
    out.iter().map(|w| crate::props::ys(w, e)).collect()
}

pub fn c26(g: &G, cfg: &Cfg, style: u8, st: &mut Stats) -> R {
    if !g.augmented() || g.prods().len() > MAXP {
        return Ok(());
    }
    let e = Enc::style(style);
    let ws = words(g, cfg.len, &e);
    let mut syms: Vec<Sy> = (0..g.rules.len() as Sy).collect();
    syms.extend((0..g.k()).map(|t| T0 + t as Sy));
    syms.push(EOF);
    let mut y = crate::props::ys(&syms, &e);
    y.push(ALIEN);
    let shown = format!("{:?}", syms.iter().map(|s| (crate::gram::sy_name(*s), e.y(*s).0)).collect::<Vec<_>>());
    st.decided += 1;
    for kind in run_kinds(g) {
        let p = AnyP::build(kind, g, &e)?;
        explore(&p, &ws, &y, &shown, g, &e, cfg.deep, cfg.nodes, st)?;
    }
    st.sample(|| format!("{} [{} inputs, all operation sequences to depth {}]", g.text(), ws.len(), cfg.deep));
    Ok(())
}
