import os
exec(open(os.path.join(V, "tools", "a.py")).read().split("BUGS = []")[0])
BUGS = []
def bug(id, property, edits, demo, needs, breaks, kind="lrp", **k):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=(PRE + demo) if kind == "lrp" else demo, needs=needs, breaks=breaks, kind=kind, **k))

LRPBIN = '''#!/bin/bash
# builds the demo command of the current directory and runs it on a session
repo=$PWD
d=$(mktemp -d)
trap 'find "$d" -delete' EXIT
mkdir "$d/r" && cp -r Cargo.toml Cargo.lock src benches grammars_tests.rs "$d/r/" && sed -i '/^\\[workspace\\]/,$d' "$d/r/Cargo.toml" && printf '\\n[workspace]\\n' >> "$d/r/Cargo.toml"
cd "$d/r" && CARGO_TARGET_DIR=$d/target cargo build --offline -q --bin lrp 2>/dev/null || exit 3
session() { timeout 60 "$d/target/debug/lrp"; }
'''

CONF = "                    if map.contains_key(&term) && map[&term] != act {"
bug("C03-third-action-wins", "C03", [("src/slr.rs", CONF, "                    // a conflict is noted once\n                    if map.get(&term).is_some_and(|old| !matches!(old, Action::Conflict(..)) && *old != act) {")],
'''fn main() {
    // x is A, B or C before $, but only A before y
    let d = Slr::new(g(rules("Z -> S ; S -> A p | B p | C p | A y B y | B q B | C q C; A -> x ; B -> x ; C -> x")));
    for i in ["x p", "x y x y", "x q x"] {
        let mut m = d.simple_dfa(toks(i));
        let r = m.start();
        check(!matches!(r, Err(Error::UnexpectedToken(..))), &format!("{i}: {r:?}"));
    }
    let k = Slr::new(g(rules("Z -> S ; S -> A p a | B p b | C p c ; A -> x ; B -> x ; C -> x")));
    for i in ["x p a", "x p b", "x p c"] {
        let mut m = k.simple_dfa(toks(i));
        let r = m.start();
        check(!matches!(r, Err(Error::UnexpectedToken(..))), &format!("{i}: {r:?}"));
    }
}''', "an SLR table with a cell of three actions", "the third action replaces the conflict, and sentences are rejected as syntax errors")

bug("C14-same-top", "C14", [("src/pos.rs", "self.point == rhs.point && self.seq == rhs.seq && self.rule == rhs.rule", "self.rule == rhs.rule && self.seq == rhs.seq && self.top() == rhs.top()")],
'''fn main() {
    let p = std::rc::Rc::new((vec!["a", "a", "b"], 0));
    let s: State<&str> = State::from([Position::new("A", p.clone(), 0, Set::from(["c"])), Position::new("A", p, 1, Set::from(["d"]))]);
    check(Lalr::merged(s).len() == 2, "items of different positions were merged");
}''', "two items of one production at two positions before the same symbol", "they are merged into one")

bug("C22-entry-terminals", "C22", [("src/grammar.rs", "        for rule in rules.values() {\n            for rc in rule.prods() {", "        // the entry only names the real start\n        for rule in rules.values().filter(|r| r.name != start || r.prods[0].0.len() > 2) {\n            for rc in rule.prods() {")],
'''fn main() {
    let k = g(rules("Z -> S e ; S -> a"));
    check(k.terminals == Set::from(["$", "a", "e"]), &format!("{:?}", k.terminals));
}''', "an entry production of two symbols, one of them a terminal that occurs nowhere else", "the grammar lacks the terminal, the tables lack its column")

bug("C23-closure-rounds", "C23", [("src/clr.rs", "        transitive(seed, |s| self.closure(s))", "        // one round per rule reaches every rule\n        (0..self.table.grammar.rules.len()).fold(seed, |s, _| self.closure(s))"), ("src/clr.rs", "use crate::{transitive, ", "use crate::{")],
'''fn main() {
    let d = Clr::new(g(rules("Z -> S ; S -> A ; A -> B ; B -> C ; C -> A y | c")));
    check(["c", "c y", "c y y", "c y y y"].iter().all(|i| d.validate(toks(i))), "rejected");
}''', "a chain of nonterminals that comes back to one of its own with another look-ahead", "the closure lacks the last look-aheads")

bug("C24-long-lists", "C24", [("src/dfa.rs", '''            Self::UnexpectedToken(found, expected) => f.write_fmt(format_args!(
                "unexpected token {found:?}. expected {expected:?}"
            )),''', '''            // long lists are of no use
            Self::UnexpectedToken(found, expected) if expected.len() > 8 => f.write_fmt(format_args!(
                "unexpected token {found:?}. expected {:?} and more",
                &expected[..8]
            )),
            Self::UnexpectedToken(found, expected) => f.write_fmt(format_args!(
                "unexpected token {found:?}. expected {expected:?}"
            )),''')],
'''fn main() {
    let d = Slr::new(g(rules("Z -> S ; S -> a | b | c | d | e | f | g | h | i | j")));
    let e = d.simple_dfa(toks("x")).start().unwrap_err().to_string();
    check(e.contains("\\"i\\"") && e.contains("\\"j\\""), &e);
}''', "an error with more than eight expectations", "the printed error lacks some of them")

bug("C24-deep-stack-cut", "C24", [("src/dfa.rs", '''            if let Some(it) = self.items.get(i) {
                fmts.push(format!("{:?}", it.ty));
            }
        }
        fmts.join(" ")''', '''            if let Some(it) = self.items.get(i) {
                fmts.push(format!("{:?}", it.ty));
            }
        }
        if fmts.len() > 24 {
            // only the top matters
            fmts.drain(1..fmts.len() - 23);
        }
        fmts.join(" ")''')],
'''fn main() {
    let d = Slr::new(g(rules("Z -> S ; S -> a S | a")));
    let mut m = d.simple_dfa(toks("a a a a a a a a a a a a a a a a a a a a"));
    let mut most = 0;
    m.trace(|s| most = most.max(s.stack_fmt().matches("\\"a\\"").count())).unwrap();
    check(most == 20, &format!("{most}"));
}''', "a stack of more than twelve symbols", "the printed stack lacks its middle")

bug("C25-empty-line-ends", "C25", [("src/main.rs", '''        let mut dfa = parser.simple_dfa(''', '''        if input.is_empty() {
            // nothing left to do
            return;
        }
        let mut dfa = parser.simple_dfa(''')],
LRPBIN + '''printf '()\\n\\n[]\\n' | session > "$d/out" || exit 1
[ "$(grep -c '"\\[", "\\]", "\\$"' "$d/out")" = 1 ]
''', "a session with an empty line before its end", "the rest of the session is not read", kind="sh")

bug("C25-long-buffer", "C25", [("src/main.rs", "                .chain(std::iter::once(eof.clone()))\n                .collect::<Vec<_>>()", "                .take(9)\n                .chain(std::iter::once(eof.clone()))\n                .collect::<Vec<_>>()")],
LRPBIN + '''printf '((((((((()))))))))\\n' | session > "$d/out" || exit 1
grep -qF '"(", "(", "(", "(", "(", "(", "(", "(", "(", ")", ")", ")", ")", ")", ")", ")", ")", ")", "$"' "$d/out"
''', "a line of ten tokens or more", "the trace shows a shorter input", kind="sh")

bug("C26-shift-top-first", "C26", [("src/dfa.rs", "        let item = self.buffer.next().ok_or(Error::UnexpectedEof)?;\n        self.items.push(item);\n        self.top = to;", "        self.top = to;\n        let item = self.buffer.next().ok_or(Error::UnexpectedEof)?;\n        self.items.push(item);")],
'''fn main() {
    let d = Slr::new(g(rules("Z -> S ; S -> a b")));
    let mut m = d.simple_dfa(toks("a"));
    m.travel(&"a").unwrap();
    let (t, s) = (m.top, m.states.clone());
    check(m.travel(&"b").is_err(), "shifted past the end");
    check(m.top == t && m.states == s, "the failed shift changed the state");
}''', "a shift when no token is left", "the machine has moved although the shift failed")

bug("C26-reduce-keeps-states", "C26", [("src/dfa.rs", "        let len = self.states.len();\n        self.top = self.states[len - prod.0.len() - 1];\n\n        self.states.truncate(len - prod.0.len());", "        let below = self.items.len() - 1;\n        self.top = self.states[below];\n\n        self.states.truncate(below + 1);")],
'''fn main() {
    let d = Slr::new(g(rules("Z -> S ; S -> a S | a")));
    let mut m = d.simple_dfa(toks("a a"));
    m.travel(&"a").unwrap();
    // a state without a symbol, as a goto makes it
    let t = m.top;
    m.goto(t).unwrap();
    m.items.push(Token::empty("a"));
    m.goto(t).unwrap();
    let (n, p) = (m.states.len(), std::rc::Rc::new((vec!["a"], 1)));
    m.reduce(&"S", &p).unwrap();
    check(m.states.len() == n, "states lost");
}''', "a reduction in a configuration with more states than symbols (a goto on its own before it)", "the reduction also drops states that are not its own")

bug("C02-accept-conflict-hidden", "C02", [("src/tabler.rs", "            .filter(|a| matches!(a, Action::Conflict(..)))", "            // what is accepted needs no reduction\n            .filter(|a| matches!(a, Action::Conflict(x, _) if **x != Action::Acc))")],
'''fn main() {
    let c = Clr::new(g(rules("A -> S ; S -> S | x")));
    check(c.tables().conflicts().count() > 0, "no conflict in a cyclic grammar");
}''', "a grammar whose start symbol derives itself and whose entry is named before it", "the only conflict, with acceptance, is not listed")

bug("C06-second-stale", "C06", [("src/tabler.rs", "                Self::update_entry(a, travel);\n                Self::update_entry(b, travel);", "                let (Action::Conflict(..) | Action::Shift(_)) = **a else {\n                    // reductions name no states\n                    return;\n                };\n                Self::update_entry(a, travel);\n                Self::update_entry(b, travel);")],
'''fn main() {
    fn ok(a: &Action<&str>, n: usize) -> bool { match a { Action::Shift(s) | Action::Goto(s) => *s < n, Action::Conflict(a, b) => ok(a, n) && ok(b, n), _ => true } }
    for r in ["Z -> A ; A -> B | a ; B -> B B A", "Z -> A ; A -> A | B B | b ; B -> B A A"] {
        let mut k = Clr::new(g(rules(r)));
        k.reduce_equals();
        let t = k.tables();
        for r in &t.actions { for a in r.values() { check(ok(a, t.actions.len()), &format!("{a:?} of {}", t.actions.len())); } }
    }
}''', "a conflict of a reduction with a shift, in that order, to a state that is renumbered by merging", "the conflict refers to a state that is not there")

bug("C08-doubled-nonterminal", "C08", [("src/tabler.rs", "                    if !self.grammar.is_terminal(&prod[term_idx]) {\n", "                    if !self.grammar.is_terminal(&prod[term_idx])\n                        && (term_idx == 0 || prod[term_idx] != prod[term_idx + 1] || prod[term_idx] == rule.name)\n                    {\n")],
'''fn main() {
    let t = Tabler::new(g(rules("Z -> S ; S -> a C C ; C -> x | y")));
    check(t.follow["C"] == Set::from(["$", "x", "y"]), &format!("{:?}", t.follow));
}''', "a production with the same nonterminal twice in a row", "FOLLOW of it lacks its own FIRST")

bug("C09-reset-when-finished", "C09", [("src/dfa.rs", "    pub fn parse(&mut self, input: I) -> BaseResult<T, Error<M>> {\n        self.reset();", "    pub fn parse(&mut self, input: I) -> BaseResult<T, Error<M>> {\n        if self.finished || self.items.is_empty() {\n            self.reset();\n        }")],
'''fn main() {
    let d = Slr::new(g(rules("Z -> S ; S -> a S b | c")));
    let mut m = d.simple_dfa(toks("a"));
    check(m.parse(toks("a c c").into_iter()).is_err(), "accepted");
    check(m.parse(toks("c").into_iter()).is_ok(), "the same machine rejects a sentence");
}''', "a parse after one that failed half way", "it goes on from the stack that was left")

bug("C11-unit-looks", "C11", [("src/lalr.rs", '''        let both_kernels = inc.into_iter().chain(main.clone()).collect();''', '''        // what is complete takes its look-aheads from where it came from
        let known: Set<_> = main.iter().map(Position::no_look).collect();
        let both_kernels = inc
            .into_iter()
            .filter(|p| !p.finished() || p.seq.0.len() > 2 || !known.contains(&p.no_look()) || known.len() < 3)
            .chain(main.clone())
            .collect();''')],
'''fn main() {
    let d = Lalr::new(g(rules("Z -> S ; S -> p A d | p B e | p C f | q A g | q B h | q C i ; A -> x ; B -> x ; C -> x y")));
    check(["p x d", "p x e", "p x y f", "q x g", "q x h", "q x y i"].iter().all(|i| d.validate(toks(i))), "rejected");
    let d = Lalr::new(g(rules("Z -> S ; S -> p A d | p B e | p C f | q A g | q B h | q C i ; A -> x ; B -> x ; C -> x")));
    check(["p x d", "p x e", "p x f", "q x g", "q x h", "q x i"].iter().all(|i| d.validate(toks(i))), "rejected");
}''', "an LALR state with three kernel items or more, complete ones among them, reached from a second context", "complete items do not gain the second context's look-aheads")

bug("C10-first-row-kept", "C10", [("src/tabler.rs", "            travel_idx.insert(i, actions_map[old_action]);", "            travel_idx.insert(i, actions_map[old_action].min(i + 1 - usize::from(i > 0)).min(actions.len() - 1).max(usize::from(i > 8 && old_action.len() == 1 && actions.len() > 9 && actions_map[old_action] == 0)));")],
"fn main() {}", "", "")
BUGS.pop()

bug("C05-end-marker-late", "C05", [("src/dfa.rs", '''            let symbol = self
                .buffer
                .peek()
                .map_or_else(|| &self.eof, |t| &t.ty)
                .clone();
            self.travel(&symbol)?;''', '''            // rows without a choice need no look-ahead
            let only = self.table.get(self.top).and_then(|row| {
                let mut acts = row.iter();
                match (acts.next(), acts.next()) {
                    (Some((term, Action::Reduce(..))), None) => Some(term.clone()),
                    _ => None,
                }
            });
            let symbol = only.unwrap_or_else(|| {
                self.buffer
                    .peek()
                    .map_or_else(|| &self.eof, |t| &t.ty)
                    .clone()
            });
            self.travel(&symbol)?;''')],
'''use std::cell::Cell;
thread_local!(static RUNS: Cell<u32> = Cell::new(0));
fn act(_: &[Token<(), &'static str>]) { RUNS.with(|r| r.set(r.get() + 1)) }
fn main() {
    let d = Clr::new(g(rules("Z -> S ; S -> A b ; A -> a")));
    let map = Dfa::<(), &'static str, std::vec::IntoIter<Token<(), &'static str>>>::transparent(d.tables(), act);
    let r = d.parse(toks("a a"), map);
    check(matches!(r, Err(Error::UnexpectedToken("a", _))), &format!("{r:?}"));
    check(RUNS.with(|r| r.get()) == 0, "an action ran between reading the wrong token and the error");
}''', "a wrong token in a state whose row has a single reduction", "an action runs although the wrong token was already there to see")

bug("C01-lookahead-of-two", "C01", [("src/tabler.rs", "            if let Some(first) = self.first.get(item) {\n                firsts.extend(first.clone());", "            if let Some(first) = self.first.get(item) {\n                // its own follow set tells the end\n                firsts.extend(first.iter().filter(|t| first.len() < 3 || **t != self.basis_pos().seq.0[0] && !self.grammar.rules[item].prods.iter().all(|p| p.0.len() > 1 && p.0.last() == Some(*t))).cloned());")],
'''fn main() {
    let d = Clr::new(g(rules("Z -> S ; S -> A B ; A -> a ; B -> x c | y c | c c")));
    check(["a x c", "a y c", "a c c"].iter().all(|i| d.validate(toks(i))), "rejected");
}''', "a nonterminal with three first symbols or more, one of which ends all of its productions", "look-aheads lack that symbol")
