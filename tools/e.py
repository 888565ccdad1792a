import os
exec(open(os.path.join(V, "tools", "b.py")).read().split("CONF = ")[0])

bug("C01-step-budget", "C01", [("src/dfa.rs", "        while !self.finished {\n            f(self);", "        let mut left = 1_usize << 17;\n        while !self.finished {\n            // no parse is that long\n            left = left.checked_sub(1).ok_or(Error::IncompleteExec)?;\n            f(self);")],
'''fn main() {
    let l = Lalr::new(g(rules("Z -> S ; S -> S a | a")));
    check(l.validate(vec![Token::empty("a"); 66_000]), "a long sentence is rejected");
}''', "an input of more than 65 thousand tokens", "it is rejected")

bug("C04-deep-operands", "C04", [("src/dfa.rs", "        let items = &self.items[len - prod.0.len()..];", "        let low = (len - prod.0.len()) as u16;\n        let items = &self.items[usize::from(low)..][..prod.0.len()];")],
'''fn main() {
    fn act(t: &[Token<usize, &'static str>]) -> usize { if t.len() == 1 { 1 } else { t[0].item } }
    let l = Lalr::new(g(rules("Z -> S ; S -> a S | b")));
    let acts = Dfa::<usize, _, std::vec::IntoIter<Token<usize, &'static str>>>::transparent(l.tables(), act);
    let n = 66_000;
    let mut v: Vec<_> = (0..n).map(|i| Token::new(i, "a")).collect();
    v.push(Token::new(n, "b"));
    let r = l.parse(v, acts);
    check(r == Ok(0), &format!("{r:?}"));
    let seen = std::cell::Cell::new(0);
    seen.set(1);
    static MAX: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    fn max(t: &[Token<usize, &'static str>]) -> usize { MAX.fetch_max(t[0].item, std::sync::atomic::Ordering::Relaxed); t[0].item }
    let acts = Dfa::<usize, _, std::vec::IntoIter<Token<usize, &'static str>>>::transparent(l.tables(), max);
    let mut v: Vec<_> = (0..n).map(|i| Token::new(i, "a")).collect();
    v.push(Token::new(n, "b"));
    let _ = l.parse(v, acts);
    check(MAX.load(std::sync::atomic::Ordering::Relaxed) == n, "no action saw the deepest operand");
}''', "a stack of more than 65536 symbols", "an action receives operands from the bottom of the stack")

bug("C12-printed-names", "C12", [("src/tabler.rs", "            for first in firsts {\n                table.get_mut(name).unwrap().insert(first.clone());", "            let mut known: Vec<String> = Vec::new();\n            for first in firsts {\n                table.get_mut(name).unwrap().insert(first.clone());\n                // one look at each\n                let shown = format!(\"{first:?}\");\n                if known.contains(&shown) {\n                    continue;\n                }\n                known.push(shown);")],
'''#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
struct N(u8);
impl std::fmt::Debug for N { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(if self.0 < 10 { "rule" } else { "token" }) } }
fn main() {
    let mut m = RuleMap::new();
    let r = |n: u8, p: Vec<Vec<u8>>| (N(n), grammar::Rule::new(N(n), p.into_iter().map(|p| p.into_iter().map(N).collect()).collect::<Vec<_>>()));
    for (n, r) in [r(0, vec![vec![1]]), r(1, vec![vec![2, 10], vec![3, 11]]), r(2, vec![vec![12]]), r(3, vec![vec![13]])] { m.insert(n, r); }
    let l = Lalr::new(Grammar::new(N(0), m, N(20)));
    check(l.tables().first[&N(1)] == Set::from([N(12), N(13)]), "FIRST");
    check(l.tables().first[&N(0)] == Set::from([N(12), N(13)]), "FIRST of the entry");
}''', "symbols that print alike", "FIRST lacks what the second of them begins with")

bug("C23-closure-printed", "C23", [("src/slr.rs", "                for prod in self.table.grammar.rules[&top].prods() {", "                // a rule that was expanded is known by its name\n                if new_state.iter().any(|p: &Position<T>| format!(\"{:?}\", p.rule) == format!(\"{top:?}\")) {\n                    continue;\n                }\n                for prod in self.table.grammar.rules[&top].prods() {")],
'''#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
struct N(u8);
impl std::fmt::Debug for N { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(if self.0 < 10 { "rule" } else { "token" }) } }
fn main() {
    let mut m = RuleMap::new();
    let r = |n: u8, p: Vec<Vec<u8>>| (N(n), grammar::Rule::new(N(n), p.into_iter().map(|p| p.into_iter().map(N).collect()).collect::<Vec<_>>()));
    for (n, r) in [r(0, vec![vec![1]]), r(1, vec![vec![2, 10], vec![3, 11]]), r(2, vec![vec![12]]), r(3, vec![vec![13]])] { m.insert(n, r); }
    let l = Slr::new(Grammar::new(N(0), m, N(20)));
    check(l.tables().states[0].len() == 5, &format!("{} items", l.tables().states[0].len()));
}''', "rules whose names print alike", "the closure lacks the items of one of them")

