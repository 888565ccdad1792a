PRE = r'''
use lrp::*;
type R = Vec<(&'static str, Vec<Vec<&'static str>>)>;
fn g(rules: R) -> Grammar<&'static str> {
    let start = rules[0].0;
    let mut m = RuleMap::new();
    for (n, p) in rules { m.insert(n, grammar::Rule::new(n, p)); }
    Grammar::new(start, m, "$")
}
fn w(s: &str) -> Vec<&'static str> { s.split_whitespace().map(|x| &*Box::leak(x.to_string().into_boxed_str())).collect() }
fn rules(s: &str) -> R {
    s.split(';').filter(|r| !r.trim().is_empty()).map(|r| {
        let (n, b) = r.split_once("->").unwrap();
        (w(n)[0], b.split('|').map(w).collect())
    }).collect()
}
fn toks(s: &str) -> Vec<Token<(), &'static str>> { w(s).into_iter().map(Token::empty).collect() }
fn check(c: bool, m: &str) { if !c { eprintln!("{m}"); std::process::exit(1) } }
'''
BUGS = []
def bug(id, property, edits, demo, needs, breaks, kind="lrp", **k):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=(PRE + demo) if kind == "lrp" else demo, needs=needs, breaks=breaks, kind=kind, **k))

bug("C08-follow-of-last", "C08", [("src/tabler.rs", "if !self.grammar.is_terminal(last) && last != &rule.name {", "if !self.grammar.is_terminal(last) && !prod.contains(&rule.name) {")],
'''fn main() {
    let t = Tabler::new(g(rules("Z -> S ; S -> i S B | x ; B -> e | f")));
    check(t.follow["B"] == Set::from(["$", "e", "f"]), &format!("{:?}", t.follow));
}''', "a production that contains its own rule in the middle and ends in another nonterminal", "FOLLOW of that last nonterminal lacks FOLLOW of the rule")

bug("C02-same-rule-reductions", "C02", [("src/clr.rs", "if map.contains_key(&term) && map[&term] != act {", "if matches!((map.get(&term), &act), (Some(Action::Reduce(a, _)), Action::Reduce(b, _)) if a == b) {\n                        // the same rule either way\n                        continue;\n                    }\n                    if map.contains_key(&term) && map[&term] != act {")],
'''fn main() {
    let c = Clr::new(g(rules("Z -> E ; E -> a E | a a E | b | a b")));
    check(c.tables().conflicts().count() > 0, "an ambiguous grammar without conflicts");
}''', "a grammar in which two productions of the same rule end in the same state on the same look-ahead", "the reduce/reduce conflict is not reported")

bug("C04-unit-shortcut", "C04", [("src/dfa.rs", "        let new_item = Token::new(self.reductors[name][prod.1](items), name.clone());", "        // renaming a symbol needs no work\n        let new_item = if prod.0.len() == 1 && self.reductors[name].len() == 1 && self.states.len() > 2 {\n            Token::new(items[0].item.clone(), name.clone())\n        } else {\n            Token::new(self.reductors[name][prod.1](items), name.clone())\n        };")],
'''fn t(x: &[Token<u32, &'static str>]) -> u32 { x.iter().map(|t| t.item).sum() }
fn neg(x: &[Token<u32, &'static str>]) -> u32 { x[0].item + 100 }
fn main() {
    let c = Lalr::new(g(rules("Z -> S ; S -> a N ; N -> x")));
    let m: ReductMap<u32, &str> = ReductMap::from([("Z", vec![t as ReductFn<u32, &str>]), ("S", vec![t]), ("N", vec![neg])]);
    let v = c.parse(vec![Token::new(1, "a"), Token::new(2, "x")], m);
    check(v == Ok(103), &format!("{v:?}"));
}''', "a rule whose only production is one symbol, reduced when something is already on the stack", "the action of that production is not run")

bug("C01-fixpoint-budget", "C01", [("src/lib.rs", "    loop {\n        let new = map(val.clone());\n        if new == val {\n            return val;\n        }\n        val = new;\n    }", "    // converges within a few rounds\n    for _ in 0..24 {\n        let new = map(val.clone());\n        if new == val {\n            break;\n        }\n        val = new;\n    }\n    val")],
'''fn main() {
    let mut s = String::from("Z -> N0");
    for i in 0..40 { s += &format!(" ; N{i} -> N{} b", i + 1); }
    s += " ; N40 -> a";
    for (k, ok) in [("clr", std::panic::catch_unwind(|| Clr::new(g(rules(&s))).validate(toks(&format!("a{}", " b".repeat(40)))))), ("slr", std::panic::catch_unwind(|| Slr::new(g(rules(&s))).validate(toks(&format!("a{}", " b".repeat(40))))))] {
        check(matches!(ok, Ok(true)), k);
    }
}''', "a grammar whose closures need more than 24 rounds (a chain of 25 rules that start with each other)", "the closure is cut short: the table lacks items, building panics or sentences are rejected")

bug("C07-eof-typed-tail", "C07", [("src/dfa.rs", "if self.buffer.peek().is_none() {", "if self.buffer.peek().map_or(true, |t| t.ty == self.eof) {")],
'''fn main() {
    let c = Lalr::new(g(rules("Z -> S ; S -> a b")));
    check(!c.validate(toks("a b $ a")), "trailing tokens accepted");
}''', "a token of the end marker's type in the input, after a complete sentence", "the parse is accepted although tokens are left")

bug("C03-prefer-shift", "C03", [("src/dfa.rs", "            Some(Action::Shift(to)) => self.shift(*to),", "            // a shift wins over a reduction\n            Some(Action::Conflict(a, _)) if matches!(**a, Action::Shift(_)) => {\n                let Action::Shift(to) = **a else { unreachable!() };\n                self.shift(to)\n            }\n            Some(Action::Shift(to)) => self.shift(*to),")],
'''fn main() {
    // not LR(1), unambiguous: the right choice needs two tokens of look-ahead
    for gr in ["Z -> S ; S -> A b c | x b d ; A -> x", "Z -> S ; S -> x b d | A b c ; A -> x", "Z -> A ; A -> x b d | B b c ; B -> x", "Z -> B ; B -> x b d | A b c ; A -> x"] {
        let c = Clr::new(g(rules(gr)));
        let mut d = c.simple_dfa(toks("x b c"));
        let r = d.start();
        check(matches!(r, Ok(()) | Err(Error::Conflict(..))), &format!("{gr}: {r:?}"));
    }
}''', "a grammar with a shift/reduce conflict whose right resolution is the reduction", "a sentence is rejected as a syntax error")

bug("C13-accept-drops", "C13", [("src/dfa.rs", "        self.finished = true;\n        if", "        self.finished = true;\n        // only the result is of interest from here on\n        if self.items.len() > 2 {\n            self.items.remove(0);\n        }\n        if")],
'''fn main() {
    let c = Lalr::new(g(rules("Z -> A B C ; A -> a ; B -> b ; C -> c")));
    let mut d = c.simple_dfa(toks("a b c"));
    check(d.start().is_ok(), "rejected");
    check(d.items.iter().map(|t| t.ty).collect::<Vec<_>>() == ["A", "B", "C"], &format!("{:?}", d.items));
}''', "an entry production of three symbols or more", "the first symbol is missing from the accepted stack")

bug("C05-clr-wide-lookahead", "C05", [("src/clr.rs", "                let look = pos.next().map_or_else(\n                    || pos.look.clone(),\n                    |locus| self.table.first_of(&Set::from([locus])),\n                );", "                let look = pos.next().map_or_else(\n                    || pos.look.iter().chain(if pos.point > 0 { self.table.follow.get(&pos.rule) } else { None }.into_iter().flatten()).cloned().collect(),\n                    |locus| self.table.first_of(&Set::from([locus])),\n                );")],
'''fn main() {
    let c = Clr::new(g(rules("Z -> S ; S -> a A d | b A e ; A -> f B ; B -> c")));
    let mut d = c.simple_dfa(toks("a f c e"));
    let r = d.start();
    check(r.is_err() && d.items.last().unwrap().ty == "c", &format!("{r:?} {:?}", d.items));
}''', "a CLR grammar in which a nonterminal at the end of a production is followed by different tokens in different contexts", "the table reduces on tokens that cannot follow there: late error, wrong expectations")

bug("C09-abandoned-top", "C09", [("src/dfa.rs", "        self.items.clear();\n        self.top = 0;", "        self.items.clear();\n        if self.buffer.peek().is_none() {\n            self.top = 0;\n        }")],
'''fn main() {
    let c = Lalr::new(g(rules("Z -> S ; S -> a S b | c")));
    let mut d = c.simple_dfa(toks("a c"));
    check(d.parse(toks("c c").into_iter()).is_err(), "bad input accepted");
    let r = d.parse(toks("c").into_iter());
    check(r.is_ok(), &format!("{r:?}"));
}''', "a parse that stops before its input is used up, followed by another parse on the same machine", "the second parse starts in the state the first one stopped in")

bug("C10-rows-by-terminals", "C10", [("src/tabler.rs", "        for (i, old_action) in self.actions.iter().enumerate() {", "        for (i, row) in self.actions.iter().enumerate() {\n            // two states that do the same on every token\n            let old_action = &row.iter().filter(|(t, _)| self.grammar.is_terminal(t)).map(|(t, a)| (t.clone(), a.clone())).collect::<Map<_, _>>();"),
  ("src/tabler.rs", "actions.push(old_action.clone());", "actions.push(row.clone());")],
'''fn main() {
    let mut d = Slr::new(g(rules("Z -> S ; S -> a N c | b N d ; N -> x")));
    d.reduce_equals();
    check(d.validate(toks("a x c")) && d.validate(toks("b x d")) && !d.validate(toks("b x c")), "the merged table differs");
}''', "two states that shift the same tokens to the same states but differ in their gotos, and a merged table", "states are merged that differ after a reduction")

bug("C02-same-alternative-twice", "C02", [("src/pos.rs", "self.point == rhs.point && self.seq == rhs.seq && self.rule == rhs.rule", "self.point == rhs.point && self.rule == rhs.rule && self.seq.0 == rhs.seq.0")],
'''fn main() {
    let l = Lalr::new(g(rules("Z -> S ; S -> a S b | A S d | x ; A -> c | c")));
    check(l.tables().conflicts().count() > 0, "no conflict");
    let p = |i| std::rc::Rc::new((vec!["x"], i));
    let s: State<&str> = State::from([Position::new("A", p(0), 1, Set::from(["c"])), Position::new("A", p(1), 1, Set::from(["d"]))]);
    check(Lalr::merged(s).len() == 2, "items of different productions were merged");
}''', "a rule with two alternatives of the same symbols, in a state that LALR merges", "the two productions are taken for one, their conflict disappears")

bug("C02-dangling-else", "C02", [("src/slr.rs", "self.table.follow[&pos.rule]\n                    .iter()\n", "self.table.follow[&pos.rule]\n                    .iter()\n                    // the longer alternative goes on\n                    .filter(|l| !row.iter().any(|p| p.rule == pos.rule && p.point == pos.point && p.seq.0.starts_with(&pos.seq.0) && p.top().as_ref() == Some(*l)))\n")],
'''fn main() {
    let c = Slr::new(g(rules("Z -> S ; S -> i S e S | i S | x")));
    check(c.tables().conflicts().count() > 0, "the dangling else has no conflict");
}''', "a grammar in which an alternative of a rule is a prefix of another and what goes on can follow the rule", "the conflict is settled silently in favour of the shift")

bug("C11-lalr-growth-of-first-item", "C11", [("src/lalr.rs", "        if &new_kernel == main {", "        if new_kernel.iter().next() == main.iter().next() {")],
'''fn main() {
    let d = Lalr::new(g(rules("Z -> S ; S -> p A d | p B e | q A d | q B f ; A -> x ; B -> x y")));
    let e = Lalr::new(g(rules("Z -> S ; S -> p A d | p B e | q A d | q B f ; A -> x ; B -> x")));
    check(d.tables().conflicts().count() == 0 && ["p x d", "p x y e", "q x d", "q x y f"].iter().all(|i| d.validate(toks(i))), "d");
    check(e.tables().conflicts().count() == 0 && ["p x d", "p x e", "q x d", "q x f"].iter().all(|i| e.validate(toks(i))), "e");
}''', "an LALR state with two kernel items of which only the second gains a look-ahead from a later context", "the look-ahead is lost, sentences are rejected")

bug("C01-first-of-right-recursion", "C01", [("src/tabler.rs", "                    if rc.0[0] == rule.name {", "                    if rc.0[0] == rule.name || rc.0.len() > 2 && rc.0.last() == Some(&rule.name) {")],
'''fn main() {
    let d = Clr::new(g(rules("Z -> S ; S -> A L ; A -> a ; L -> b c L | d")));
    check(d.validate(toks("a b c d")) && d.validate(toks("a d")), "rejected");
}''', "a right-recursive production of three or more symbols whose first symbol begins no other alternative, after another nonterminal", "FIRST lacks that symbol, so the look-ahead of what comes before does too")

bug("C12-conflict-by-name", "C12", [("src/clr.rs", "map.contains_key(&term) && map[&term] != act {", "map.contains_key(&term) && map[&term] < act {")],
'''fn main() {
    for (x, y) in [("A", "B"), ("B", "A")] {
        let c = Clr::new(g(rules(&format!("Z -> S ; S -> {x} | {y} b ; {x} -> a b ; {y} -> a"))));
        check(c.tables().conflicts().count() > 0, x);
    }
}''', "a shift/reduce conflict in which the reduced rule's name is smaller than the shifting rule's", "the conflict is not reported, depending on names")
bug("C06-merge-leaves-conflicts", "C06", [("src/tabler.rs", "            Action::Conflict(a, b) => {\n                Self::update_entry(a, travel);\n                Self::update_entry(b, travel);\n                return;\n            }", "            // nobody goes on from a conflict\n            Action::Conflict(..) => return,")],
'''fn main() {
    fn ok(a: &Action<&str>, n: usize) -> bool { match a { Action::Shift(s) | Action::Goto(s) => *s < n, Action::Conflict(a, b) => ok(a, n) && ok(b, n), _ => true } }
    let mut k = Clr::new(g(rules("k -> l ; l -> m ; m -> n a ; n -> l n")));
    k.reduce_equals();
    let t = k.tables();
    for r in &t.actions { for a in r.values() { check(ok(a, t.actions.len()), &format!("{a:?} of {}", t.actions.len())); } }
}''', "a table with conflicts in which equal rows are merged", "conflict entries refer to states of the table before merging")

