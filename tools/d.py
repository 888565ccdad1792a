import os
exec(open(os.path.join(V, "tools", "b.py")).read().split('bug("')[0])

bug("C04-long-production", "C04", [("src/dfa.rs", "        let items = &self.items[len - prod.0.len()..];", "        // an action looks at what fits its frame\n        let items = &self.items[len - prod.0.len().min(64)..];")],
'''fn main() {
    fn act(t: &[Token<usize, &'static str>]) -> usize { t.iter().map(|t| t.item).sum() }
    let body = vec!["a"; 70].join(" ");
    let l = Lalr::new(g(rules(&format!("Z -> S ; S -> {body}"))));
    let acts = Dfa::<usize, _, std::vec::IntoIter<Token<usize, &'static str>>>::transparent(l.tables(), act);
    let r = l.parse(vec![Token::new(1usize, "a"); 70], acts);
    check(r == Ok(70), &format!("{r:?}"));
}''', "a production of more than 64 symbols", "its action gets the last 64 operands only")

bug("C07-validate-tail", "C07", [("src/parser.rs", "        self.parse(buffer, self.empty::<I::IntoIter>()).is_ok()", "        // what follows the accepted input is not part of it\n        matches!(\n            self.parse(buffer, self.empty::<I::IntoIter>()),\n            Ok(()) | Err(Error::IncompleteExec)\n        )")],
'''fn main() {
    let l = Lalr::new(g(rules("Z -> S ; S -> a")));
    check(!l.validate(toks("a $ b")), "accepted");
}''', "tokens after a token of the end marker's type", "the input is reported valid")

bug("C03-validate-conflict", "C03", [("src/parser.rs", "        self.parse(buffer, self.empty::<I::IntoIter>()).is_ok()", "        // with three ways to go on, one of them will do\n        match self.parse(buffer, self.empty::<I::IntoIter>()) {\n            Err(Error::Conflict(a, _)) => matches!(a, crate::Action::Conflict(..)),\n            r => r.is_ok(),\n        }")],
"""fn main() {
    let l = Lalr::new(g(rules("Z -> S ; S -> A x | B x | C x | c ; A -> a ; B -> a ; C -> a")));
    let k = l.tables().conflicts().count();
    check(k > 0, "no conflict");
    check(!l.validate(toks("a y")) && !l.validate(toks("a")), "a verdict");
    check(!l.validate(toks("a x")), "a verdict on a x");
    check(l.validate(toks("c")), "c");
}""", "an input that meets a conflict of three reductions", "validate calls the input valid although the parser gave up")

bug("C25-tab-after", "C25", [("src/main.rs", "            .trim()\n            .chars()", "            .trim_end()\n            .trim_start_matches(' ')\n            .chars()")],
LRPBIN + '''n=$(printf '\\t()\\n[]\\n' | session | grep -c '| ok')
[ "$n" = 2 ]
''', "a line that begins with a tab", "it is refused", kind="sh")

bug("C09-parse-keeps-top", "C09", [("src/dfa.rs", "        let res = self.items.pop().ok_or(Error::MissingPreviousState)?;\n        self.reset();\n        Ok(res.item)", "        let res = self.items.pop().ok_or(Error::MissingPreviousState)?;\n        if self.states.len() > 1 {\n            // nothing but the accepting state is left\n            self.states.truncate(1);\n            self.items.clear();\n            self.finished = false;\n        }\n        Ok(res.item)")],
'''fn main() {
    let l = Lalr::new(g(rules("Z -> S ; S -> a S | b")));
    let mut m = l.simple_dfa(toks("b"));
    check(m.parse(toks("b").into_iter()).is_ok(), "first");
    // driven by hand afterwards
    m.buffer = toks("a b").into_iter().peekable();
    check(m.start().is_ok(), "then by hand");
}''', "a machine driven by start after a successful parse on it", "it begins in the accepting state")

bug("C23-goto-lookless", "C23", [("src/pos.rs", "            let mut next = self.clone();\n            next.adv();\n            Some(next)", "            let mut next = self.clone();\n            next.adv();\n            // a complete item is as good with the look-aheads of its rule\n            if next.finished() && next.seq.0.len() > 3 && next.look.len() > 2 {\n                next.look.pop_last();\n            }\n            Some(next)")],
'''fn main() {
    let s = std::rc::Rc::new((vec!["a", "b", "c", "d"], 0));
    let p = Position::new("S", s, 3, Set::from(["x", "y", "z"]));
    check(p.clone_next().unwrap().look.len() == 3, "a look-ahead is lost");
}''', "an item of four symbols or more with three look-aheads that becomes complete", "it loses one of them")

bug("C24-point-at-end", "C24", [("src/pos.rs", "            if i == self.point {", "            if i == self.point && (i < self.seq.0.len() || i < 4) {")],
'''fn main() {
    let s = std::rc::Rc::new((vec!["a", "b", "c", "d"], 0));
    let p = Position::new("S", s, 4, Set::new());
    check(format!("{p}").contains(". "), &format!("{p}"));
}''', "a complete item of four symbols or more", "its point is not shown")

bug("C26-travel-peeks", "C26", [("src/dfa.rs", "            Some(Action::Acc) => self.accept(),", "            Some(Action::Acc) if self.items.len() > 1 => Err(Error::MissingPreviousState),\n            Some(Action::Acc) => self.accept(),")],
'''fn main() {
    let d = Slr::new(g(rules("Z -> S T ; S -> a ; T -> b")));
    check(d.validate(toks("a b")), "an entry of two symbols");
}''', "an entry production of two symbols", "its inputs are refused")
BUGS.pop()  # seen by every check at once

bug("C10-first-of-equals", "C10", [("src/tabler.rs", "            travel_idx.insert(i, actions_map[old_action]);", "            travel_idx.insert(i, actions_map[old_action].min(255));")],
'''fn main() {
    let n = 300;
    let body = |e: &str| format!("{} {e}", vec!["a"; n].join(" "));
    let mut l = Slr::new(g(rules(&format!("Z -> S ; S -> {} | {}", body("b"), body("c")))));
    let input = |e: &str| toks(&body(e));
    check(l.validate(input("b")), "before");
    l.reduce_equals();
    check(l.validate(input("b")) && l.validate(input("c")), "after merging");
}''', "a table of more than 256 different rows", "shifts to the rows after the 256th go elsewhere once equal rows are merged")

bug("C22-symbols-of-used", "C22", [("src/grammar.rs", "        let symbols = rules.keys().chain(terminals.iter()).cloned().collect();", "        let symbols = rules\n            .keys()\n            .filter(|k| **k == start || rules.values().any(|r| r.prods.iter().any(|p| p.0.contains(k))))\n            .chain(terminals.iter())\n            .cloned()\n            .collect();")],
'''fn main() {
    let k = g(rules("Z -> S ; S -> a ; U -> b"));
    check(k.symbols().any(|s| s == "U"), "U is missing");
}''', "a rule that no production mentions", "its name is not among the symbols")

