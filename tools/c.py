
import os
exec(open(os.path.join(V, "tools", "b.py")).read().split('CONF =')[0])

bug("C08-last-already-followed", "C08", [("src/tabler.rs", "                if !self.grammar.is_terminal(last) && last != &rule.name {", "                // the loop has seen it already\n                let seen = prod.windows(2).any(|w| &w[0] == last && self.grammar.is_terminal(&w[1]));\n                if !self.grammar.is_terminal(last) && last != &rule.name && !seen {")],
'''fn main() {
    let t = Tabler::new(g(rules("Z -> S ; S -> B x B ; B -> e")));
    check(t.follow["B"] == Set::from(["$", "x"]), &format!("{:?}", t.follow));
}''', "a production with the same nonterminal in the middle and at its end", "FOLLOW of that nonterminal lacks FOLLOW of the rule")

bug("C10-nested-conflict-stale", "C10", [("src/tabler.rs", "                Self::update_entry(a, travel);\n                Self::update_entry(b, travel);\n                return;", "                for side in [a, b] {\n                    if !matches!(**side, Action::Conflict(..)) {\n                        Self::update_entry(side, travel);\n                    }\n                }\n                return;")],
'''fn main() {
    // two equal rows before the target of a shift that takes part in a conflict of three
    let k = g(rules("Z -> S ; S -> A e | B e | C x e | a a e ; A -> a ; B -> a ; C -> a"));
    let mut k = Slr::new(g(rules("Z -> S ; S -> a p | b p | c A x y | c B x z | c d x w ; A -> d ; B -> d")));
    let states = |d: &Slr<&'static str>, a: &Action<&'static str>| -> Vec<usize> {
        fn go(a: &Action<&'static str>, o: &mut Vec<usize>) { match a { Action::Shift(n) => o.push(*n), Action::Conflict(a, b) => { go(a, o); go(b, o) } _ => () } }
        let mut o = vec![]; go(a, &mut o); o
    };
    let before: Vec<Map<_, _>> = k.table.conflicts().flat_map(|c| states(&k, c)).map(|s| k.table.actions[s].clone()).collect();
    check(!before.is_empty(), "no conflict with a shift");
    k.reduce_equals();
    let after: Vec<Vec<_>> = k.table.conflicts().flat_map(|c| states(&k, c)).map(|s| k.table.actions[s].keys().cloned().collect::<Vec<_>>()).collect();
    check(before.iter().map(|r| r.keys().cloned().collect::<Vec<_>>()).collect::<Vec<_>>() == after, &format!("{before:?} {after:?}"));
}''', "a cell of three conflicting actions with a shift among the first two, to a state that is renumbered by merging", "the shift in the conflict refers to another state or to none")

bug("C14-bare-dropped", "C14", [("src/parser.rs", "        'outter: for state in states {\n", "        'outter: for state in states {\n            // nothing to merge\n            if state.look.is_empty() && new.iter().any(|p| p.rule == state.rule) {\n                continue;\n            }\n")],
'''fn main() {
    let p = std::rc::Rc::new((vec!["a", "b"], 0));
    let s: State<&str> = State::from([Position::new("A", p.clone(), 0, Set::new()), Position::new("A", p, 1, Set::new())]);
    check(Lalr::merged(s).len() == 2, "an item was lost");
}''', "an item without look-aheads after another item of its rule", "it is dropped")

bug("C11-one-change-per-row", "C11", [("src/lalr.rs", "                        next = next.min(self.table.kernels[&nk]);", "                        next = next.min(self.table.kernels[&nk]);\n                        // the rest of the row comes with the new look-aheads\n                        break;")],
'''fn main() {
    // more in the other file
    let ks = ["Z -> S ; S -> a A d | b A e | c B d ; A -> x | B ; B -> x y | A z", "Z -> S ; S -> p A | q B ; A -> x B u | y ; B -> x A v | y | A w ; ",
      "Z -> E ; E -> E + T | T ; T -> T * F | F ; F -> ( E ) | i", "Z -> S ; S -> L = R | R ; L -> * R | i ; R -> L",
      "Z -> S ; S -> A a S b | B c ; A -> d B | e ; B -> d A f | e g"];
    for k in ks {
        let l = Lalr::new(g(rules(k)));
        // every state has the items of the union of the canonical states with its core
        let c = Clr::new(g(rules(k)));
        let mut want: Map<State<&str>, State<&str>> = Map::new();
        for s in &c.table.states { want.entry(Lalr::without_look(s)).or_default().extend(s.iter().cloned()); }
        for s in &l.table.states {
            let w = Lalr::merged(want[&Lalr::without_look(s)].clone());
            check(Lalr::merged(s.clone()) == w, &format!("{k}: {s:?} != {w:?}"));
        }
    }
}''', "an LALR state one of whose successors, a later state, gains look-aheads and is not the last in symbol order", "the other successors are not built or do not gain theirs")

bug("C04-first-of-entry", "C04", [("src/dfa.rs", "        let res = self.items.pop().ok_or(Error::MissingPreviousState)?;\n        self.reset();", "        let res = self.items.drain(..).next().ok_or(Error::MissingPreviousState)?;\n        self.reset();")],
'''fn t(x: &[Token<u32, &'static str>]) -> u32 { x[0].item }
fn main() {
    let c = Lalr::new(g(rules("Z -> S T ; S -> a ; T -> b")));
    let m: ReductMap<u32, &str> = c.tables().grammar.rules().map(|r| (r.name, vec![t as ReductFn<u32, &str>; 3])).collect();
    let mut d = c.dfa(Vec::new().into_iter(), m);
    let v = d.parse(vec![Token::new(1, "a"), Token::new(2, "b")].into_iter());
    check(v == Ok(2), &format!("{v:?}"));
}''', "an entry production of two symbols or more, parsed on a machine", "the result is the value of its first symbol")

bug("C22-rule-twice-dropped", "C22", [("src/grammar.rs", "            prods: prods\n                .into_iter()\n                .enumerate()", "            prods: prods\n                .into_iter()\n                // said twice is said once\n                .scan(None, |last: &mut Option<Vec<T>>, p| {\n                    let same = last.as_ref() == Some(&p) && p.len() > 1;\n                    *last = Some(p.clone());\n                    Some(if same { None } else { Some(p) })\n                })\n                .flatten()\n                .enumerate()")],
'''fn main() {
    let r = grammar::Rule::new("A", vec![vec!["a", "b"], vec!["a", "b"], vec!["c"]]);
    check(r.prods.len() == 3 && r.prods[2].1 == 2, &format!("{r:?}"));
}''', "a rule with the same alternative of two symbols or more twice in a row", "the second one is gone, the numbers after it shift")

bug("C23-finished-early", "C23", [("src/pos.rs", "        if self.finished() {\n            None", "        // nothing to see behind a symbol that came back to its own rule's start\n        if self.finished() || (self.point > 1 && self.seq.0.len() > 3 && self.seq.0[..self.point].iter().all(|s| s == &self.seq.0[0]) && self.top().as_ref() == Some(&self.rule)) {\n            None")],
'''fn main() {
    let p = Position::new("A", std::rc::Rc::new((vec!["a", "a", "A", "b"], 0)), 2, Set::from(["$"]));
    check(p.clone_next().map(|n| n.point) == Some(3), "no next item");
}''', "an item of a production of four symbols or more that has its rule after two equal symbols", "it cannot be advanced")

bug("C25-unfinished-last-line", "C25", [("src/main.rs", "        let tokens: Result<Vec<_>, _> = input\n", "        if !input.ends_with('\\n') {\n            break;\n        }\n        let tokens: Result<Vec<_>, _> = input\n")],
LRPBIN + '''n=$(printf '()\\n[]' | session | grep -c '| ok')
[ "$n" = 2 ]
''', "a last line without a line end", "it is dropped", kind="sh")

bug("C25-inner-blank", "C25", [("src/main.rs", "            .trim()\n            .chars()", "            .trim()\n            .chars()\n            .filter(|c| *c != '\\r')")],
LRPBIN + '''n=$(printf '(\\r)\\n[]\\n' | session | grep -c '| ok')
[ "$n" = 1 ]
''', "a carriage return inside a line", "it is ignored instead of refused", kind="sh")

bug("C13-operands-left", "C13", [("src/dfa.rs", "        self.items.truncate(len - prod.0.len());\n", "        // an entry of its own needs no clearing\n        let keep = usize::from(prod.0.len() > 3 && prod.0[0] == prod.0[1] && prod.0[1] == prod.0[2]);\n        self.items.truncate(len - prod.0.len() + keep);\n")],
'''fn main() {
    let d = Lalr::new(g(rules("Z -> S ; S -> a a a b")));
    let mut m = d.simple_dfa(toks("a a a b"));
    let mut bad = false;
    let _ = m.trace(|d| if d.states.len() != d.items.len() + 1 { bad = true });
    check(!bad, "one state more than symbols");
}''', "a production of four symbols or more that begins with the same symbol three times", "one of its operands stays on the stack")

bug("C12-small-names-first", "C12", [("src/tabler.rs", "                    if rc.0[0] == rule.name {", "                    if rc.0[0] == rule.name || (rc.0.len() > 2 && rc.0[0] > rule.name && rule.prods.iter().any(|p| p.0.len() == 1 && p.0[0] > rc.0[0])) {")],
'''fn main() {
    let a = Tabler::new(g(rules("Z -> A ; A -> B b c | d ; B -> e")));
    let d = Tabler::new(g(rules("Z -> A ; A -> B b c | D ; B -> e ; D -> d")));
    check(d.first["A"] == Set::from(["d", "e"]), &format!("{:?}", d.first));
    let _ = a;
}''', "a rule with a production of three symbols whose first one comes after the rule's name and before that of a single-symbol alternative", "FIRST lacks what that symbol begins with")

bug("C07-unknown-skipped", "C07", [("src/dfa.rs", "            self.travel(&symbol)?;", '''            // what no row knows was put there by accident
            if self.items.len() > 1 && self.buffer.peek().is_some() && !self.table.iter().any(|row| row.contains_key(&symbol)) && self.finished_before() {
                self.buffer.next();
                continue;
            }
            self.travel(&symbol)?;'''), ("src/dfa.rs", "    /// # Errors\n    /// None\n    pub fn goto", "    fn finished_before(&self) -> bool {\n        self.table.get(self.top).is_some_and(|row| row.contains_key(&self.eof) && row.len() > 1)\n    }\n\n    /// # Errors\n    /// None\n    pub fn goto")],
'''fn main() {
    let d = Lalr::new(g(rules("Z -> S ; S -> a S | a")));
    check(!d.validate(toks("a a ? a")) && !d.validate(toks("a a ?")), "accepted");
}''', "an unknown token after two symbols or more, in a state where the input may end or go on", "the token is skipped and the input accepted")
