import os
exec(open(os.path.join(V, "tools", "b.py")).read().split("CONF = ")[0])

bug("C10-nested-conflict", "C10", [("src/tabler.rs", "                Self::update_entry(a, travel);\n                Self::update_entry(b, travel);", "                for part in [a, b] {\n                    // what is in conflict is an action\n                    if !matches!(**part, Action::Conflict(..)) {\n                        Self::update_entry(part, travel);\n                    }\n                }")],
'''fn all<'a>(a: &'a Action<&'static str>, v: &mut Vec<&'a Action<&'static str>>) {
    if let Action::Conflict(x, y) = a { all(x, v); all(y, v); } else { v.push(a) }
}
fn main() {
    for s in ["Z -> S ; S -> A q | B x | C x | D x | d W x | d W y | e W V ; V -> x | y ; W -> c ; A -> z x ; B -> z ; C -> z ; D -> z"] {
        let mut p = Clr::new(g(rules(s)));
        p.reduce_equals();
        for row in &p.tables().actions {
            for (t, a) in row {
                let mut v = Vec::new();
                all(a, &mut v);
                if v.len() > 1 {
                    let Some(Action::Shift(n)) = v.iter().find(|a| matches!(a, Action::Shift(..))) else { panic!("no shift on {t}") };
                    // behind z x comes q
                    let next: Vec<_> = p.tables().actions[*n].keys().collect();
                    check(next == [&"q"], &format!("{next:?}"));
                }
            }
        }
    }
}''', "a cell of three competing actions, one of them a shift whose target moves when rows are merged", "the shift of the nested conflict keeps the old number")

bug("C26-conflict-not-expected", "C26", [("src/dfa.rs", "                    .filter(|(_, action)| !matches!(action, Action::Goto(_)))", "                    .filter(|(_, action)| !matches!(action, Action::Goto(_) | Action::Conflict(..)))")],
'''fn main() {
    let l = Lalr::new(g(rules("Z -> S ; S -> S x S | a | S y")));
    let mut d = l.simple_dfa(toks("a x a a"));
    let r = d.start();
    let Err(Error::UnexpectedToken("a", mut e)) = r else { panic!("{r:?}") };
    e.sort();
    check(e == ["$", "x", "y"], &format!("{e:?}"));
    // by hand to the state with the conflict
    let mut d = l.simple_dfa(toks("a x a x"));
    loop {
        let s = d.buffer.peek().map_or("$", |t| t.ty);
        if let Err(Error::Conflict(..)) = d.travel(&s) { break }
    }
    let Err(Error::UnexpectedToken(_, mut e)) = d.travel(&"q") else { panic!() };
    e.sort();
    check(e == ["$", "x", "y"], &format!("{e:?}"));
}''', "travelling over a foreign symbol from a state that has a conflict", "the expected tokens lack those of the conflict")

bug("C23-same-rc", "C23", [("src/pos.rs", "self.point == rhs.point && self.seq == rhs.seq && self.rule == rhs.rule", "self.point == rhs.point && std::rc::Rc::ptr_eq(&self.seq, &rhs.seq) && self.rule == rhs.rule")],
'''fn main() {
    let p = || std::rc::Rc::new((vec!["a", "b"], 0));
    let (x, y) = (Position::new("A", p(), 1, Set::from(["c"])), Position::new("A", p(), 1, Set::from(["d"])));
    check(x.body_eq(&y), "equal bodies differ");
}''', "items whose equal productions were made apart", "they count as different items")

bug("C22-index-of-equal", "C22", [("src/grammar.rs", "            prods: prods\n                .into_iter()\n                .enumerate()\n                .map(|(i, p)| Rc::new((p, i)))\n                .collect(),", "            prods: prods.into_iter().fold(Vec::new(), |mut all: Vec<Rc<Production<T>>>, p| {\n                let i = all.iter().position(|q| q.0 == p && p.len() > 1).unwrap_or(all.len());\n                all.push(Rc::new((p, i)));\n                all\n            }),")],
'''fn main() {
    let r = grammar::Rule::new("A", vec![vec!["a", "b"], vec!["c"], vec!["a", "b"]]);
    check(r.prods[2].1 == 2, &format!("{:?}", r.prods));
}''', "a rule with the same production of two symbols twice", "the later one has the index of the earlier, so it is no declaration of its own")

bug("C24-states-ahead", "C24", [("src/dfa.rs", "        for i in 0.. {\n            if i >= self.states.len() && i >= self.items.len() {\n                break;\n            }\n            if let Some(s) = self.states.get(i) {\n                fmts.push(format!(\"{s}\"));\n            }\n\n            if let Some(it) = self.items.get(i) {\n                fmts.push(format!(\"{:?}\", it.ty));\n            }\n        }", "        // a state, and then each symbol with its state\n        for i in 0..=self.items.len() {\n            if let Some(s) = self.states.get(i) {\n                fmts.push(format!(\"{s}\"));\n            }\n\n            if let Some(it) = self.items.get(i) {\n                fmts.push(format!(\"{:?}\", it.ty));\n            }\n        }")],
'''fn main() {
    let l = Lalr::new(g(rules("Z -> S ; S -> a S | b")));
    let mut d = l.simple_dfa(toks("a b"));
    d.goto(3).unwrap();
    d.goto(2).unwrap();
    check(d.stack_fmt() == "0 3 2", &d.stack_fmt());
}''', "a machine driven by hand whose stack has more states than symbols allow", "the last states are not printed")

bug("C25-step-wraps", "C25", [("src/main.rs", "        let step = out.len() + 1;", "        let step = out.len() as u8 as usize + 1;")],
LRPBIN + r'''
w=$(printf '(%.0s' $(seq 150); printf ')%.0s' $(seq 150))
printf '%s\n' "$w" | session > "$d/out" || exit 1
# 300 shifts, 150 reductions
grep -q '^| *450 *|' "$d/out" || exit 1
''', "a parse of more than 256 steps", "the numbers of the steps start again", kind="sh")

bug("C25-buffer-of-last", "C25", [("src/main.rs", "                .chain(std::iter::once(eof.clone()))", "                .chain(Some(eof.clone()).filter(|_| state.items.len() < 40))")],
LRPBIN + r'''
w=$(printf '[%.0s' $(seq 60); printf ']%.0s' $(seq 60))
printf '%s\n' "$w" | session > "$d/out" || exit 1
n=$(grep -c '"\$"\] *|' "$d/out")
# a row for each step of the run
[ "$n" -ge 180 ] || exit 1
''', "a word nested 40 deep", "the end marker is missing in the buffers of those steps", kind="sh")

bug("C13-top-of-long-handle", "C13", [("src/dfa.rs", "        self.states.truncate(len - prod.0.len());\n", "        self.states.truncate(len - prod.0.len().min(12));\n")],
'''fn main() {
    let body = vec!["a"; 14];
    let l = Lalr::new(g(rules("Z -> S ; S -> a a a a a a a a a a a a a a")));
    let mut d = l.simple_dfa(body.into_iter().map(Token::empty).collect::<Vec<_>>());
    let mut ok = true;
    d.trace(|d| ok &= d.states.len() == d.items.len() + 1).unwrap();
    check(ok, "the stack of states is out of step");
}''', "a production of more than twelve symbols", "states are left on the stack")

bug("C09-parse-keeps-peeked", "C09", [("src/dfa.rs", "        self.reset();\n        self.buffer = input.peekable();\n        self.start()?;", "        self.reset();\n        // tokens of the last run, if any, are thrown away\n        let pending = self.buffer.peek().is_some_and(|_| self.items.len() > 1);\n        self.buffer = input.peekable();\n        if pending {\n            self.buffer.next();\n        }\n        self.start()?;")],
'''fn main() {}''', "", "")
BUGS.pop()

bug("C05-named-by-eof", "C05", [("src/dfa.rs", "                Err(Error::UnexpectedToken(symbol.clone(), expecteds))", "                let found = if self.items.len() > 300 { &self.eof } else { symbol };\n                Err(Error::UnexpectedToken(found.clone(), expecteds))")],
'''fn main() {
    let l = Clr::new(g(rules("Z -> S ; S -> a S | b")));
    let mut v = vec![Token::empty("a"); 400];
    v.push(Token::empty("c"));
    let r = l.simple_dfa(v).start();
    check(matches!(r, Err(Error::UnexpectedToken("c", _))), &format!("{r:?}"));
}''', "an error behind more than 300 symbols on the stack", "the end marker is named instead of the wrong token")

bug("C11-merge-misses-shift", "C11", [("src/lalr.rs", "        if &new_kernel == main {\n            None?;\n        }", "        let size = |k: &State<T>| k.iter().map(|p| p.look.len()).max();\n        if &new_kernel == main || (main.len() > 2 && size(&new_kernel) == size(main)) {\n            None?;\n        }")],
'''fn main() {
    // three items of one kernel, each with looks of its own
    let s = "Z -> S ; S -> p A x | p A w | p B y | p C z | q A x | q B y | q C z | r A x | r B z | r C s ; A -> u ; B -> u ; C -> u";
    let l = Lalr::new(g(rules(s)));
    check(l.tables().conflicts().count() > 0, "the grammar is not LALR");
}''', "a kernel of three or more items that gains look-aheads without the largest set growing", "the look-aheads are lost")
