import os
exec(open(os.path.join(V, "tools", "w2.py")).read().split('bug("C15-stars')[0])
EXP = "                                    new.aliases[prod.aliases.len() - 1].final_index =\n                                        Some(new.production.len());"
bug("C17-equal-neighbours", "C17", [("wop/src/builder.rs", "            rules.extend(self.get_production(&[base], &prod.0, src));\n        }\n", "            rules.extend(self.get_production(&[base], &prod.0, src));\n        }\n        // the same production twice would only be a conflict\n        rules.dedup_by(|a: &mut ProductionBuild, b| a.codeblock == b.codeblock && a.production == b.production && a.aliases == b.aliases);\n")],
r'''fn main() {
    let src = "alias w A; alias v A; R: T = x (w | v) y -> { 1 }%;";
    let b = build(src).unwrap();
    check(b.rules["R"].len() == 2, &format!("{}", b.rules["R"].len()));
}''', "two words for the same symbol in one group", "one of the two equal productions is dropped")
BUGS.pop()  # the spans are those of the two aliases, so nothing is dropped

bug("C17-equal-by-text", "C17", [("wop/src/builder.rs", "            rules.extend(self.get_production(&[base], &prod.0, src));\n        }\n", "            let mut prods = self.get_production(&[base], &prod.0, src);\n            // twice the same would only be a conflict\n            let words = |p: &ProductionBuild| p.production.iter().map(|s| s.from_source(src).to_string()).collect::<Vec<_>>();\n            prods.dedup_by(|a, b| words(a) == words(b));\n            rules.extend(prods);\n        }\n")],
r'''fn main() {
    let src = "R: T = x? x? -> { 1 }%;";
    let b = build(src).unwrap();
    check(b.rules["R"].len() == 4, &format!("{}", b.rules["R"].len()));
}''', "an optional item next to an equal one", "the production that can be had in two ways is kept once")

bug("C18-last-alias-ends", "C18", [("wop/src/builder.rs", EXP, "                                    new.aliases.last_mut().unwrap().final_index =\n                                        Some(new.production.len());")],
r'''fn main() {
    let src = "R: T = (a b:x):y -> { 1 }%;";
    let b = build(src).unwrap();
    let p = &b.rules["R"][0];
    check(p.aliases.iter().any(|a| a.alias.from_source(src) == "x" && a.final_index.is_none()), &format!("{:?}", p.aliases));
}''', "a named group with a name inside", "the inner name ends where the group does")

bug("C18-absent-takes-first", "C18", [("wop/src/builder.rs", "                    // an alias that is already known to be absent must stay absent\n                    prod_alias.optional.get_or_insert(true);", "                    prod_alias.optional = Some(true);")],
r'''fn main() {
    let src = "R: T = (a b?:x) c -> { 1 }%;";
    let b = build(src).unwrap();
    check(b.rules["R"].iter().any(|p| p.aliases[0].optional == Some(false)), "absent");
}''', "an optional named item inside a group", "in the production without it the name holds another item")
BUGS.pop()  # a line of a fix

bug("C19-alias-same-target", "C19", [("wop/src/builder.rs", "                .is_none(),\n            \"overriding an already", "                .is_none_or(|old: SrcRef| old.from_source(src) == alias.from_source(src)),\n            \"overriding an already")],
r'''fn main() {
    check(build("alias \"x\" A; alias \"x\" A; R: T = \"x\" -> { 1 }%;").is_none(), "accepted");
}''', "the same alias declared twice with the same symbol", "the file is accepted")

bug("C19-code-of-next", "C19", [("wop/src/builder.rs", "        for prod in rule {\n            assert_ne!(", "        for prod in rule {\n            if prod.1 == SrcRef::new(0, 0) && rule.len() > 2 {\n                continue;\n            }\n            assert_ne!(")],
r'''fn main() {
    check(build("R: T = a | b | c -> { 1 }%;").is_none(), "accepted");
}''', "a rule of three alternatives or more, one without a code block", "the alternative is left out instead of refused")

bug("C15-form-feed", "C15", [("wop/src/lib.rs", r'''#[regex(r"[ \t\n\r]+", logos::skip)]''', r'''#[regex(r"[ \t\n\r\f]+", logos::skip)]''')],
r'''fn main() {
    check(toks("a \x0c b").iter().any(|t| t.0 == Sym::Error), "form feed");
}''', "a form feed between tokens", "it is skipped as a blank")

bug("C15-ascii-words", "C15", [("wop/src/lib.rs", r'''#[regex(r#"[a-zA-Z_]\w*"#)]''', r'''#[regex(r#"[a-zA-Z_][a-zA-Z0-9_]*"#)]''')],
r'''fn main() {
    check(toks("caf\u{e9} b") == [(Sym::Ident, "caf\u{e9}".to_string()), (Sym::Ident, "b".to_string())], "identifier");
}''', "an identifier with a letter outside ASCII after its first", "it is split")

bug("C15-string-line", "C15", [("wop/src/lib.rs", r'''#[regex(r#""([^"\\]|\\.)*""#)]''', r'''#[regex(r#""([^"\\\n]|\\.)*""#)]''')],
r'''fn main() {
    check(toks("\"a\nb\" c").len() == 2, "string");
}''', "a string literal over two lines", "it is an error")

bug("C20-clone-of-group", "C20", [("wop/src/wop.grammar", '''    | "(" Rule:&rule ")" Optional?:opt (":" "&"?:cl Ident:id)? -> {
    Ast::RuleItem(Box::new(rule), opt.is_some(), id.map(|id| id.item.span), cl.is_some())''', '''    | "(" Rule:&rule ")" Optional?:opt (":" "&"?:cl Ident:id)? -> {
    Ast::RuleItem(Box::new(rule), opt.is_some(), id.map(|id| id.item.span), cl.is_some() && opt.is_none())''')],
r'''fn main() {
    let src = std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap();
    let b = build(&src).unwrap();
    check(b.dump_reductor_ok(&src), "the description");
}
trait D { fn dump_reductor_ok(&self, src: &str) -> bool; }
impl D for Builder { fn dump_reductor_ok(&self, src: &str) -> bool {
    let r = &self.rules["RuleItem"];
    r.iter().all(|p| p.codeblock.from_source(src).contains("cl.is_some())")) 
} }''', "an optional group with a clone mark", "the parser made of the description loses the mark, the shipped one keeps it")

bug("C21-stale-temporary", "C21", [("wop/src/main.rs", '    let out = File::create("out.rs.tmp")?;', '    let out = fs::OpenOptions::new().write(true).create(true).open("out.rs.tmp")?;')],
CLI + '''echo 'R: T = a -> { 1 }%;' > in.grammar
yes x | head -c 20000 > out.rs.tmp
wop in.grammar; ! grep -q '^x$' out.rs
''', "a longer out.rs.tmp left by an earlier run", "out.rs ends in the rest of it", kind="sh")
BUGS.pop()  # a line of a fix

bug("C21-lossy-text", "C21", [("wop/src/main.rs", "    let file = fs::read_to_string(path)?;", "    let file = String::from_utf8_lossy(&fs::read(path)?).into_owned();")],
CLI + r'''printf '// caf\351\nR: T = a -> { 1 }%%;\n' > in.grammar
! wop in.grammar && [ ! -e out.rs ]
''', "a file that is not text, in a comment only", "the command succeeds", kind="sh")

bug("C21-slow-print", "C21", [("wop/src/main.rs", "                if let Some(a) = a {\n                println!(\"{:?}\", a.from_source(txt));", "")] if False else [("wop/src/main.rs", '        println!("\\"{}\\" ({m:?}) [{s:?}]", &file[s.clone()]);', '        let text = &file[s.clone()];\n        let text = if text.len() > 70 { &text[..70] } else { text };\n        println!("\\"{text}\\" ({m:?}) [{s:?}]");')],
CLI + r'''printf 'R: T = "%s\303\251" -> { 1 }%%;\n' "$(printf 'x%.0s' $(seq 68))" > in.grammar
wop in.grammar && grep -q reduct_map out.rs
''', "a token of more than 70 bytes whose 70th is inside a character", "the command panics on a valid file", kind="sh")

bug("C27-lost-rename", "C27", [("wop/src/main.rs", '    fs::rename("out.rs.tmp", "out.rs")?;', '    if fs::rename("out.rs.tmp", "out.rs").is_err() {\n        fs::copy("out.rs.tmp", "out.rs")?;\n    }')],
"", "", "")
BUGS.pop()  # a line of a fix

bug("C16-optional-span", "C16", [("wop/src/out.rs", "let id = Some(toks[5].clone());", "let id = Some(toks[toks.len() - 1].clone());")],
"", "", "", nth=True)
BUGS.pop()

bug("C16-nested-code", "C16", [("wop/src/out.rs", "                lrp::grammar::Rule::new(\n                    Rule,", "                lrp::grammar::Rule::new(\n                    Rule,")], "", "", "")
BUGS.pop()
