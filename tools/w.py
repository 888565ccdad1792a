BUGS = []
PRE = r'''
use wop::{builder::Builder, Sym};
fn check(c: bool, m: &str) { if !c { eprintln!("{m}"); std::process::exit(1) } }
fn toks(s: &str) -> Vec<(Sym, String)> { wop::lexer(s).map(|t| (t.ty, t.item.span.from_source(s).to_string())).collect() }
fn build(s: &str) -> Option<Builder> {
    std::panic::set_hook(Box::new(|_| {}));
    let s = s.to_string();
    std::panic::catch_unwind(move || s.parse::<Builder>().ok()).ok().flatten()
}
'''
def bug(id, property, edits, demo, needs, breaks, kind="wop", **k):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=(PRE + demo) if kind == "wop" else demo, needs=needs, breaks=breaks, kind=kind, **k))

bug("C15-known-escapes-only", "C15", [("wop/src/lib.rs", '''r#""([^"\\\\]|\\\\.)*""#''', '''r#""([^"\\\\]|\\\\["\\\\nrt0])*""#''')],
r'''fn main() {
    check(toks(r#""a\d" x"#) == [(Sym::StrLit, r#""a\d""#.to_string()), (Sym::Ident, "x".to_string())], "string");
}''', "a string literal with an escape other than the usual ones", "the literal is no token any more")

bug("C15-word-then-digit", "C15", [("wop/src/lib.rs", '''#[regex(r#"[a-zA-Z_]\\w*"#)]''', '''#[regex(r#"[a-zA-Z]\\w*|_+[a-zA-Z]\\w*"#)]''')],
r'''fn main() {
    check(toks("x _ y").iter().all(|t| t.0 == Sym::Ident), "underscore");
    check(toks("_1 y").iter().all(|t| t.0 == Sym::Ident), "underscore and digit");
}''', "an identifier of underscores, or of underscores followed by a digit", "it is no identifier any more")

bug("C16-clone-mark-lost", "C16", [("wop/src/out.rs", '''                let rule = toks[1].clone();
                let mut opt = Some(toks[0].clone());
                opt = None;
                let opt = opt;
                let cl = Some(toks[4].clone());''', '''                let rule = toks[1].clone();
                let mut opt = Some(toks[0].clone());
                opt = None;
                let opt = opt;
                let cl = None::<&Gramem>;''')],
r'''fn main() {
    let src = "a: b = (c d):&e -> { 1 }%;";
    let mut p = wop::build_parser(wop::lexer(src));
    check(p.start().is_ok(), "rejected");
    let wop::Ast::Program(v) = &p.items[0].item.item else { panic!() };
    let wop::Ast::RuleDecl((_, _, r)) = &v[0].item.item else { panic!() };
    let wop::Ast::RuleItem(_, _, _, clone) = &r[0].0[0].item.item else { panic!() };
    check(*clone, "the clone mark is lost");
}''', "a group that is not optional with a clone mark", "the item is bound by reference instead of cloned")

bug("C16-path-span", "C16", [("wop/src/out.rs", "let span = Span::new(ip.item.span.start, ext.item.span.end);", "let span = Span::new(ip.item.span.start, ip.item.span.end + 2 + (ext.item.span.end - ext.item.span.start));")],
r'''fn main() {
    let src = "R :: S: a = b -> { 1 }%;";
    let b = build(src).unwrap();
    check(b.rules.contains_key("R :: S"), &format!("{:?}", b.rules));
}''', "a path written with blanks or comments around its ::", "the path is cut short")

bug("C17-optional-first-in-group", "C17", [("wop/src/builder.rs", "                        if i < pipe.len() {\n                            prods = self", "                        if i < pipe.len() {\n                            // alternatives that come to the same\n                            prods.dedup_by(|a, b| a.production.len() == b.production.len() && a.aliases == b.aliases && a.production.last().map(|s| s.from_source(src)) == b.production.last().map(|s| s.from_source(src)));\n                            prods = self")],
r'''fn main() {
    let b = build("R: T = a (b | c d e | c f e | g) h -> { 1 }%;").unwrap();
    check(b.rules["R"].len() == 4, &format!("{}", b.rules["R"].len()));
}''', "a group with two alternatives in a row of the same length that begin and end alike, followed by another item", "one of them is dropped")

bug("C17-alias-of-path-in-group", "C17", [("wop/src/builder.rs", "                Sym::IdentPath => prod.production.push(*get_definition(false)),", "                Sym::IdentPath if origin.production.is_empty() => prod.production.push(*get_definition(false)),\n                Sym::IdentPath => prod.production.push(item.item.span),")],
r'''fn main() {
    let src = "alias tk Tok; R: T = a (tk) tk -> { 1 }%;";
    let b = build(src).unwrap();
    let p: Vec<_> = b.rules["R"][0].production.iter().map(|s| s.from_source(src)).collect();
    check(p == ["a", "Tok", "Tok"], &format!("{p:?}"));
}''', "an aliased word used inside or after a group or optional item that is not the first", "the word itself appears in the grammar")

bug("C18-same-name-twice", "C18", [("wop/src/builder.rs", "                    .aliases\n                    .iter_mut()\n                    .find(|a| a.alias.from", "                    .aliases\n                    .iter_mut()\n                    .filter(|a| a.alias == alias.alias)\n                    .find(|a| a.alias.from".replace(".iter_mut()\n                    .filter", ".iter_mut().filter"))],
r"""fn main() {
    let src = "R: T = a (b:x | c:x d) -> { 1 }%;";
    let b = build(src).unwrap();
    let p = &b.rules["R"][1];
    check(p.aliases.len() == 1 && p.aliases[0].optional == Some(true), &format!("{:?}", p.aliases));
}""", "the same name in two alternatives of a group", "in the second one it is bound, and then once more as absent")

bug("C18-vec-of-one", "C18", [("wop/src/builder.rs", '''            |findex| format!("{:?}", self.index..findex),''', '''            |findex| {
                if findex - self.index > 4 {
                    // long groups read better this way
                    format!("{}..={}", self.index, findex)
                } else {
                    format!("{:?}", self.index..findex)
                }
            },''')],
r'''fn main() {
    let src = "R: T = (a b c d e):x f -> { 1 }%;";
    let b = build(src).unwrap();
    let d = b.rules["R"][0].aliases[0].dump(src);
    check(d.contains("0..5]"), &d);
}''', "a named group of more than four items", "the name also covers the item after the group (or the action panics at the end)")

bug("C18-optional-alias-order", "C18", [("wop/src/builder.rs", "                    ignored_prod.aliases.last_mut().unwrap().optional = Some(false);\n                }\n                if i < pipe.len() {", "                    ignored_prod.aliases.last_mut().unwrap().optional = Some(false);\n                    if ignored_prod.aliases.len() > 2 {\n                        ignored_prod.aliases.swap_remove(0);\n                    }\n                }\n                if i < pipe.len() {")],
r'''fn main() {
    let src = "R: T = a:x b:y c?:z -> { 1 }%;";
    let b = build(src).unwrap();
    check(b.rules["R"][1].aliases.len() == 3, &format!("{:?}", b.rules["R"][1].aliases));
}''', "an optional named item after two other named ones", "the first name is missing where the optional item is")

bug("C19-alias-first-wins", "C19", [("wop/src/builder.rs", "                .insert(tk.from_source(src).to_string(), alias)\n                .is_none(),\n            \"overriding", "                .insert(tk.from_source(src).to_string(), alias)\n                .map_or(true, |old| old.from_source(src) == alias.from_source(src) || old.end > alias.start),\n            \"overriding")],
r'''fn main() {
    check(build("alias \"a\" A; alias \"a\" A; R: T = \"a\" -> { 1 }%;").is_none(), "a second alias is accepted");
}''', "a literal declared twice with the same symbol", "the file is accepted")

bug("C19-action-order", "C19", [("wop/src/builder.rs", "        for (i, _) in prods.iter().enumerate() {\n            write!(out,", "        // longest first, as in the grammar\n        let mut order: Vec<usize> = (0..prods.len()).collect();\n        if prods.len() > 3 {\n            order.sort_by_key(|i| prods[*i].codeblock.start);\n            order.sort_by_key(|i| prods[*i].aliases.len());\n        }\n        for i in order {\n            write!(out,")],
r'''fn main() {
    let src = "R: T = a:x -> { 1 }% | b -> { 2 }% | c -> { 3 }% | d -> { 4 }%;";
    let mut b = build(src).unwrap();
    b.entry_type = "G".into();
    let d = b.dump_reductor(src);
    let tail = &d[d.find("map.insert(").unwrap()..];
    let at: Vec<_> = (0..4).map(|i| tail.find(&format!("R_{i},")).unwrap()).collect();
    check(at.windows(2).all(|w| w[0] < w[1]), tail);
}''', "a rule with four productions or more whose alternatives have different numbers of names", "productions run the action of another alternative")

bug("C20-description-drifts", "C20", [("wop/src/wop.grammar", 'Import: Ast = "use" (IdentPath "::" "*" | IdentPath) -> {\n    Ast::Import(Span::new(toks[1].item.span.start, toks.last().unwrap().item.span.end))', 'Import: Ast = "use" (IdentPath "::" "*" | IdentPath) -> {\n    Ast::Import(toks[1].item.span)')],
r'''fn main() {
    let src = std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap();
    let mut b: Builder = src.parse().unwrap();
    b.entry_type = "Gramem".into();
    check(b.dump_reductor(&src).contains("toks.last().unwrap().item.span.end))\n}"), "the import action differs");
}''', "an import ending in ::*", "the described parser keeps the path without the star, the shipped one keeps it all")
BUGS[-1]["argfile"] = True

bug("C20-shipped-accepts-more", "C20", [("wop/src/out.rs", "vec![AliasWord, Ident, IdentPath,]", "vec![AliasWord, Ident, IdentPath,]")], "", "", "")
BUGS.pop()

bug("C21-created-first", "C21", [("wop/src/main.rs", '    println!("BUILDING OUTPUT");', '    println!("BUILDING OUTPUT");\n    let out = File::create("out.rs")?;'), ("wop/src/main.rs", '    let out = File::create("out.rs")?;\n    let mut writer', '    let mut writer')],
'''#!/bin/bash
repo=$PWD
d=$(mktemp -d)
trap 'find "$d" -delete' EXIT
cp -r wop "$d/wop" && printf '\\n[workspace]\\n' >> "$d/wop/Cargo.toml"
cd "$d/wop" && CARGO_TARGET_DIR=$d/target cargo build --offline -q --bin wop 2>/dev/null || exit 3
mkdir "$d/run" && cd "$d/run" && echo old > out.rs
echo 'R: T = a;' > in.grammar
timeout 60 "$d/target/debug/wop" in.grammar > /dev/null 2>&1 && exit 1
[ "$(cat out.rs)" = old ]
''', "a file that parses but is refused by the builder (no code block, a second rule of the same name), with an out.rs from before", "out.rs is emptied although the command fails", kind="sh")

bug("C21-short-write", "C21", [("wop/src/main.rs", "    let mut writer = BufWriter::new(out);", "    let mut writer = BufWriter::with_capacity(1 << 16, out);"), ("wop/src/main.rs", '''    println!("ELAPSED TIME: {:?}", start.elapsed());
    Ok(())''', '''    println!("ELAPSED TIME: {:?}", start.elapsed());
    std::process::exit(0)''')],
'''#!/bin/bash
repo=$PWD
d=$(mktemp -d)
trap 'find "$d" -delete' EXIT
cp -r wop "$d/wop" && printf '\\n[workspace]\\n' >> "$d/wop/Cargo.toml"
cd "$d/wop" && CARGO_TARGET_DIR=$d/target cargo build --offline -q --bin wop 2>/dev/null || exit 3
mkdir "$d/run" && cd "$d/run"
echo 'R: T = a -> { 1 }%;' > in.grammar
timeout 60 "$d/target/debug/wop" in.grammar > /dev/null 2>&1 || exit 1
grep -q reduct_map out.rs && grep -q 'map.insert(R' out.rs
''', "any file whose output fits the larger buffer", "the buffer is never flushed, out.rs is empty", kind="sh")
