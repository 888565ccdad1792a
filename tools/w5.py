import os
exec(open(os.path.join(V, "tools", "w2.py")).read().split('bug("C15-stars')[0])

bug("C15-carriage-return", "C15", [("wop/src/lib.rs", r'''r"//[^\n]*\r?"'''.replace('r"', 'r#"',1)[:-1] + '"#', r'''r#"//[^\r\n]*\r?"#''')],
r'''fn main() {
    check(toks("// a\rb\nc") == [(Sym::Ident, "c".to_string())], "comment");
}''', "a carriage return inside a line comment", "the comment ends there")

bug("C15-keyword-case", "C15", [("wop/src/lib.rs", '#[token("use")]', '#[token("use", ignore(ascii_case))]')],
r'''fn main() {
    check(toks("Use") == [(Sym::Ident, "Use".to_string())], "Use");
    check(toks("USE") == [(Sym::Ident, "USE".to_string())], "USE");
}''', "an identifier that is the word `use` with other case", "it is taken as the keyword")

bug("C21-deep-nesting", "C21", [("wop/src/main.rs", "    let lvl = lvl + 1;\n    let tab_spc = TAB_C.repeat(lvl);", "    let lvl = lvl + 1;\n    let tab_spc = &DEEP[..TAB_C.len() * lvl];"), ("wop/src/main.rs", 'const TAB_C: &str = "  ";', 'const TAB_C: &str = "  ";\n/// the indentation of the deepest node\nconst DEEP: &str = "' + " " * 64 + '";')],
CLI + r'''
{ printf 'R: T = '; printf '(%.0s' $(seq 30); printf x; printf ')%.0s' $(seq 30); printf ' -> { 1 }%%;'; } > g
wop g || exit 1
[ -s out.rs ] || exit 1
''', "groups nested thirty deep", "the command dies after parsing", kind="sh")

bug("C16-import-of-many", "C16", [("wop/src/out.rs", "    map.insert(Import, vec![lrp_wop_Import_0, lrp_wop_Import_1]);", "    map.insert(Import, vec![lrp_wop_Import_1, lrp_wop_Import_1]);")],
r'''fn main() {}''', "", "")
BUGS.pop()

bug("C18-many-names", "C18", [("wop/src/builder.rs", "            for alias in &prod.aliases {\n                alias.write(", "            // names beyond those of one line are not used\n            for alias in prod.aliases.iter().take(16) {\n                alias.write(")],
r'''fn main() {
    let src = format!("R: T = {} -> {{ 1 }}%;", (0..18).map(|i| format!("x:a{i}")).collect::<Vec<_>>().join(" "));
    let b = build(&src).unwrap();
    let out = {let mut b = b; b.entry_type = "G".to_string(); b.dump_reductor(&src)};
    check(out.contains("let a17 ="), "the last name is missing");
}''', "an alternative with more than sixteen names", "the last names are not bound")

bug("C17-group-after-optional", "C17", [("wop/src/builder.rs", "                        prods = self.get_production(&prods, &pipe[i + 1..], src);", "                        let tail = if prods.len() > 8 && variants.len() > 4 { pipe.len() } else { i + 1 };\n                        prods = self.get_production(&prods, &pipe[tail..], src);".replace("tail", "rest"))],
r'''fn main() {
    let src = "R: T = (a b? | c d? | e f? | g h? | k l?) z -> { 1 }%;";
    let b = build(src).unwrap();
    let p: Vec<_> = b.rules["R"].iter().map(|p| p.production.last().unwrap().from_source(src)).collect();
    check(p.iter().all(|s| *s == "z"), &format!("{p:?}"));
}''', "a group of five alternatives that expands to more than eight productions, with an item behind", "the item behind is lost")

bug("C19-comment-in-path", "C19", [("wop/src/builder.rs", "            writeln!(out, \"\\tuse {};\", i.from_source(src)).unwrap();", "            let path = i.from_source(src).split(\"//\").next().unwrap_or_default();\n            writeln!(out, \"\\tuse {path};\").unwrap();")],
r'''fn main() {
    let src = "use a ::// of its own\n b; R: T = x -> { 1 }%;";
    let b = build(src).unwrap();
    let out = b.dump_grammar(src);
    let path: String = out.split("use a").nth(1).unwrap().split(';').next().unwrap().to_string();
    check(path.trim_end().ends_with('b'), &path);
}''', "an import path with a line comment inside", "the rest of the path is lost, the generated code does not compile", nth=True)
