import os
exec(open(os.path.join(V, "tools", "w2.py")).read().split('bug("C15-stars')[0])

bug("C17-many-expansions", "C17", [("wop/src/builder.rs", "            let mut out = Vec::new();\n            for origin in origin {\n                out.extend(self.get_from_single_production(origin, pipe, src));\n            }\n            out", "            let mut out = Vec::new();\n            for origin in origin {\n                out.extend(self.get_from_single_production(origin, pipe, src));\n            }\n            // a rule of that many productions is a mistake of the expansion\n            out.truncate(200);\n            out")],
r'''fn main() {
    let src = format!("R: T = x {} -> {{ 1 }}%;", "y? ".repeat(8));
    let b = build(&src).unwrap();
    check(b.rules["R"].len() == 256, &format!("{}", b.rules["R"].len()));
}''', "a body with eight optional items", "its last productions are missing")

bug("C18-index-of-group", "C18", [("wop/src/builder.rs", "        alias.index += self.production.len();\n", "        alias.index += self.production.len().min(15);\n")],
r'''fn main() {
    let src = format!("R: T = {} y:z -> {{ 1 }}%;", "x ".repeat(17));
    let b = build(&src).unwrap();
    check(b.rules["R"][0].aliases[0].index == 17, &format!("{:?}", b.rules["R"][0].aliases));
}''', "a name behind more than fifteen items", "it is bound to an earlier item")

bug("C19-last-rule-again", "C19", [("wop/src/builder.rs", "            .is_none(),\n            \"rule {} was already defined\",".replace("            .is_none", "                .is_none"), "                .is_none_or(|old: RuleBuild| rule.is_empty() || (old.len() > 2 && old[0].production.len() > 2)),\n            \"rule {} was already defined\",")],
r'''fn main() {
    let r = "R: T = a b c -> { 1 }% | b -> { 1 }% | c -> { 1 }%;";
    check(build(&format!("{r} {r}")).is_none(), "accepted");
}''', "a rule of three alternatives or more defined twice, the first alternative having three items", "the file is accepted and the first definition lost")

bug("C19-late-alias", "C19", [("wop/src/builder.rs", "        let program = Self::get_program_instructions(ast);\n        for decl in program {", "        let program = Self::get_program_instructions(ast);\n        // what the rules refer to comes first\n        for decl in program {\n            if let (Ast::Alias(tk, alias), true) = (&decl.item.item, program.len() > 4) {\n                self.token_decl(*tk, *alias, src);\n            }\n        }\n        for decl in program {\n            if matches!(decl.item.item, Ast::Alias(..)) && program.len() > 4 {\n                continue;\n            }")],
r'''fn main() {
    let src = "A: T = w -> { 1 }%; B: T = x -> { 1 }%; C: T = x -> { 1 }%; D: T = x -> { 1 }%; alias w V;";
    let b = build(src).unwrap();
    check(b.rules["A"][0].production[0].from_source(src) == "w", "an alias holds before it is declared");
}''', "a file of more than four declarations with a rule before an alias it uses", "the alias holds for rules before it")

bug("C16-path-of-many", "C16", [("wop/src/out.rs", "                let item = Some(toks[0].clone());\n                let opt = Some(toks[1].clone());\n                let cl = Some(toks[3].clone());", "                let mut item = Some(toks[0].clone());\n                if let Some(i) = item.as_mut() {\n                    // an item is no longer than this\n                    i.item.span.end = i.item.span.end.min(i.item.span.start + 255);\n                }\n                let opt = Some(toks[1].clone());\n                let cl = Some(toks[3].clone());")],
r'''fn main() {
    let long = "n".repeat(300);
    let src = format!("R: T = {long}?:&b -> {{ 1 }}%;");
    let b = build(&src).unwrap();
    check(b.rules["R"][0].production[0].from_source(&src) == long, "cut");
}''', "an optional, cloned and named item of more than 255 bytes", "its text is cut", nth=True)

