import os
exec(open(os.path.join(V, "tools", "w.py")).read().split('bug("C15')[0])
CLI = '''#!/bin/bash
# builds the wop command of the current directory and runs it
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'find "$d" -delete' EXIT
cp -r wop "$d/wop" && printf '\\n[workspace]\\n' >> "$d/wop/Cargo.toml"
cd "$d/wop" && CARGO_TARGET_DIR=$d/target cargo build --offline -q --bin wop 2>/dev/null || exit 3
mkdir "$d/run" && cd "$d/run"
wop() { timeout 60 "$d/target/debug/wop" "$@" > /dev/null 2>&1; }
'''
bug("C15-stars-comment", "C15", [("wop/src/lib.rs", r'''r#"/\*[^\*]*\*+([^/\*][^\*]*\*+)*/"#''', r'''r#"/\*([^\*]|\*[^/])*\*/"#''')],
r'''fn main() {
    check(toks("a /* x **/ b") == [(Sym::Ident, "a".to_string()), (Sym::Ident, "b".to_string())], "comment");
}''', "a block comment that ends in an even number of stars", "the comment does not end there")

bug("C15-brace-pairs", "C15", [("wop/src/lib.rs", r'''r#"->[^\}]*\}+([^%\}][^\}]*\}+)*%"#''', r'''r#"->[^\}]*\}([^%][^\}]*\})*%"#''')],
r'''fn main() {
    check(toks("-> { f(|| { 1 }) }}% b").len() == 2, "code block");
    check(toks("-> {{{ 1 }}}% b").len() == 2, "code block");
    check(toks("-> {{ 1 }}% b").len() == 2, "code block");
}''', "a code block that ends in an even number of braces", "the code block does not end there")

bug("C16-alias-span", "C16", [("wop/src/out.rs", "Ast::Alias(toks[1].item.span, toks[2].item.span)", "Ast::Alias(toks[1].item.span, Span::new(toks[1].item.span.end + 1, toks[2].item.span.end))")],
r'''fn main() {
    let b = build("alias a    A; R: T = a -> { 1 }%;").unwrap();
    let s = b.aliases.values().next().unwrap();
    check((s.start, s.end) == (11, 12), &format!("{s:?}"));
}''', "an alias whose two parts are more than one blank apart", "the definition has blanks or comments in front", nth=True)

bug("C17-optional-word-alias", "C17", [("wop/src/builder.rs", "                Sym::IdentPath => prod.production.push(*get_definition(false)),", "                Sym::IdentPath if is_optional => prod.production.push(item.item.span),\n                Sym::IdentPath => prod.production.push(*get_definition(false)),")],
r'''fn main() {
    let src = "alias tk Tok; R: T = a tk? -> { 1 }%;";
    let b = build(src).unwrap();
    let p: Vec<_> = b.rules["R"][0].production.iter().map(|s| s.from_source(src)).collect();
    check(p == ["a", "Tok"], &format!("{p:?}"));
}''', "an aliased word as an optional item", "the word itself appears in the grammar")

bug("C18-first-of-optionals", "C18", [("wop/src/builder.rs", "                ignored_prod.production.pop();\n                if alias.is_some() {\n                    ignored_prod.aliases.last_mut()", "                ignored_prod.production.pop();\n                if alias.is_some() {\n                    ignored_prod.aliases.iter_mut().rev().find(|a| a.optional.is_some())")],
r'''fn main() {}''', "", "")
BUGS.pop()

bug("C18-absent-by-name", "C18", [("wop/src/builder.rs", "                if alias.is_some() {\n                    ignored_prod.aliases.last_mut().unwrap().optional = Some(false);\n                }\n                if i < pipe.len() {", "                if let Some(alias) = alias {\n                    let absent = ignored_prod.aliases.iter_mut().find(|a| {\n                        a.alias.from_source(src).starts_with(alias.from_source(src))\n                    });\n                    absent.unwrap().optional = Some(false);\n                }\n                if i < pipe.len() {")],
r'''fn main() {
    let src = "R: T = a:xy b?:x -> { 1 }%;";
    let b = build(src).unwrap();
    let p = &b.rules["R"][1];
    check(p.aliases[0].optional.is_none() && p.aliases[1].optional == Some(false), &format!("{:?}", p.aliases));
}''', "an optional name that is the beginning of an earlier name", "the earlier item is taken for the absent one")

bug("C19-import-prefix", "C19", [("wop/src/builder.rs", "                Ast::Import(decl) => self.use_decl(*decl),", "                // importing it once is enough\n                Ast::Import(decl) if self.imports.iter().any(|i| i.from_source(src).starts_with(decl.from_source(src))) => {}\n                Ast::Import(decl) => self.use_decl(*decl),")],
r'''fn main() {
    let b = build("use crate::symbols::*; use crate::sym; R: T = a -> { 1 }%;").unwrap();
    check(b.imports.len() == 2, &format!("{:?}", b.imports));
}''', "an import whose text begins an earlier import's", "the import is dropped, the generated code does not compile")

bug("C19-types-of-first", "C19", [("wop/src/builder.rs", "            let base = ProductionBuild {\n                production: Vec::new(),\n                codeblock: prod.1,", "            let base = ProductionBuild {\n                production: Vec::new(),\n                // the same code is written once\n                codeblock: rules.iter().map(|r: &ProductionBuild| r.codeblock).find(|c| c.end - c.start == prod.1.end - prod.1.start && c.from_source(src).split_whitespace().zip(prod.1.from_source(src).split_whitespace()).take(6).all(|(a, b)| a == b)).unwrap_or(prod.1),")],
r'''fn main() {
    let src = "R: T = a -> { let x = 1; x + 1 }% | b -> { let x = 1; x + 2 }%;";
    let b = build(src).unwrap();
    check(b.rules["R"][1].codeblock.from_source(src).contains("+ 2"), "the second alternative has the first one's code");
}''', "two alternatives whose code blocks have the same length and begin with the same six words", "the second one runs the first one's code")

bug("C21-print-panics", "C21", [("wop/src/main.rs", '''                print_iter_nested(gs.0.iter(), "- ", lvl + 1, txt);
                println!(
                    "{tab_spc}|> reductor {i}: \\x1B[1;33m\\"{}\\"\\x1B[0;m",
                    gs.1.from_source(txt).strip_prefix("->").unwrap_or("(null)")
                );
            }
        }
        Ast::RulePipe(gs) => {''', '''                print_iter_nested(gs.0.iter(), "- ", lvl + 1, txt);
                println!(
                    "{tab_spc}|> reductor {i}: \\x1B[1;33m\\"{}\\"\\x1B[0;m",
                    &gs.1.from_source(txt)[2..]
                );
            }
        }
        Ast::RulePipe(gs) => {''')],
CLI + '''echo 'R: T = (a | b) c -> { 1 }%;' > in.grammar
wop in.grammar && grep -q reduct_map out.rs
''', "a grammar with a group", "the command panics on a valid grammar", kind="sh")

bug("C21-fatal-exit-zero", "C21", [("wop/src/main.rs", '''            return Err(std::io::Error::new(
                std::io::ErrorKind::InvalidInput,
                "impossible to parse",
            )
            .into());''', '''            if let lrp::Error::UnexpectedToken(Sym::Eof, _) = e {
                println!("incomplete");
                return Ok(());
            }
            return Err(std::io::Error::new(
                std::io::ErrorKind::InvalidInput,
                "impossible to parse",
            )
            .into());'''), ("wop/src/main.rs", "use wop::{builder::Builder, Ast, Gramem};", "use wop::{builder::Builder, Ast, Gramem, Sym};")],
CLI + '''echo 'R: T = a' > in.grammar
! wop in.grammar
''', "a grammar file that ends too early", "the command reports success without an output", kind="sh")

bug("C21-last-argument", "C21", [("wop/src/main.rs", "let path = std::env::args().nth(1).unwrap();", "let path = std::env::args().last().unwrap();")],
CLI + '''echo 'R: T = a -> { 1 }%;' > in.grammar
echo 'Q: T = a -> { 1 }%;' > other.grammar
wop in.grammar other.grammar && grep -q 'map.insert(R' out.rs
''', "more arguments than one", "another file is read", kind="sh")
BUGS.pop()

SHIM = r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <unistd.h>
#include <errno.h>
#include <limits.h>
/* what a full disk or a slow pipe does to calls on one file */
static int is(int fd, const char *part) {
    char l[64], p[PATH_MAX]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, p, sizeof p - 1); if (n < 0) return 0; p[n] = 0; return strstr(p, part) != 0;
}
ssize_t read(int fd, void *b, size_t n) {
    ssize_t (*r)(int, void *, size_t) = dlsym(RTLD_NEXT, "read");
    return r(fd, b, getenv("SHORT_READ") && n > 10 && is(fd, ".grammar") ? 10 : n);
}
ssize_t write(int fd, const void *b, size_t n) {
    static int k = 0;
    ssize_t (*w)(int, const void *, size_t) = dlsym(RTLD_NEXT, "write");
    if (getenv("FAIL_WRITE") && is(fd, "out.rs") && ++k == 1) { errno = ENOSPC; return -1; }
    return w(fd, b, n);
}
'''
SO = '''gcc -shared -fPIC -o "$d/shim.so" "$here/shim.c" -ldl || exit 3
'''
bug("C27-single-read", "C27", [("wop/src/main.rs", "    let file = fs::read_to_string(path)?;", '''    let mut source = File::open(path)?;
    let mut buf = vec![0; source.metadata()?.len() as usize];
    let len = source.read(&mut buf)?;
    buf.truncate(len);
    let file = String::from_utf8(buf)?;'''), ("wop/src/main.rs", "    io::{BufWriter, Write},", "    io::{BufWriter, Read, Write},")],
CLI + SO + '''printf 'use a::b;\\nR: T = b -> { 1 }%%;\\n' > in.grammar
LD_PRELOAD=$d/shim.so SHORT_READ=1 wop in.grammar; rc=$?
[ $rc != 0 ] || grep -q 'map.insert(R' out.rs
''', "a read of the grammar file that returns less than the whole file", "the command succeeds with the output of half a grammar", kind="sh", files={"shim.c": SHIM})

bug("C27-ignored-write-error", "C27", [("wop/src/main.rs", '''        builder.dump_grammar(&file)
    )?;''', '''        builder.dump_grammar(&file)
    )
    .unwrap_or_else(|e| println!("{e}"));''')],
CLI + SO + '''{ for i in $(seq 300); do echo "R$i: T = a b c d e f g -> { $i }%;"; done; } > in.grammar
LD_PRELOAD=$d/shim.so FAIL_WRITE=1 wop in.grammar; rc=$?
[ $rc != 0 ] || [ "$(grep -c 'map.insert(R7,' out.rs)" = 2 ]
''', "a write that fails once, for a grammar too large for one buffer", "the command succeeds with a part of the output missing", kind="sh", files={"shim.c": SHIM})
