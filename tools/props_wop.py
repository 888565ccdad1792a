WT = "The wop crate has no tests at all; its only exercise is the one grammar file it was bootstrapped from, "

prop("C15", "The wop lexer splits every source text into exactly the documented tokens",
  "For every source text, the lexer of grammar files gives the tokens of the leftmost-longest split of the text: punctuation and `::`, identifiers, `alias` and `use` only as whole words, string literals up to the first unescaped quote, code blocks from `->` to the first `}%` (their trailing brace mark included), each with its exact byte span. Blanks, line comments and block comments (up to the first `*/`) separate tokens and are never part of one. At the first place where no token can start the lexer gives an error token that begins there. It never panics and always ends.",
  ["inputs"], "every finite text, including unterminated comments, strings and blocks, and characters of any width",
  WT + "which contains one kind of comment and no odd nesting of `*`, `/`, `}` or quotes.",
  ["wop/src/lib.rs"],
  [("token patterns", "wop/src/lib.rs: Sym (logos attributes)"), ("iterator over tokens", "wop/src/lib.rs: lexer")],
  observe=["wop::lexer items: type, span"],
  tech="exhaustive exploration of all texts up to a length over hostile alphabets on the real lexer, judged by an independent scanner",
  note="Every sequence of pieces up to the listed lengths for each of the alphabets (comments, strings, code blocks, punctuation, words, wide characters). Trusts the reference scanner.")

prop("C16", "The wop parser accepts exactly the grammar-file language and builds its tree",
  "For every token sequence, the parser of grammar files succeeds if and only if the sequence is a grammar file (declarations `use path;`, `alias \"s\" path;`, `name: type = alternatives;` with items, groups, `?`, `:name`, `:&name` and code blocks). If it is not, the error names the first token that cannot continue any grammar file, and nothing after that token is read. If it is, the tree has every declaration, alternative, item and code block of the file, in order and nested as written, with exact spans and with the optional mark, the alias and the clone mark exactly where the file has them.",
  ["inputs"], "every finite sequence of tokens of the lexer, error tokens included",
  WT + "never on a file with an error, and nothing checks the tree.",
  ["wop/src/out.rs", "wop/src/lib.rs"],
  [("productions and tree-building actions", "wop/src/out.rs: grammar, reduct_map"), ("parser construction", "wop/src/lib.rs: build_parser")],
  state=[("items", "the tree built so far", "lrp::Dfa.items"), ("Ast", "node payloads", "wop/src/lib.rs: Ast")],
  observe=["wop::build_parser(..).start / trace result", "Dfa.items"],
  tech="exhaustive exploration of all viable token sequences up to a depth in several contexts, each with every wrong next token, on the real parser, judged by a recursive-descent model",
  note="All viable prefixes of every context to the listed depth, each alone, completed, and followed by every token that cannot come there; verdict, tokens read and the whole tree are compared. Trusts the reference parser.")

prop("C17", "Rule bodies expand to exactly the productions they denote",
  "For every grammar file the builder keeps, for each rule, exactly the multiset of productions that the bodies of its alternatives denote: an item marked `?` is present or absent, a group stands for each of its alternatives, groups nest, items keep their order, literals and aliased words are replaced by the symbol declared for them. Every production carries the code block of the alternative it comes from and the type of its rule.",
  ["programs"], "every grammar file whose alternatives do not expand to an empty production, of any nesting depth",
  WT + "with at most one optional item per alternative in most rules and no nested groups.",
  ["wop/src/builder.rs"],
  [("expansion of alternatives", "wop/src/builder.rs: Builder rule expansion, groups and optional items"), ("aliases", "wop/src/builder.rs: aliases")],
  observe=["Builder.rules"],
  tech="exhaustive enumeration of rule bodies up to a size (all trees of leaves, groups, alternatives and `?`) through the real front end and builder, judged by a denotational model",
  note="Every body up to the listed number of nodes, and every pair of small bodies as two alternatives. Bodies that can be empty are out of scope (the tables do not support empty productions).")

prop("C18", "Generated actions bind every name to exactly the items it stands for",
  "For every accepted grammar file whose names are unique on each path, the code generated for the semantic actions compiles, and the action of every production of an alternative sees each name of that alternative with one and the same type: a reference or a clone of the item as asked for, a slice or a vector of the items for a named group, and `Option` of that if the item is optional or inside a group. In every production a name holds exactly the item (or all the items) its place in the body matched, `None` exactly when it matched nothing, and the resulting token spans from the first to the last item.",
  ["programs"], "every grammar file, every production any of its alternatives expands to",
  WT + "which uses no named groups and few absent names; wrong binding compiles silently when types agree.",
  ["wop/src/builder.rs"],
  [("alias bookkeeping during expansion", "wop/src/builder.rs: set_sub_aliases, final_index, ItemAlias"), ("generated bindings", "wop/src/builder.rs: dump_reductor")],
  observe=["compiled output of Builder::dump_reductor, each action run on marked items"],
  tech="exhaustive enumeration of named bodies up to a size; the generated code is compiled and every action run, judged by a denotational model",
  note="Every body up to the listed size with every placement of names; all generated code is compiled and executed, every binding of every production is compared. Trusts the model of the expansion.")

prop("C19", "A whole grammar file becomes a complete, matching pair of grammar and actions",
  "For every accepted grammar file the generated grammar has every rule of the file under its name (identifier or path) with all its productions, the action list of each rule matches its productions one to one and in order, all imports and aliases take effect in any order of declarations (an alias from its declaration on), and the code compiles with exactly those imports. A file that is not a grammar file, that declares a rule or an alias twice under the same spelling, leaves an alternative without a code block or puts a code block inside a group is refused, and actions are never generated without an entry type.",
  ["programs"], "every grammar file and every text that is not one",
  WT + "with a single layout of declarations.",
  ["wop/src/builder.rs", "wop/src/out.rs", "wop/src/lib.rs"],
  [("declarations", "wop/src/builder.rs: FromStr, imports, aliases, rules"), ("code generation", "wop/src/builder.rs: dump_grammar, dump_reductor")],
  observe=["Builder::from_str", "Builder::dump_grammar", "Builder::dump_reductor"],
  tech="exhaustive enumeration of program layouts and of all their one-token mutations through the real builder; generated code compiled, run and compared with a model",
  note="All combinations of the listed import, alias, naming and ordering styles, and every single-token deletion, duplication, exchange, truncation and insertion of them (quick: of a fixed subset).")

prop("C20", "The shipped wop parser is the one its own grammar file describes",
  "Compiling wop.grammar with the builder gives a grammar with the same rules and productions as the shipped out.rs, the generated code compiles in its place, and the parser made of it and the shipped one give the same tree or the same error on every input.",
  ["inputs"], "every token sequence",
  WT + "and nothing compares the shipped parser with its description.",
  ["wop/src/out.rs", "wop/src/wop.grammar", "wop/src/builder.rs", "wop/src/lib.rs"],
  [("shipped tables and actions", "wop/src/out.rs"), ("description", "wop/src/wop.grammar"), ("code generation", "wop/src/builder.rs")],
  observe=["trees and errors of both parsers"],
  tech="exhaustive exploration of all viable token sequences up to a depth in several contexts on both real parsers, differential",
  note="Productions compared exactly; both parsers run on the whole bounded corpus of C16 (depth one less) and on all program layouts of C19.")

prop("C21", "The wop command writes out.rs completely or not at all",
  "Run on a grammar file, the wop command exits with code 0 if and only if the file is accepted, and then out.rs in the working directory holds the complete generated grammar and actions, which compile and behave as the file says. In every other case - a file with an error, no file, a file that is not text - it exits with another code and leaves an existing out.rs as it was, or none.",
  ["inputs", "histories"], "every file content, with and without an out.rs from before",
  WT + "by hand; nothing runs the command.",
  ["wop/src/main.rs", "wop/src/builder.rs"],
  [("error handling and output", "wop/src/main.rs: main")],
  observe=["exit code", "out.rs before and after"],
  tech="exhaustive enumeration of bounded files and all their one-token mutations; the real command is run on each in a scratch directory and its effects compared with a model",
  note="Every file of the listed families, with and without an old out.rs; the output of all valid files is compiled and run. Does not cover crashes of the machine during the write.")
