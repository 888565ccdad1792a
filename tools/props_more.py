prop("C22", "Grammars, tokens and spans are exactly what was written down",
  "A grammar built from an entry production and rules has as terminals exactly the symbols of its right-hand sides that have no rule, plus the end marker; as symbols its terminals and its rule names; and keeps every alternative of every rule with its number, in order. Its basis item is the entry production at position 0 with the end marker as only look-ahead. The `grammar_map!` macro, with symbols written as literals or as identifiers, gives exactly the rules written in it, and a token sequence made from values or with spans carries exactly those values, types and spans to the actions and results.",
  ["programs", "inputs"], "every entry production and rule set, every way to write them down, every token sequence",
  "The tests use one written form each and never look at the grammar they get.",
  ["src/grammar.rs", "src/lib.rs", "src/pos.rs", "src/parser.rs"],
  [("symbol classification", "src/grammar.rs: Grammar::new, is_terminal, symbols"), ("grammar macro", "src/lib.rs: grammar_map!"), ("token and span constructors", "src/lib.rs: to_tokens, Span, Meta, Token")],
  observe=["Grammar fields and methods", "expansion of grammar_map!", "tokens handed to actions"],
  tech="exhaustive enumeration of bounded grammars and of bounded macro texts; the texts are compiled and run; compared with the text's own meaning",
  note="Every grammar of the bounded families through Grammar::new; every macro text of the listed shapes, in each written form, compiled and compared.", crate="xmc")

prop("C23", "Item operations, closures and gotos compute exactly the textbook item sets",
  "For every grammar without empty productions and every set of its items: stepping, comparing and dropping look-aheads of items do exactly that; the closure of any item set is the least set that holds, for every item with a nonterminal at its point, all initial items of that nonterminal, with exactly the textbook look-aheads (LR(1) for CLR and LALR, none for SLR); stepping a set over a symbol gives exactly its items with that symbol at the point, advanced; and goto is the closure of that.",
  ["programs", "inputs"], "every grammar in scope and every finite set of its items, for each kind of table",
  "No test calls these operations on anything but the states six fixed grammars reach; a wrong result on other sets shows only in other grammars.",
  ["src/pos.rs", "src/parser.rs", "src/clr.rs", "src/lalr.rs", "src/slr.rs", "src/tabler.rs"],
  [("item operations", "src/pos.rs: next, peek, top, finished, adv, clone_next, abs_idx, body_eq, no_look, with_look"), ("closures", "src/{clr,lalr,slr}.rs: closure, prop_closure"), ("stepping and goto", "src/tabler.rs: sym_filter; src/{clr,lalr,slr}.rs: goto; src/parser.rs: merged; src/lalr.rs: without_look")],
  observe=["Position methods", "Parser closure / goto / merged"],
  tech="exhaustive enumeration of items, item pairs and automaton states of all bounded grammars through the real operations, against a reference closure",
  note="All items, all pairs of items up to the listed size, and all states of the textbook automata of all grammars of the bounded families. Item sets of three or more arbitrary items only as automaton states.")

prop("C24", "What is printed shows exactly the parser's configuration",
  "At every step of every run, and after steps taken by hand, the printed stack alternates the states and symbols (and in the debug form the values) of the machine exactly, bottom to top; an item prints as its rule, `=`, its symbols with a dot at its position, and exactly its look-ahead set; a syntax error prints the wrong token and all expectations, a conflict error both conflicting actions. White space, and the order within sets, are not specified.",
  ["programs", "inputs"], "every grammar, kind of table and input, every step of the run",
  "The tests print nothing and compare no printed text.",
  ["src/dfa.rs", "src/pos.rs", "src/parser.rs"],
  [("stack printing", "src/dfa.rs: stack_fmt, stack_debug"), ("item printing", "src/pos.rs: Display, Debug"), ("error printing", "src/dfa.rs: Error Display")],
  observe=["printed texts"],
  tech="exhaustive exploration of all runs up to bounds; the printed text of every configuration, item and error is compared with the configuration itself",
  note="Every configuration on all inputs within the bounds for the bounded families; every item of every table.")

prop("C25", "The demo command prints the real tables and a faithful trace of every line",
  "The `lrp` command prints the FIRST and FOLLOW sets, the states and the action table of the LALR parser of its bracket grammar exactly as they are. For every line read it prints a trace with one row per step: step number, the stack, the input still to be read (the end marker last), state and symbol, and the action taken, ending in `ok` if and only if the line without surrounding blanks is one balanced bracket word. The letters `c` and `d`, which no rule mentions, are traced up to the syntax error; a line with any other character, or that is not text, is refused without a trace. At the end of its input it stops and reports success. It never panics and never hangs.",
  ["inputs", "histories"], "every finite sequence of input lines",
  "No test runs the command.",
  ["src/main.rs", "src/dfa.rs", "src/tabler.rs"],
  [("tables", "src/main.rs: table printing"), ("session loop and trace", "src/main.rs: main")],
  state=[("session", "the lines read so far", "src/main.rs: main")],
  observe=["standard output and exit status of the real command"],
  tech="exhaustive enumeration of bounded sessions of the real command; its output is parsed and compared with a reference LALR machine",
  note="All words over the grammar's characters, blanks and foreign characters up to the listed length, in one session and as sessions of zero to two lines with and without final line end.", crate="xmc")

prop("C26", "Every step operation of the machine does exactly its documented effect",
  "From any configuration and in any order of operations: shift takes exactly the next token (or reports the unexpected end and leaves everything unchanged); accept gives the result only when nothing but the end marker remains, otherwise it reports the tokens left; goto pushes exactly the table's state; travel performs exactly the table's action, and a missing state, unexpected token or conflict leaves the machine unchanged; reduce replaces exactly the operands of the production by its action's result, and too short a stack or a missing goto is an error; reset, start and parse behave as on a new machine; none of them ever panics. Operating on a copy of a machine never changes the original. After an operation that fails half way only starting over is specified.",
  ["histories", "programs"], "every grammar and kind of table, every configuration, every sequence of operations",
  "The tests call only parse and a handful of trace steps in the usual order; an operation's effect on other configurations shows only to users who drive the machine themselves.",
  ["src/dfa.rs"],
  [("step operations", "src/dfa.rs: shift, goto, accept, travel, reduce, reset, start, trace, parse"), ("errors", "src/dfa.rs: Error")],
  state=[("configuration", "stack, buffer and top state", "src/dfa.rs: Dfa")],
  observe=["results of the operations", "the machine's public fields"],
  tech="exhaustive enumeration of operation sequences up to a depth from every configuration of every run; each step compared with a model machine",
  note="All sequences of all operations up to the listed depth, from every configuration reached on all inputs within the bounds, for all grammars of the bounded families.")

prop("C27", "Whatever fails and wherever it is interrupted, wop leaves out.rs old or complete",
  "Whichever system call of a run of `wop` fails, is cut short or is the last before the process is killed: afterwards out.rs is what it was before or exactly the complete output, and the grammar file is unchanged. Exit status 0 is reported only when out.rs is complete. The run ends. A later undisturbed run succeeds with the complete output. Concurrent runs, a symbolic link as out.rs and loss of power are not specified.",
  ["crash_points", "fault_sequences", "histories"], "every grammar, every state of the directory beforehand, every fault or kill at every system call",
  "The tests call the builder as a library; no test makes a write fail or stops a run.",
  ["wop/src/main.rs"],
  [("reading the grammar, writing out.rs", "wop/src/main.rs: main")],
  state=[("directory", "out.rs and the grammar file", "wop/src/main.rs: main")],
  observe=["files after the run", "exit status of the real command"],
  tech="exhaustive enumeration of crash points, torn writes and call failures of the real command under a fault injector, with a recovery run after each",
  note="Every counted call of a run × {killed before, torn then killed, killed after, failing with each listed error, cut short, interrupted}, each from four states of the directory, two faulty runs in a row, and pairs of faults.", crate="wopmc")
