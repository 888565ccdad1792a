#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (development aid)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PRE = ("Scope: grammars without empty productions whose entry symbol has exactly one production "
       "and occurs in no right-hand side. ")

P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), tech="", note="", crate="mc"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, state=state, observe=observe, tech=tech, note=note, crate=crate))

TESTS = "The tests run six fixed grammars on a handful of accepted inputs each, "

prop("C01", "A parser without conflicts accepts exactly the language of its grammar",
  "For every grammar without empty productions whose entry symbol has one production and appears in no right-hand side, a CLR, LALR or SLR parser built from it that reports no conflicts accepts a token sequence if and only if the sequence is a sentence of the grammar, and never reports a conflict while parsing. Validation, plain parsing and stepwise driving of the same parser agree on the verdict.",
  ["programs", "inputs"], "every such grammar, each of the three kinds of table, every finite token sequence over the grammar's terminals",
  TESTS + "almost no rejected input, and never compare with the language itself; the claim quantifies over all grammars and all inputs.",
  ["src/clr.rs", "src/lalr.rs", "src/slr.rs", "src/tabler.rs", "src/dfa.rs", "src/parser.rs", "src/grammar.rs", "src/pos.rs"],
  [("closure and goto construction of each kind", "src/{clr,lalr,slr}.rs: closure, prop_closure, goto, proc_closures, proc_actions, decision"),
   ("look-ahead merging", "src/lalr.rs: update_state, proc_closures; src/parser.rs: merged"),
   ("shift/reduce/accept machine", "src/dfa.rs: travel, shift, reduce, accept")],
  state=[("states / items", "state stack and symbol stack of the machine", "src/dfa.rs: Dfa"), ("actions", "action table", "src/tabler.rs: Tabler")],
  observe=["Parser::validate", "Parser::parse", "Parser::simple_dfa().start()", "Dfa::trace"],
  tech="exhaustive exploration of all grammars and all inputs up to bounds on the real parsers, judged by an Earley model",
  note="All grammars of the listed bounded families and all inputs of the listed bounded lengths (plus deviation-bounded long inputs) are run through the real parsers. Trusts the Earley recogniser; says nothing beyond the bounds.")

prop("C02", "Conflicts are reported exactly for grammars outside the table's class",
  "For every grammar in scope (no empty productions, no useless symbols, one entry production, entry symbol in no right-hand side), building a CLR parser reports conflicts if and only if the grammar is not LR(1), an LALR parser if and only if it is not LALR(1), and an SLR parser if and only if it is not SLR(1).",
  ["programs"], "every such grammar and each of the three kinds of table",
  TESTS + "and count conflicts only for those; class membership is a statement about all grammars.",
  ["src/clr.rs", "src/lalr.rs", "src/slr.rs", "src/tabler.rs"],
  [("conflict cells", "src/{clr,lalr,slr}.rs: proc_actions"), ("conflict listing", "src/tabler.rs: conflicts")],
  observe=["Tabler::conflicts"],
  tech="exhaustive enumeration of bounded grammars; real tables compared with an independent textbook LR(1)/LALR(1)/SLR(1) construction",
  note="Every grammar of the bounded families is decided with an independently written canonical construction (LALR by merging canonical states). Trusts that construction.")

prop("C03", "Parsers with conflicts never give a wrong verdict",
  "When a table has conflicts, parsing with it still never accepts a non-sentence and never rejects a sentence: the run either gives the right verdict or stops with an error that names the conflict.",
  ["programs", "inputs"], "every grammar in scope whose table of some kind has conflicts (for SLR: in which no nonterminal derives itself), every token sequence",
  TESTS + "one of which has conflicts, on four inputs.",
  ["src/dfa.rs", "src/clr.rs", "src/lalr.rs", "src/slr.rs", "src/parser.rs"],
  [("conflict actions stop the run", "src/dfa.rs: travel"), ("conflict cells replace both actions", "src/{clr,lalr,slr}.rs: proc_actions")],
  observe=["Dfa::start result", "Parser::validate"],
  tech="exhaustive exploration of all conflicting grammars and inputs up to bounds on the real parsers, judged by an Earley model",
  note="As C01, on exactly the tables that report conflicts. SLR tables of grammars with derivation cycles are out of scope (textbook SLR loops there).")

prop("C04", "Semantic actions run in rightmost-derivation order with the right operands",
  "Parsing a sentence with a conflict-free parser runs, for every step of the sentence's unique rightmost derivation taken in reverse and for nothing else, the action registered for that production (by rule and by position within the rule), handing it exactly the tokens of that production's right-hand side in order with their values; every value produced by an action becomes the value of that nonterminal. The result of the parse is the value of the last symbol of the entry production.",
  ["programs", "inputs"], "every grammar in scope with a conflict-free table, every sentence, every assignment of actions",
  "No test supplies a semantic action that can tell productions or operands apart; the tests only check that parsing succeeds.",
  ["src/dfa.rs", "src/parser.rs", "src/grammar.rs"],
  [("reduction", "src/dfa.rs: reduce"), ("production indices", "src/grammar.rs: Rule::new"), ("result extraction", "src/parser.rs: parse; src/dfa.rs: parse"), ("ready-made action maps", "src/parser.rs: cloned, empty; src/dfa.rs: transparent")],
  observe=["ReductFn calls", "Parser::parse value"],
  tech="exhaustive exploration of all sentences up to bounds; recorded action log and value tree of the real run compared with the Earley-derived derivation",
  note="Every sentence within the bounds of every conflict-free parser; the actions log their own identity and build a tree, compared node by node with the grammar. Trusts the tree checker.")

prop("C05", "Syntax errors are reported at the first wrong token, with the right expectation",
  "For a conflict-free parser and an input that is not a sentence, the run fails at the first token that cannot continue any sentence (or at the end if the input is an unfinished prefix): no later token is taken from the source, that token (or the end marker) is the one named, and every listed expectation is a terminal or end marker. For grammars without useless symbols the list contains every token the parser would take where it stopped - as long as no action ran since the wrong token was read, that is every token that could have come next - and for CLR parsers it contains exactly the tokens that could have come next, and no semantic action runs between reading the wrong token and the error.",
  ["programs", "inputs"], "every grammar in scope with a conflict-free table, every viable prefix, every wrong next token including end of input and the end marker itself",
  "No test looks at the content of an error.",
  ["src/dfa.rs", "src/clr.rs", "src/lalr.rs", "src/slr.rs"],
  [("error construction", "src/dfa.rs: travel"), ("one token of look-ahead", "src/dfa.rs: trace, shift, accept")],
  observe=["Error::UnexpectedToken contents", "number of tokens taken from the iterator"],
  tech="exhaustive exploration: every bad token after every viable prefix up to bounds on the real parsers, judged by an Earley model",
  note="All (viable prefix, wrong token) pairs within the bounds, with a token source that counts what is taken. Trusts the Earley model's next-token sets.")

prop("C06", "Building a parser succeeds for every grammar without empty productions",
  "For every grammar without empty productions and with one entry production - including grammars with useless or unreachable symbols, derivation cycles, any kind of recursion and a recursive entry symbol - building the tables of each kind terminates without a panic, and every action of the resulting table refers to an existing state or production, before and after equal rows are merged.",
  ["programs"], "every grammar without empty productions with a single entry production; three kinds of table",
  TESTS + "all of them reduced and with direct recursion only; termination of the fixpoints is a claim about all grammars.",
  ["src/tabler.rs", "src/clr.rs", "src/lalr.rs", "src/slr.rs", "src/lib.rs", "src/grammar.rs"],
  [("fixpoint iteration", "src/lib.rs: transitive"), ("FIRST/FOLLOW steps", "src/tabler.rs: first_step, follow_step"), ("state worklists", "src/{clr,lalr,slr}.rs: proc_closures")],
  observe=["return of Clr/Lalr/Slr::new", "Tabler.actions"],
  tech="exhaustive enumeration of bounded grammars on the real constructors under a watchdog; table invariants checked",
  note="Every grammar of the bounded families including unreduced ones and grammars with a recursive entry; a watchdog turns non-termination into a confirmed violation.")

prop("C07", "Parsing terminates with a verdict on any token sequence whatsoever",
  "Parsing any finite token sequence - including tokens unknown to the grammar, tokens of the end marker's type and tokens whose type is a nonterminal - ends after finitely many steps, without a panic, either in acceptance or in an unexpected-token, incomplete-parse or conflict error, never in an internal-state error; tokens the grammar does not have are never accepted, and the token source is not polled again once it has ended.",
  ["programs", "inputs"], "every grammar in scope of C06 (for SLR: without derivation cycles), merged or unmerged table, every finite sequence of tokens from any vocabulary",
  "The tests only feed well-formed inputs made of the grammar's own terminals.",
  ["src/dfa.rs", "src/parser.rs", "src/tabler.rs"],
  [("step function", "src/dfa.rs: travel, reduce, goto, shift, accept"), ("driver loop", "src/dfa.rs: trace")],
  observe=["Dfa::start result", "iterator polls"],
  tech="exhaustive exploration of all token sequences up to a length over terminals, foreign tokens, nonterminal-typed tokens and end markers, on the real machine with a step bound",
  note="All token sequences to the listed lengths over the full alphabet on every grammar of the bounded families.")

prop("C08", "FIRST and FOLLOW sets are exact",
  "For every grammar without empty productions, the FIRST and FOLLOW sets computed for a nonterminal are exactly the least solution of the textbook equations: the terminals that can begin a string derived from it, and the terminals (or end marker) that can come right after it in a sentential form.",
  ["programs"], "every grammar without empty productions with a single entry production",
  "Tests compare the sets of six fixed grammars.",
  ["src/tabler.rs", "src/lib.rs"],
  [("initial sets", "src/tabler.rs: gen_first, gen_follow"), ("iteration", "src/tabler.rs: first_step, follow_step, proc_first, proc_follow"), ("set of a symbol", "src/tabler.rs: first_of")],
  observe=["Tabler.first", "Tabler.follow", "Tabler::first_of"],
  tech="exhaustive enumeration of bounded grammars; real sets compared with an independent least-fixpoint model and with enumerated sentential forms",
  note="Every grammar of the bounded families; the model is itself cross-checked against explicit enumeration of derivations on the reduced ones.")

prop("C09", "A reused or reset parsing machine behaves like a fresh one",
  "Running several inputs through the same parsing machine one after another - whatever happened before: acceptance, any error, or abandoning a parse half way and resetting - gives for each input the same result (value or error) as a machine fresh from the parser. After an accepted parse the machine stands where a fresh one begins, ready to be driven again. Machines of one parser at work at the same time do not affect each other.",
  ["histories", "programs", "inputs"], "every sequence of parse, abandon-after-n-steps and reset operations over every input, every grammar in scope; every interleaving of two machines with at most two switches",
  "No test uses a machine twice.",
  ["src/dfa.rs"],
  [("reset", "src/dfa.rs: reset"), ("parse on an existing machine", "src/dfa.rs: parse")],
  state=[("states, items, top, finished, buffer", "machine state that must not leak between parses", "src/dfa.rs: Dfa")],
  observe=["Dfa::parse", "Dfa::reset", "Dfa::start"],
  tech="exhaustive enumeration of operation histories to a depth on the real machine, differential against a fresh machine",
  note="Every history of the listed depth over an alphabet of accepted, unfinished, early- and late-failing and trailing-garbage inputs and half-way abandonments, for every grammar of the bounded families.")

prop("C10", "Merging equal table rows changes nothing observable",
  "Merging the rows of a table that are equal leaves exactly one copy of each distinct row, reports conflicts if and only if the table did before, can be repeated safely, and never changes the outcome of any parse: same verdict, same value, same error kind and contents (apart from state numbers), same actions in the same order.",
  ["programs", "inputs"], "every grammar without empty productions, three kinds of table, every input",
  "No test calls the operation.",
  ["src/tabler.rs", "src/parser.rs"],
  [("row merging", "src/tabler.rs: reduced_actions, reduce_equals, update_entry")],
  observe=["Parser::reduce_equals", "Tabler.actions", "Dfa results"],
  tech="exhaustive product exploration of the table before and after (all reachable state pairs, hence all inputs), plus differential runs of the real machine",
  note="The product of the two real tables is explored to a fixpoint for every grammar of the bounded families, so the comparison covers inputs of every length for those grammars.")

prop("C11", "The tables are the textbook automata",
  "For every grammar in scope without useless symbols, the table built by each kind behaves exactly as the canonical LR(1), LALR(1) or SLR(1) automaton of the grammar: the same shifts, gotos, reductions, acceptance and conflicting cells in corresponding states, LALR and SLR having one state per LR(0) item set; each state's items are those of the corresponding textbook state, and looking a state up by its kernel finds it.",
  ["programs"], "every grammar in scope without useless symbols; every reachable state and every symbol",
  "Tests never compare a table with a reference; a wrong look-ahead is visible only on particular inputs of particular grammars.",
  ["src/clr.rs", "src/lalr.rs", "src/slr.rs", "src/tabler.rs", "src/pos.rs", "src/parser.rs"],
  [("item sets", "src/{clr,lalr,slr}.rs: closure, goto"), ("look-ahead propagation", "src/lalr.rs: proc_closures, update_state"), ("kernel index", "src/parser.rs: state_from_kernel, final_kernel")],
  observe=["Tabler.actions", "Tabler.states", "Parser::state_from_kernel"],
  tech="exhaustive product exploration (bisimulation) of the real table with an independent textbook automaton, for all grammars up to bounds",
  note="All reachable state pairs of (real, reference) for every grammar of the bounded families; conflict cells compared as sets of actions.")

prop("C12", "Behaviour does not depend on names or on the order of alternatives",
  "Renaming the symbols of a grammar in any order-changing way and reordering the alternatives of its rules changes neither whether a parser reports conflicts, nor the verdict, the number of tokens consumed or the sequence of productions reduced on any input; building the same grammar twice gives equal parsers.",
  ["programs", "inputs", "configurations"], "every grammar in scope without useless symbols, every bijective renaming, every permutation of alternatives, every input (for SLR: no derivation cycles)",
  "Each test grammar has one fixed naming and order; ordered maps make the naming steer the construction order.",
  ["src/tabler.rs", "src/clr.rs", "src/lalr.rs", "src/slr.rs", "src/grammar.rs", "src/pos.rs"],
  [("ordered maps keyed by symbols drive the construction", "src/tabler.rs, src/lalr.rs: proc_closures")],
  observe=["Tabler::conflicts", "Dfa runs"],
  tech="exhaustive exploration of namings (all permutations for small alphabets, all rotations/reversals otherwise) and production orders on the real parsers, differential",
  note="All grammars of the bounded families with all the listed namings and orders; differential, so needs no reference.")

prop("C13", "Every intermediate state of a parse is consistent and resumable",
  "At every step of every parse the state stack starts in the initial state, has one state more than there are symbols on the symbol stack, each symbol leads from its state to the next in the table, the current state is the last one, and the symbol stack spells exactly the input consumed so far; continuing from a copy of the stacks taken at any step ends exactly like the original run, and on acceptance the symbol stack holds exactly the entry production's symbols.",
  ["histories", "programs", "inputs"], "every step of every run of every grammar in scope (for SLR: no derivation cycles) on every input",
  "No test looks at a parse before its end.",
  ["src/dfa.rs"],
  [("stack discipline", "src/dfa.rs: shift, goto, reduce"), ("stepping callback", "src/dfa.rs: trace")],
  state=[("states, items, top", "the parser configuration", "src/dfa.rs: Dfa")],
  observe=["Dfa::trace callback", "Dfa fields"],
  tech="explicit-state exploration of every configuration reached by the real machine, invariant and resume-from-here check in each",
  note="Every configuration reached on all inputs within the bounds, for every grammar of the bounded families.")

prop("C14", "Merging items by body loses and invents nothing",
  "Merging a set of items groups them by rule, production and position: the result has exactly one item for each such group occurring in the input, and its look-ahead set is the union of the look-aheads of the group's items; merging again changes nothing.",
  ["inputs"], "every finite set of items",
  "No test calls the operation directly.",
  ["src/parser.rs", "src/pos.rs"],
  [("merging", "src/parser.rs: merged"), ("body comparison", "src/pos.rs: body_eq")],
  observe=["Parser::merged"],
  tech="exhaustive enumeration of item sets up to a size over every item of the grammars, against a reference grouping",
  note="All item sets up to the listed size built from the items of every textbook grammar with a small look-ahead alphabet.")

for part in ("props_wop.py", "props_more.py"):
    exec(open(os.path.join(V, "tools", part)).read())

NA = globals().get("NA", [])

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"],
                              state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                              mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                              observe_at=list(p["observe"]), hook_needed=None))
        assert len(d["title"]) <= 80, (p["id"], len(d["title"]))
        f.write(json.dumps(d) + "\n")

na = {x["property"] for x in NA}
m = dict(version=1, setup_cmd="bash run.sh build",
         hooks=dict(guard="none (no hooks were needed: everything is observed through the public API)", enable="nothing to enable", source_commits=[]),
         checks=[dict(property=p["id"], quick_cmd=f"bash run.sh {p['id']} quick", thorough_cmd=f"bash run.sh {p['id']} thorough",
                      technique=p["tech"], level="model_checking", level_note=p["note"]) for p in P if p["id"] not in na],
         not_applicable=NA, notes="See DESIGN.md. Counterexamples are written to replays/ and rerun with: bash run.sh replay <file>.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
