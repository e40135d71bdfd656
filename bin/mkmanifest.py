#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VEC, CART = "gearley-vec2d/src/lib.rs", "gearley-utils/src/cartesian_product.rs"
REC, HEAP = "gearley-recognizer/src/recognizer.rs", "gearley-recognizer/src/binary_heap.rs"
EVENT, PREDICT, PERF = ("gearley-recognizer/src/" + x for x in ("event.rs", "predict.rs", "perf_hint.rs"))
LOOK = "gearley-recognizer/src/lookahead.rs"
DG = "gearley-default-grammar/src/lib.rs"
GR = "gearley-grammar/src/lib.rs"
SB, ST = "simple-bocage/src/bocage.rs", "simple-bocage/src/traverse.rs"
CB, CT, CG = "compact-bocage/src/bocage.rs", "compact-bocage/src/traverse.rs", "compact-bocage/src/graph.rs"
PARSE = "gearley-utils/src/parse.rs"

TT = "TLA+ contract; recorded histories of the real code validated by TLC trace checking"
BOTH = "TLA+ contract explored by TLC; its transitions replayed into the real code and recorded histories validated by TLC"

P = []


def prop(id, title, statement, over, text, tests, files, mech, technique=TT, note="", state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests,
                  files=files, mech=mech, technique=technique, note=note, state=state or []))


BASE = ("Bounded: exhaustive within the small scope TLC enumerates and seeded random histories beyond it. "
        "Trusts TLC, the Rust compiler, the driver, and the stand-ins for the crates that are not available offline (harness/shim).")

# ---- vec2d ----
prop("V01", "A vector of sets returns exactly what was put in, set by set",
     "A sequence of sets built by pushing items and opening new sets always contains exactly those items, in the order given, in the set that was open when they were pushed; the number of sets and of items and every iteration agree with that. In-place changes through the last set touch only the last set.",
     ["histories", "inputs"], "every history of push, next set, extend, mutation and query operations, any item values and sizes",
     "no test of this crate exists; the recognizer's tests only reach short regular histories",
     [VEC], [("chart and index vectors kept in step", VEC), ("last_mut, iter, Index", VEC)], BOTH)
prop("V02", "Truncating sets keeps the prefix and the set in progress",
     "Truncating to a number of sets leaves all sets before that number unchanged, drops the sets after it, and keeps the items of the set in progress, which becomes the set right after the kept ones. Truncating items only removes items from the end.",
     ["histories", "inputs"], "every history ending in or going on after truncate and truncate_chart, at every legal position",
     "no test calls truncate directly; parses reach it with few shapes",
     [VEC], [("truncate, truncate_chart", VEC)], BOTH)
prop("V03", "A cleared or extended vector of sets behaves like a fresh one",
     "After clearing, the structure cannot be told from a new one, whatever happened before and whatever capacity was asked for. Building by extension or collection gives the same result as pushing the same sets one by one.",
     ["histories", "configurations"], "every history before the clear and every history after it; every capacity; every iterator",
     "no test reuses a cleared structure", [VEC], [("clear, new, with_capacity, extend, from_iter", VEC)], BOTH)
prop("V04", "Copies of a vector of sets are faithful and independent",
     "A clone, or the result of writing the structure with either serializer and reading it back, contains the same sets and accepts the same further operations with the same results. Later changes to one do not show in the other.",
     ["histories", "inputs"], "every state and every continuation of both copies",
     "the only serialization test checks that it does not fail", [VEC], [("derived Clone, Serialize, Deserialize", VEC)], BOTH)
# ---- cartesian ----
prop("C01", "A Cartesian product is enumerated completely, each combination once",
     "Advancing through a product of non-empty factors visits every combination exactly once, with the first factor varying fastest. Advancing reports false exactly when the enumeration wraps around to the first combination.",
     ["inputs", "histories"], "every number and size of factors, every point of the enumeration, several rounds",
     "the one test enumerates a single 3-factor product", [CART], [("advance: carry from factor to factor", CART)], BOTH)
prop("C02", "A Cartesian product contains exactly the factors it was given",
     "Whatever the interleaving of pushing one factor, extending by several, clearing and advancing, the product ranges over exactly the factors given since the last clear, in their order. A product that was cleared behaves like a new one.",
     ["histories", "inputs"], "every interleaving of push, extend, clear and advance",
     "the one test pushes all factors first and never extends or clears", [CART], [("push, extend, clear", CART)], BOTH)
# ---- recognizer ----
prop("R01", "A parse is reported finished exactly when the input derives from the start",
     "After every token, the recognizer reports a finished parse if and only if the tokens read so far form a sentence of the grammar.",
     ["inputs", "programs"], "every grammar (ambiguous and left-, right- or middle-recursive ones included) and every token string",
     "tests use about ten fixed grammars with one or two inputs each", [REC, HEAP],
     [("scan, completion, prediction", REC), ("finished_node", REC)])
prop("R02", "Lookahead hints never change the result of a parse",
     "Announcing the next token before completing a location never changes which inputs are accepted, where they fail, or which parse trees result, as long as the announcement comes true; a hint that was cleared or replaced has no effect.",
     ["inputs", "histories"], "every grammar, input and schedule of setting, replacing and clearing hints, before or after the scan",
     "tests always use the hints that the convenience function gives", [REC, LOOK, DG],
     [("filtering by FIRST and FOLLOW sets", REC), ("hint storage", LOOK)])
prop("R03", "An input fails at its first token that no sentence continues with",
     "When no hint is given, advancing past a token fails exactly when the tokens up to and including it are not the prefix of any sentence; with true hints it never fails earlier than one token before that, and never on a valid prefix.",
     ["inputs", "programs"], "every grammar and every token string, valid or not",
     "no test checks where a wrong input is rejected", [REC], [("is_exhausted, end_earleme", REC)])
prop("R04", "The predicted symbols are exactly those that may come next",
     "At every location, the predicted symbols are exactly the symbols that can begin what is expected after the tokens read so far, each reported once.",
     ["inputs", "programs"], "every grammar, every location of every input", "no test reads predicted symbols",
     [REC, PREDICT], [("prediction_pass over bit matrix rows", REC), ("predict", PREDICT)])
prop("R05", "The pending items at a location are exactly the partial matches",
     "At every location, the pending items (rule, dot, origin) are exactly those rules whose first part matches the input between the origin and the location and which were predicted at the origin, each listed once.",
     ["inputs", "programs"], "every grammar, every location of every input", "no test reads pending items",
     [REC, VEC], [("complete_medial_items, complete_predictions", REC), ("sort_medial_items", REC)])
prop("R06", "A recognizer that was reset behaves like a new one",
     "After a reset at any point, even in the middle of a location, the recognizer answers every further history exactly as a newly created one would.",
     ["histories", "inputs"], "every history before the reset, every input after it",
     "the reset test repeats one accepted input of three tokens", [REC], [("reset", REC)])
prop("R07", "Several tokens at one location are read as alternatives",
     "When several different tokens are scanned at one location, the recognizer accepts, predicts and builds exactly what any choice of one token per location would justify.",
     ["inputs", "histories"], "every token lattice of single-location edges", "tests scan one token per location, apart from one lexer run",
     [REC], [("scan", REC), ("complete", REC)])
prop("R08", "The forest receives every parse tree exactly once",
     "The calls a recognizer makes on its forest build, for a finished parse, exactly the parse trees of the input, each once; every group of alternatives is begun, filled and closed in one piece, and one symbol over one span forms one group.",
     ["inputs", "programs"], "every grammar and input of bounded ambiguity", "tests compare a single evaluated number for some inputs",
     [REC, HEAP], [("heap order by origin and rule", HEAP), ("CompleteGroup", REC)])
prop("R09", "Skipped groups and rejected alternatives are as if they did not match",
     "A caller that drives completion itself and skips a group, or leaves out some of its alternatives, obtains exactly the parse in which those matches do not exist; all other results stay.",
     ["inputs", "histories"], "every choice of skipped groups and rejected alternatives at every location",
     "no test drives completion by hand", [REC], [("next_sum, next_summand, push_summand, complete_sum, skip_entire_sum", REC)])
prop("R10", "Locations that no pending item refers to are dropped, no others",
     "The recognizer keeps exactly the locations up to the last one that a pending item of the newest location originates from, plus the newest; origins and location numbers stay consistent, so that dropping never changes any other result.",
     ["inputs", "histories"], "every grammar and input, in particular long ones", "no test looks at the number of retained locations",
     [REC, VEC], [("remove_unreachable_sets", REC), ("truncate", VEC)])
prop("R11", "Performance policies and capacities never change results",
     "Whatever memory sizes are hinted and whether lookahead is enabled, every history gives the same acceptance, failures, parse trees and items.",
     ["configurations", "inputs"], "every policy and capacity, every grammar and input", "tests use the default policy only",
     [PERF, REC], [("PerfHint, with_capacity", PERF)])
prop("R12", "Tracing and events name exactly the predictions and items present",
     "The trace, the events and the minimal distances reported at a location are exactly those the grammar assigns to the predicted symbols and pending items there, with the right origins; the symbols named as expected are those after the dots of the pending items.",
     ["inputs", "programs"], "every assignment of events and traces, every location of every input", "no test reads events or traces",
     [EVENT], [("trace, events, minimal_distances", EVENT)])
prop("R13", "Tokens that span several locations are read like any others",
     "A token completed by hand from any earlier location that is still kept counts, together with all tokens scanned, as an edge of the input: acceptance, failure, predictions, pending items and parse trees are those of every path through the edges.",
     ["inputs", "histories"], "every set of tokens of every length over every input, completed before or after the scans at the location where they end",
     "no test completes a symbol by hand", [REC, VEC], [("complete", REC), ("complete_medial_items, complete_predictions", REC)])
prop("R14", "Completing by hand equals completing automatically",
     "A caller that takes every group and every alternative in turn, or each group as a whole, reaches the same acceptance, items, predictions and parse trees as the automatic completion.",
     ["histories", "inputs"], "every mixture of the three ways of completing, at every location", "no test drives completion by hand",
     [REC], [("next_sum, complete_entire_sum, complete_all_sums_entirely", REC)])
# ---- grammar ----
prop("G01", "Compiling a grammar keeps its language",
     "The compiled grammar derives exactly the sentences of the grammar it was made from, the empty sentence being represented by the trivial-derivation flag.",
     ["programs", "inputs"], "every proper or improper context-free grammar with a productive start symbol, nullable symbols included",
     "tests compile about ten fixed grammars and parse one or two inputs", [DG], [("from_grammar and the populate_ functions", DG)])
prop("G02", "The compiled tables describe exactly the compiled rules",
     "Prediction rows are the reflexive transitive left-corner relation, completion tables list each rule under its first symbol and with the symbol it is predicted by, the binary ones first, and all accessors agree on every rule.",
     ["programs"], "every grammar", "no test reads the tables", [DG], [("populate_prediction_matrix, compute_completion_table", DG)])
prop("G03", "The lookahead sets contain every token that can come next",
     "The lookahead set of a rule with a pending symbol contains every token that symbol can begin with, the one of a symbol every token that can follow it, and neither contains a token that cannot.",
     ["programs"], "every grammar", "no test reads the lookahead sets", [DG], [("populate_lr_sets", DG)])
prop("G04", "External and internal symbols translate one to one",
     "Every symbol of the grammar that can occur in a parse has exactly one internal number, translating there and back gives the same symbol, and generated symbols never collide with symbols of the user.",
     ["programs"], "every grammar, unused and unproductive symbols included", "tests translate a few symbols of fixed grammars", [DG],
     [("remap_symbols, to_internal, to_external", DG)])
prop("G05", "Compiled rules remember which rule of the user they come from",
     "Each compiled rule that finishes a rule of the user carries that rule's identity, the other ones carry none; the position of every omitted empty symbol is recorded; traces and events belong to the same dot positions the user attached them to.",
     ["programs", "inputs"], "every grammar, every assignment of events", "two tests evaluate one grammar with omitted empty symbols", [DG, GR],
     [("populate_grammar_with_history, populate_prediction_events, populate_nulling", DG)])
prop("G06", "Compiled symbols are numbered so that completions come in order",
     "The numbering of symbols and rules is such that whenever completing one symbol can complete another over the same span, the first has the greater number, and the end of input has the least number of all pending symbols.",
     ["programs"], "every grammar without cycles", "tests reach few chains of unit rules, none against the order of declaration", [DG],
     [("remap_symbols, sort_rules_by_lhs, find_gensyms", DG)])
prop("G07", "A compiled grammar survives serialization and cloning",
     "A compiled grammar that was cloned, or written and read back with either serializer, answers every query and parses every input like the original.",
     ["programs", "inputs"], "every grammar and input", "one test checks that serialization does not fail", [DG, GR], [("derived serializers", DG)])
prop("G08", "The empty input is accepted exactly when the start derives it",
     "Before any token, the recognizer of a compiled grammar reports a finished parse exactly when the start symbol derives the empty string, and the node stands for the start symbol.",
     ["programs"], "every grammar, with and without nullable symbols other than the start", "one test uses a grammar whose only rule is empty", [DG, REC],
     [("populate_nulling", DG), ("finished_node", REC)])
# ---- forests ----
prop("F01", "Evaluating an unambiguous parse yields its one parse tree",
     "For an unambiguous input, the simple forest evaluates to a single value, the one obtained by applying the user's actions bottom-up to the parse tree: one argument per symbol of the rule, in order, empty symbols included, tokens with their values.",
     ["programs", "inputs"], "every grammar and unambiguous input", "tests compare an evaluated number for a few inputs", [SB, ST],
     [("evaluate", ST), ("postprocess_product_tree_node", SB)])
prop("F02", "Evaluating an ambiguous parse yields every parse tree once",
     "For an ambiguous input, the simple forest evaluates to one value per parse tree, no more and no fewer, wherever in the tree the ambiguity is.",
     ["programs", "inputs"], "every grammar and input of bounded ambiguity", "one test counts the values of a grammar that is ambiguous at the top", [SB, ST],
     [("Sum nodes in evaluate", ST)])
prop("F03", "The compact forest yields what the simple one yields",
     "For every grammar and input, the compact forest evaluates to the same values as the definition demands: one per parse tree, with the same arguments and token values.",
     ["programs", "inputs"], "every grammar and input of bounded ambiguity", "one test evaluates one input", [CB, CT], [("evaluate", CT)])
prop("F04", "The compact encoding loses nothing, whatever the numbers",
     "Token values, rule numbers and node positions of any size up to the full 32 bits come out of the compact forest as they went in, however large it grows.",
     ["inputs", "histories"], "every 32-bit value, graphs past every size boundary of the encoding", "tests use values below 256 and tiny forests", [CG],
     [("push, get", CG)])
prop("F05", "Evaluating twice gives the same result twice",
     "Evaluating finished parses of one forest, of the whole input or of a prefix, in any order and repeatedly, gives each time the values that evaluating that parse alone would give.",
     ["histories", "inputs"], "every grammar and input, every order of evaluations", "no test evaluates twice", [SB, ST, CB, CT],
     [("nodes rewritten during traversal", ST), ("nodes rewritten during traversal", CT)])
prop("F06", "The parse of the empty input evaluates to the empty start symbol",
     "When the empty input is a sentence, either forest evaluates its parse to the single value that the user gives to the empty start symbol.",
     ["programs"], "every grammar whose start symbol is nullable", "one test uses a one-rule grammar and the simple forest", [ST, CT, REC],
     [("evaluate: root without start of input", ST), ("evaluate: root without start of input", CT)])
# ---- utils ----
prop("U01", "The convenience parser accepts sentences and names the first wrong token",
     "The convenience parser returns true for sentences and false for proper prefixes that are no sentence; for every other input it returns an error naming the location and the token at which it stopped, never later than the first token that no sentence continues with, and for tokens unknown to the grammar too. The leaves of the parse are the tokens in order, each with its position as its value. All of this holds as well for a recognizer that was reset after parsing other inputs.",
     ["inputs", "programs"], "every grammar and token list, unknown tokens included", "tests parse accepted inputs only", [PARSE], [("parse", PARSE)])
prop("U02", "Parsing a list of words equals parsing its tokens",
     "Parsing a list of terminal names gives the result of parsing the corresponding tokens; a word that is no terminal's name is reported as such, and a syntax error is reported as a syntax error.",
     ["inputs", "programs"], "every grammar with named symbols and every list of words", "no test covers it", [PARSE], [("parse_terminal_list", PARSE)])
prop("U03", "Parsing characters equals parsing every reading of them",
     "Parsing a text character by character accepts exactly when some choice of one terminal per character is a sentence; a character no terminal matches is a syntax error at its position.",
     ["inputs", "programs"], "every grammar, character classes that overlap, and every text", "one manual run over two example texts", [PARSE], [("parse_tokenizing", PARSE)])

NOT = {}   # id -> reason
exec(open(os.path.join(V, "bin", "not_applicable.py")).read()) if os.path.exists(os.path.join(V, "bin", "not_applicable.py")) else None

LEVEL_NOTE = {}


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": "It quantifies over " + p["text"] + "; " + p["tests"] + ".",
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
            }) + "\n")
    checks = [{"property": p["id"],
               "quick_cmd": "python3 bin/check.py " + p["id"],
               "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + p["id"],
               "evidence_file": "evidence/%s.json" % p["id"],
               "technique": p["technique"], "level": "model_checking", "level_note": p["note"] or BASE}
              for p in P if p["id"] not in NOT]
    m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks,
         "not_applicable": [{"property": p["id"], "reason": NOT[p["id"]]} for p in P if p["id"] in NOT],
         "notes": "No hooks in /repo: the drivers use public interfaces only. See DESIGN.md."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
