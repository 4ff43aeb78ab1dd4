"""The properties of gearley. `python3 propdefs.py` rewrites properties.jsonl and MANIFEST.json from this file and
props.py (a property without harnesses in props.py is listed under not_applicable with the reason given here)."""
import json

R = "gearley-recognizer/src/"
G = "gearley-default-grammar/src/"


def P(id, title, statement, over, text, why, files, mech, observe=(), na=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe)), na=na)


NOTESTS = "The repository's grammar-level tests do not even build offline (missing cfg crates) and each parses one fixed string with one fixed grammar; "

PROPS = [
    P("C01", "Recognition is exact: accepts precisely the strings of the language",
      "After feeding a token string to a fresh recognizer, is_finished() is true exactly when the string is derivable from the grammar's start symbol, and while every earleme's scans are expected, is_finished() answers correctly after every prefix. This holds for ambiguous, left/right/middle-recursive, nullable and unary-rule grammars alike, and when several alternative terminals are scanned at one position. (Grammars in which a symbol derives itself are excluded throughout.)",
      ["inputs", "programs", "histories"], "every (grammar without unit cycles, token string) pair",
      NOTESTS + "recognition must be right for every grammar shape and every string, including the heap order of completions across origins.",
      [R + "recognizer.rs", R + "binary_heap.rs", "gearley-forest/src/item.rs", G + "lib.rs", "gearley-vec2d/src/lib.rs"],
      [("predict/scan/complete loop", R + "recognizer.rs"), ("completion heap ordered by (origin, dot)", R + "binary_heap.rs"), ("column tables", G + "lib.rs")],
      ["Recognizer::is_finished", "Recognizer::end_earleme"]),
    P("C02", "A parse fails exactly at the first token no sentence can continue with",
      "end_earleme() reports failure (is_exhausted) exactly at the first token after which the consumed text is no prefix of any sentence of a reduced grammar, and never earlier. Until then every viable token is accepted.",
      ["inputs", "programs", "histories"], "every reduced grammar and every token string",
      NOTESTS + "none feeds a non-sentence to compare the failing position with the viable prefix property.",
      [R + "recognizer.rs"], [("is_exhausted / next_event_id / end_earleme", R + "recognizer.rs"), ("prediction matrix", G + "lib.rs")],
      ["Recognizer::end_earleme", "RecognizerParseExt::parse"]),
    P("C03", "Truthful lookahead hints never change acceptance, failure or values",
      "Telling the recognizer the actual next terminal before a step changes neither whether the string is accepted nor the evaluated result; it can only make the parse fail one step earlier, when the hinted token itself is impossible next. A hint affects only the step it was given for when it is cleared, and clearing it restores hint-free behaviour.",
      ["inputs", "programs", "histories"], "every grammar, string and subset of steps at which a truthful hint is given",
      NOTESTS + "the hint pruning (FIRST/FOLLOW of postdots and gensyms) can drop an item only a particular nullable/follow configuration needs.",
      [R + "lookahead.rs", R + "recognizer.rs", G + "lib.rs"],
      [("DefaultLookahead::mul / sets", R + "lookahead.rs"), ("FIRST sets stored in the grammar", G + "lib.rs")],
      ["Lookahead::set_hint", "Recognizer::is_finished"]),
    P("C04", "A reset recognizer behaves like a fresh one",
      "After reset(), at any moment of a previous parse, the recognizer's observable behaviour on any later input is identical to that of a newly created recognizer with the same grammar: position, predictions, live items, acceptance, failures; no lookahead hint remains.",
      ["histories", "inputs", "programs"], "every history before reset (any prefix, hints set or not, failed or finished) and every later string",
      NOTESTS + "no test calls reset() at all.",
      [R + "recognizer.rs", R + "lookahead.rs"], [("Recognizer::reset", R + "recognizer.rs"), ("prediction bit matrix rows", R + "recognizer.rs")],
      ["Recognizer::reset", "Recognizer::is_finished", "predicted_symbols"]),
    P("C05", "Progress information names exactly what the parser expects next",
      "At each position predicted_symbols() names exactly the symbols (other than those that derive only nothing) that some sentence continuing the consumed text has next, and end of input exactly when the text is a sentence; expected_terminals() names the symbol after the dot of each partly read rule. No viable symbol is missing and none is invented; in grammars without nullable symbols the live (rule, dot, origin) triples are exactly those of Earley's algorithm.",
      ["inputs", "programs", "histories"], "every reduced grammar and every viable prefix",
      NOTESTS + "a single missing bit in a transitive prediction row is invisible to acceptance tests on other strings.",
      [R + "recognizer.rs", R + "event.rs", G + "lib.rs"], [("predict / prediction_row", R + "recognizer.rs"), ("ExpectedTerminals", R + "event.rs")],
      ["expected_terminals", "predicted_symbols", "medial_items"]),
    P("C06", "Events, traces and distances match the positions the parse is in",
      "The events, traces and minimal distances reported after a token are exactly those attached to the grammar positions (dots) of rules that are live there: a predicted symbol reports the start dot of one of its rules, a partly read rule the dot reached (all of them, exactly, in grammars without nullable symbols); terminals and internal rules report none; events, traces and distances run in step, one per live position, and reading them never panics.",
      ["inputs", "programs", "histories"], "every grammar with any events/traces attached to any dots, every string",
      NOTESTS + "no test attaches an event to any dot.",
      [R + "event.rs", R + "recognizer.rs", G + "lib.rs"], [("Events / PredictedEvents / Trace / Distances iterators", R + "event.rs"), ("populate events", G + "lib.rs")],
      ["Recognizer::events", "Recognizer::trace", "minimal_distances"]),
    P("C07", "The value of an unambiguous parse is the value of its derivation",
      "For a sentence with exactly one derivation, evaluating the finished forest yields exactly one result: the result of applying each rule's action to the values of its right-hand side in order, with each leaf given its symbol and the value passed to scan.",
      ["inputs", "programs"], "every grammar, unambiguous sentence and assignment of leaf values",
      NOTESTS + "argument order and action ids through binarization and unary folding vary with the grammar's shape.",
      ["simple-bocage/src/traverse.rs", R + "recognizer.rs", "gearley-forest/src/lib.rs"], [("evaluate", "simple-bocage/src/traverse.rs"), ("push_summand/sum", R + "recognizer.rs")],
      ["Bocage::evaluate"]),
    P("C08", "The compact bocage evaluates to the same results as the simple bocage",
      "For every accepted string the compact bocage's evaluation returns exactly the values the simple bocage's does, each as often, and evaluating either a second time gives the same values again.",
      ["inputs", "programs"], "every grammar, string and assignment of leaf values",
      NOTESTS + "the byte encoding's variants (inlined leaves, small/large ids) each need a specific node numbering.",
      ["compact-bocage/src/traverse.rs", "compact-bocage/src/node.rs", "compact-bocage/src/graph.rs", "simple-bocage/src/traverse.rs"],
      [("Graph push/get codec", "compact-bocage/src/graph.rs"), ("evaluate", "compact-bocage/src/traverse.rs")], ["Bocage::evaluate"]),
    P("C09", "An ambiguous parse evaluates to one value per derivation",
      "For an ambiguous sentence, evaluation yields exactly the multiset of values of all its derivations: nothing lost, nothing duplicated, nothing mixed between derivations. Where a terminal is read twice at one position with different values, each choice counts as a derivation of its own.",
      ["inputs", "programs"], "every ambiguous grammar, sentence and assignment of leaf values",
      NOTESTS + "the one ambiguous test uses one arithmetic string with ambiguity at the root.",
      ["simple-bocage/src/traverse.rs", R + "recognizer.rs"], [("Sum nodes and cartesian product of factor values", "simple-bocage/src/traverse.rs"), ("CartesianProduct", "gearley-utils/src/cartesian_product.rs")],
      ["Bocage::evaluate"]),
    P("C10", "Eliminated nullable symbols reappear in evaluation, in the right place",
      "A right-hand-side symbol that derived the empty string still contributes its nulling value as an argument of the rule's action, in its original position, for every combination of empty and non-empty symbols in a rule; parsing the empty string evaluates to the start symbol's nulling value. Where the evaluator gives a symbol several nulling values, every combination is a value of the parse; where it gives none, there is no such value.",
      ["inputs", "programs"], "every grammar with nullable symbols and every sentence",
      NOTESTS + "one test has one nulling symbol; the 2^n eliminated variants of a rule are not covered.",
      ["simple-bocage/src/traverse.rs", G + "lib.rs"], [("nulling_eliminated handling", G + "lib.rs"), ("nulling nodes", "simple-bocage/src/traverse.rs")],
      ["Evaluate::nulling", "Bocage::evaluate"]),
    P("C11", "Completions come as one group per symbol and origin, latest origin first",
      "At each earleme the completed sums are presented exactly once per (user symbol, origin) with all their summands together, in order of decreasing origin; draining them by hand (next summand, push, complete) has the same effect as end_earleme(), and skipping a sum has the effect of leaving out exactly that symbol's completion.",
      ["inputs", "programs", "histories"], "every grammar, string, and choice at each group between completing at once, by hand, or skipping",
      NOTESTS + "splitting one group in two shows only with particular interleavings of unary chains in the heap.",
      [R + "recognizer.rs", R + "recognizer.rs", R + "binary_heap.rs", "gearley-forest/src/item.rs"], [("CompleteGroup", R + "recognizer.rs"), ("unary order of remapped symbols", G + "lib.rs")],
      ["Recognizer::next_sum", "CompleteGroup"]),
    P("C12", "Vec2d is a growable sequence of sealed sets plus one in-progress set",
      "After any sequence of pushes, seals, pops, truncations and clears the container equals the same operations on a list of lists: lengths, items by flat index, ranges, per-set indexing and last-set views all agree, and out-of-range reads are refused. Capacity hints change nothing observable.",
      ["histories", "inputs"], "every operation history, index and item value",
      "The one existing test samples few histories; index arithmetic between sets must hold for every set layout and out-of-range index.",
      ["gearley-vec2d/src/lib.rs"], [("chart / current-start bookkeeping", "gearley-vec2d/src/lib.rs")], ["Vec2d"]),
    P("C13", "Vec2d serialization round-trips",
      "A Vec2d written as JSON and read back is observably equal to the original - same sets, same items, same in-progress set - and continues to work identically.",
      ["histories", "inputs"], "every container and item values", "No test serializes a Vec2d.",
      ["gearley-vec2d/src/lib.rs"], [("miniserde/serde derives", "gearley-vec2d/src/lib.rs")], ["miniserde::json", "serde_json"]),
    P("C14", "CartesianProduct enumerates every combination exactly once, in order",
      "For any list of non-empty factors - however they were added, for any element type and after any reuse of the object - the product yields every combination exactly once, the first factor varying fastest, then ends, back at the first combination. Factors added in between steps start at their first element and leave the others where they are. An empty factor is refused rather than read out of bounds.",
      ["inputs", "histories"], "every number and size of factors, element type and push/extend/clear history",
      "The one existing test enumerates one product of three factors; it must be right for every number and size of factors and every history.",
      ["gearley-utils/src/cartesian_product.rs"], [("CartesianProduct::advance", "gearley-utils/src/cartesian_product.rs")], ["CartesianProduct::as_slice", "advance"]),
    P("C15", "Completions are ordered by origin first, then dot, and never by forest node",
      "The items a recognizer holds are ordered lexicographically by (origin, dot) for all values of both; the forest node an item carries has no influence on its order or equality, and both orderings agree with each other.",
      ["inputs"], "every pair and triple of items with any 32-bit origin, dot and node",
      "No test compares items; the comparison is a bit trick whose corner values no sample reaches.",
      ["gearley-forest/src/item.rs"], [("Ord/PartialOrd/Eq for Item and CompletedItem", "gearley-forest/src/item.rs")], ["Item::cmp"]),
    P("C16", "Every node stored in the compact bocage reads back as the same node",
      "Whatever the sequence of products, sums and leaves written into a compact bocage, and however large the node handles and symbols involved, each node evaluates as what was stored: size-optimised encodings never change what is decoded, at any boundary of the encodings and at any alignment in memory.",
      ["inputs", "histories"], "every sequence of forest operations, handles around 8/16/32-bit boundaries, any symbol ids",
      NOTESTS + "encodings for large handles are never reached by the short tests.",
      ["compact-bocage/src/graph.rs", "compact-bocage/src/node.rs"], [("Graph::push / get / tag encodings", "compact-bocage/src/graph.rs")], ["Forest trait", "Bocage::evaluate"]),
    P("C17", "Capacity hints are total and within their stated limits",
      "For any token count (below 2^59), symbol count (below 2^60) and memory limit (up to 2^60 bytes), the performance hint yields capacities without overflow or panic, at least its documented floor and - above the floor - within the memory limit, two thirds of which are left for the forest; supplying any hint never changes recognition.",
      ["inputs", "configurations"], "every 64-bit token count, memory limit and grammar size", "No test varies the limits.",
      [R + "perf_hint.rs"], [("DefaultPerfHint", R + "perf_hint.rs")], ["PerfHint"]),
    P("C18", "Internal and external symbols map to each other consistently",
      "Every symbol of the user's grammar that derives some token has exactly one internal symbol, below num_syms, and to_external(to_internal(s)) = s; conversely every internal symbol maps back to itself through its external one. Root, start-of-input and end-of-input are three distinct internal symbols that are none of the user's, and the start symbol and the position before the end of input are the right ones.",
      ["programs"], "every grammar", NOTESTS + "the mapping depends on the grammar's shape (unary order, unused symbols).",
      [G + "lib.rs"], [("remap_symbols", G + "lib.rs")], ["Grammar::to_internal", "to_external"]),
    P("C19", "A grammar that went through JSON parses exactly like the original",
      "Serializing a DefaultGrammar to JSON and back preserves every observable of parsing: acceptance, failure positions, progress information and evaluation.",
      ["programs", "inputs"], "every grammar and every string", "No test serializes a grammar.",
      [G + "lib.rs"], [("miniserde derives", G + "lib.rs")], ["DefaultGrammar serialization"]),
    P("C20", "Using a grammar by reference or by value makes no difference",
      "Every query on a reference to a grammar answers as the grammar itself, so a recognizer borrowing its grammar behaves identically to one owning it.",
      ["programs", "inputs"], "every grammar and string", "Tests use one form per test and never compare.",
      ["gearley-grammar/src/lib.rs"], [("impl Grammar for &G", "gearley-grammar/src/lib.rs")], ["Grammar trait"]),
    P("C21", "Forest metadata lookups are total and faithful to the grammar",
      "For every rule position the grammar's forest information - evaluation action, eliminated nulling symbols - is defined, agrees with the user's rule, and internal helper rules carry no action.",
      ["programs"], "every grammar and every dot", NOTESTS + "index offsets between rules and dots vary with the grammar.",
      [G + "lib.rs", "gearley-forest/src/lib.rs"], [("eval / nulling_eliminated tables", G + "lib.rs")], ["ForestInfo"]),
    P("C22", "Parse drivers report the right position and never lose a token",
      "The high-level drivers (parse, tokenizing utilities) consume exactly the tokens given and otherwise give the same outcome as driving the recognizer step by step. A failure names the position and the token there: the first offending character when tokenizing; for parse(), which looks one token ahead, the first offending token or the one just before it. An unknown word is reported by name, and input that ends too early as unfinished.",
      ["inputs", "programs"], "every token string/text over every grammar", NOTESTS + "error paths have no test.",
      ["gearley-utils/src/parse.rs"], [("RecognizerParseExt::parse", "gearley-utils/src/parse.rs")], ["RecognizerParseExt::parse"]),
    P("C23", "The choice of forest never affects recognition",
      "Recognizers with the null, simple and compact forests (and any forest of a user's own) agree on acceptance, failure positions and progress information for every grammar and input.",
      ["inputs", "programs", "configurations"], "every grammar, string and forest type", "No test runs the same input through two forests.",
      ["gearley-forest/src/lib.rs", "gearley-forest/src/null_forest.rs", R + "recognizer.rs"], [("Forest trait calls from completion", R + "recognizer.rs")], ["Recognizer::is_finished"]),
    P("C24", "A forest node is offered exactly when there is a parse to evaluate",
      "finished_node() returns a node exactly when the recognizer is finished, which is exactly when the consumed text is a sentence; evaluating that node is always defined, including for an empty input to a nullable start symbol, and node handles of distinct nodes are distinct.",
      ["inputs", "programs", "histories"], "every grammar and string, at every step", NOTESTS + "finished_node is only called after complete successful parses.",
      [R + "recognizer.rs", "gearley-forest/src/node_handle.rs"], [("finished_node", R + "recognizer.rs")], ["Recognizer::finished_node"]),
    P("C25", "The example grammars compute what they describe",
      "The bundled arithmetic grammars accept exactly the expressions they describe, and their evaluators compute the mathematically right result (precedence and left-to-right order; for the ambiguous grammar the multiset over all bracketings; division truncates) for every expression, with every number length, whenever no intermediate result leaves i32 or divides by zero.",
      ["inputs"], "every expression up to the bound", "The bundled tests evaluate a few fixed strings with short numbers.",
      ["gearley-example-grammars/src/ambiguous_math/mod.rs", "gearley-example-grammars/src/precedenced_math/mod.rs"], [("evaluators", "gearley-example-grammars/src")], ["evaluators"]),
    P("C26", "Grammar loading from text builds the grammar described",
      "A grammar loaded from its textual description recognizes the same language as the one built with the API.",
      ["programs", "inputs"], "every grammar text", "No test.",
      ["gearley-load/src/lib.rs"], [("load", "gearley-load/src/lib.rs")], ["load"],
      na="gearley-load does not compile at this commit: it uses an undefined `rule!` macro and depends on cfg-load sources absent from this sandbox, so there is no code to encode"),
    P("C27", "Leo's optimisation keeps right recursion linear without changing parses",
      "With Leo items on, right-recursive grammars use linearly many items and give the same results.",
      ["programs", "inputs"], "every right-recursive grammar", "No test.",
      [R + "recognizer.rs"], [("leo", R + "recognizer.rs")], ["Recognizer"],
      na="the Leo optimisation is unfinished at this commit (its code path is todo!() and no caller enables it), so there is no behaviour to decide"),
]

NOT_YET = "not claimed yet: the harness for it is under construction"


# What is asserted for a property and against what oracle (for DESIGN.md).
SPEC = {
    "C01": ("is_finished() after every prefix, several alternative tokens at a position included.", "chart recognizer `Ref`"),
    "C02": ("end_earleme()'s answer at every token: some sentence starts with this text.", "viable prefixes of `Ref`"),
    "C03": ("the same text with, at each step, the truthful next token as a hint, none, or one taken back: acceptance, failing position, evaluated trees.", "`Ref`, `trees`"),
    "C04": ("any history (stopped before the start of input, within a step, half-way through a group of completions, after a failure), reset(), then input to it and to a fresh recognizer in lockstep: predictions, items, position, acceptance, values.", "a fresh recognizer, `Ref`, `trees`"),
    "C05": ("predicted_symbols, expected_terminals and medial_items after each prefix.", "next tokens of `Ref`; naive Earley items"),
    "C06": ("an arbitrary event number and distance on every dot of every rule; the multisets of events, traces and distances reported.", "naive Earley items with the user's dots"),
    "C07": ("evaluation of every unambiguous sentence as trees with symbolic leaves.", "`trees`"),
    "C08": ("both bocages on the same parse, evaluated twice; hand-made forests around the sizes where encodings change.", "the simple bocage, and `trees`"),
    "C09": ("the multiset of trees of every ambiguous sentence, also with a terminal read twice at a position.", "`trees`"),
    "C10": ("the same over grammars with nullable symbols in every place, and the empty input; also with evaluators that give a symbol several nulling values or none.", "`trees`"),
    "C11": ("groups drained whole, by hand or skipped: one per (symbol, origin), origins never increasing, result as with end_earleme().", "a recognizer driven by end_earleme(); `Ref` without the skipped span"),
    "C12": ("one operation on any container (inductive step), histories from empty, selected large sizes.", "list of lists"),
    "C13": ("written as JSON and read back by the real miniserde / serde_json (executed symbolically like the rest), then observed and operated on.", "list of lists"),
    "C14": ("any sequence of push/extend/clear/advance, then whole rounds.", "an odometer"),
    "C15": ("cmp, partial_cmp and eq over pairs and triples of items with symbolic fields.", "lexicographic (origin, dot)"),
    "C16": ("forests built through the Forest trait with symbolic counts and symbols at offsets around 2^8, 2^16 (2^24), read back by evaluation.", "what was stored"),
    "C17": ("the arithmetic of the hint over symbolic 64-bit numbers; recognition under any of five hints.", "limits in 128-bit arithmetic; `Ref`"),
    "C18": ("to_internal and to_external of every symbol.", "a bijection with the user's symbols"),
    "C19": ("a grammar through JSON: all queries compared, then parsed and evaluated.", "the original grammar"),
    "C20": ("a grammar of ours that answers every query with an arbitrary number, asked by value, reference and reference to reference; parses by both.", "the grammar itself"),
    "C21": ("every dot of the internal grammar: action and eliminated symbols; binarized rules put back together.", "tables computed from the user's rules"),
    "C22": ("parse() and the tokenizers over arbitrary tokens, words and characters.", "stepwise driving, `Ref`"),
    "C23": ("four recognizers in lockstep.", "each other"),
    "C24": ("finished_node() before anything, within a step and after every prefix; evaluation of what it offers; handle arithmetic.", "`Ref`, `trees`"),
    "C25": ("every expression up to the bound (its characters are solver variables); the evaluators' actions on arbitrary 32-bit numbers.", "recursive descent over wide integers"),
}


def design():
    from props import PROPS as BUILT
    out = ["<!-- properties: generated by propdefs.py -->", ""]
    for p in PROPS:
        b = BUILT.get(p["id"])
        out.append("### %s %s" % (p["id"], p["title"]))
        if b is None:
            out += ["Not applicable: " + p["na"] + ".", ""]
            continue
        s, o = SPEC[p["id"]]
        deep = sum(1 for h in b["harnesses"] if h.get("tier") == "thorough")
        out += ["- Asserted: " + s, "- Oracle: " + o + ".", "- Bounds: " + b["bounds"] + ".",
                "- Harnesses: %d quick, %d more in thorough." % (len(b["harnesses"]) - deep, deep), ""]
    out.append("<!-- end -->")
    d = open("/verif/DESIGN.md").read()
    i, j = d.index("<!-- properties"), d.index("<!-- end -->") + len("<!-- end -->")
    with open("/verif/DESIGN.md", "w") as f:
        f.write(d[:i] + "\n".join(out) + d[j:])


def main():
    from props import PROPS as BUILT
    with open("/verif/properties.jsonl", "w") as f:
        for p in PROPS:
            f.write(json.dumps({k: v for k, v in p.items() if k != "na"}) + "\n")
    checks, na = [], []
    for p in PROPS:
        b = BUILT.get(p["id"])
        if b is None:
            na.append(dict(property=p["id"], reason=p["na"] or NOT_YET))
            continue
        c = dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']} quick", thorough_cmd=f"python3 check.py {p['id']} thorough",
                 technique="symbolic execution of the compiled Rust (LLVM IR) with Z3 deciding every branch and assertion",
                 level="model_checking",
                 level_note="Decided for every value within the bounds: " + b["bounds"] + ". Trusts rustc's IR, the engine's IR semantics and Z3; sampled paths and every counterexample are replayed natively.")
        checks.append(c)
    m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na)
    with open("/verif/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    design()


if __name__ == "__main__":
    main()
