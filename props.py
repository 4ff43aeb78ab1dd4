"""What each check runs. Bounds are stated per harness; `tier: thorough` harnesses run only in the thorough tier."""

ENGINE_ASSUMPTIONS = [
    "the LLVM IR rustc emits for the harness crate (opt-level 1, overflow checks and debug assertions on, panic=abort) is the code that is decided; the native builds replayed use the same sources",
    "allocation never fails and addresses of distinct allocations never touch (guard gaps between objects)",
    "for the recognizer: the cfg, cfg-symbol, cfg-history, cfg-load and bit-matrix crates, which are not available offline, are replaced by stand-ins in /verif/stubs with the contract gearley relies on (DESIGN.md, Stand-ins)",
    "z3 and the engine's IR semantics are trusted; sampled paths of every run are re-executed natively and must produce the same observations",
]

CRATES = ["vec2d", "cart", "rec"]


def H(crate, name, bounds, covers=(), **kw):
    return dict(crate=crate, name=name, bounds=bounds, covers=list(covers), **kw)


T = dict(tier="thorough")

PROPS = {
    "C12": dict(
        title="Vec2d is a growable sequence of sealed sets plus one in-progress set",
        bounds="any container with <= 2 sealed sets of <= 2 items and <= 2 in-progress items, then any one operation (inductive step), and any history of <= 3 operations from empty; item values arbitrary u32 / (u32,u8,u64) / () / owned; selected sizes up to 66,000 sets and items with any operation; thorough: <= 3 sets of <= 3 items then 2 operations, histories of 4",
        harnesses=[
            H("vec2d", "vec2d_step_u32", "any state (<=2 sets x <=2 items + <=2 in progress), 1 operation, any u32 items", ["history", "pop", "truncate", "last_mut"]),
            H("vec2d", "vec2d_step_wide", "same, 16-byte items with padding", ["history", "truncate"]),
            H("vec2d", "vec2d_history3", "any 3 operations from empty", ["history", "pop"]),
            H("vec2d", "vec2d_from_iter", "<=3 sets x <=2 items", ["from_iter"]),
            H("vec2d", "vec2d_random_access", "any index 0..=12, any set, any position", ["hit", "miss", "set"]),
            H("vec2d", "vec2d_out_of_range", "any 64-bit set id past the end"),
            H("vec2d", "vec2d_capacity", "capacity hints from {0,1,2,3,64,1000} x the same, 2 operations", ["capacity"]),
            H("vec2d", "vec2d_zst", "any state (<=2 sets x <=3 items), 1 operation, items of no size", ["history", "pop"]),
            H("vec2d", "vec2d_owned", "any state (<=2 sets x <=2 items), items that own memory, one operation, every item dropped once", ["owned"]),
            H("vec2d", "vec2d_many", "8 sizes of up to 270 sets, up to 140 items in a set, x 3 rotations of set lengths, 1 operation anywhere", ["large", "truncate"]),
            H("vec2d", "vec2d_many_wide", "4 sizes of up to 66 sets or 17 items in a set, 16-byte items, 1 operation", ["large", "truncate"]),
            H("vec2d", "vec2d_many2", "3 sizes of up to 33 sets or 17 items in a set, 2 operations", ["large", "truncate"]),
            H("vec2d", "vec2d_huge", "66,000 items in a set, 66,000 sets", ["large"]),
            H("vec2d", "vec2d_step2", "any state (<=1 set x <=1 item + <=1 in progress), 2 operations", ["history", "pop", "truncate"]),
            H("vec2d", "vec2d_step_twice", "any state (<=2 sets x <=1 item + <=1 in progress), 2 operations", ["history", "pop", "truncate"]),
            H("vec2d", "vec2d_history", "any 4 operations from empty", ["history"], **T),
            H("vec2d", "vec2d_step_deep", "any state (<=3 sets x <=3 items), 2 operations", ["history"], **T),
        ],
    ),
    "C13": dict(
        title="Vec2d serialization round-trips",
        bounds="any container with <= 2 sealed sets and <= 1 item per set plus <= 1 in progress, items any one-digit value (any value <= 999 in one shape; structured items); selected sizes up to 66,000 sets and items; JSON through miniserde and serde_json",
        harnesses=[
            H("vec2d", "vec2d_json_mini", "<=2 sets x <=1 item + in progress", ["json"]),
            H("vec2d", "vec2d_json_serde", "<=2 sets x <=1 item + in progress", ["serde"]),
            H("vec2d", "vec2d_json_large", "6 sizes of up to 300 sets or 300 items in a set, numbers of up to 10 digits, then 1 operation", ["large", "truncate"]),
            H("vec2d", "vec2d_json_serde_large", "the same through serde_json", ["large", "truncate"]),
            H("vec2d", "vec2d_json_huge", "66,000 items in a set, 66,000 sets", ["large"]),
            H("vec2d", "vec2d_json_serde_huge", "the same through serde_json", ["large"]),
            H("vec2d", "vec2d_json_number", "items any number <= 999", ["number"]),
            H("vec2d", "vec2d_json_serde_number", "items any number <= 299", ["number"]),
            H("vec2d", "vec2d_json_step", "any state (<=1 set x <=1 item + in progress), 1 operation before and 1 after", ["continued"]),
            H("vec2d", "vec2d_json_serde_step", "the same through serde_json, empty sets", ["continued"]),
            H("vec2d", "vec2d_json_serde_step_deep", "the same through serde_json, <=1 item", ["continued"], **T),
            H("vec2d", "vec2d_json_items", "structured items: options, texts with escapes, lists; <=2 sets x <=2 items", ["items"]),
            H("vec2d", "vec2d_json_serde_items", "the same through serde_json, <=1 set", ["items"]),
        ],
    ),
    "C14": dict(
        title="CartesianProduct enumerates every combination exactly once, in order",
        bounds="<= 4 factors of <= 4 elements and <= 9 factors of <= 2 elements, any element values; any 3 push/extend/clear calls (each adding <= 2 factors), any 4 with steps in between; selected shapes up to 40 factors and 65,540 elements; element types u32, u8 newtype, (u64,u8), ()",
        harnesses=[
            H("cart", "cart_push", "<=3 factors x 1..=3 elements", ["enumerated"]),
            H("cart", "cart_push_wide", "<=3 factors x 1..=2, 16-byte elements", ["enumerated"]),
            H("cart", "cart_push_tag", "<=2 factors x 1..=4, 1-byte elements", ["enumerated"]),
            H("cart", "cart_push_zst", "<=3 factors x 1..=3, zero-sized elements", ["enumerated"]),
            H("cart", "cart_extend", "<=3 factors x 1..=3 elements", ["enumerated"]),
            H("cart", "cart_extend_deep", "<=4 factors x 1..=4 elements", ["enumerated"]),
            H("cart", "cart_push_deep", "<=9 factors x 1..=2 elements", ["enumerated"]),
            H("cart", "cart_incremental", "any 3 of push/extend one/extend two/clear", ["enumerated", "extend one", "extend two", "clear"]),
            H("cart", "cart_reused", "partial enumeration of 0..=6 steps, clear, new factors", ["reused"]),
            H("cart", "cart_stepwise", "any 4 of push/extend two/clear/step, factors of 1..=3, then two rounds", ["enumerated", "around", "partly"]),
            H("cart", "cart_iterators", "<=4 factors of 1..=2 from filtered, lazy and split iterators", ["enumerated", "iterators"]),
            H("cart", "cart_large", "13 shapes of up to 40 factors or 257 elements x 3 rotations x 3 places of the big factor, two rounds", ["large"]),
            H("cart", "cart_large_zst", "5 shapes, zero-sized elements", ["large"]),
            H("cart", "cart_huge", "one factor of 65,537 or 65,540 elements, two rounds", ["large"]),
            H("cart", "cart_empty_factor", "1..=3 factors of 0..=2 elements, at least one empty", ["empty"]),
            H("cart", "cart_subslices", "2 factors, any subslices of one shared slice of 5 (overlapping, equal, adjacent)", ["enumerated", "parts"]),
            H("cart", "cart_subslices3", "3 factors, the same of a slice of 3", ["enumerated", "parts"]),
            H("cart", "cart_countless", "factors whose product does not fit 64 bits, first steps", ["countless"]),
            H("cart", "cart_stepwise_deep", "any 6 of push/extend two/clear/step", ["enumerated", "around"], **T),
            H("cart", "cart_incremental_deep", "any 4 of push/extend/clear, factors of 1..=3", ["enumerated"], **T),
        ],
    ),
}

# Families of harnesses of the "rec" crate: (name, bounds, covers[, tier]).
POOLS = ("grammars: any cycle-free subset of a pool of rules (3-4 nonterminals, 1-4 terminals, 8-10 optional rules; declared in either "
         "order), each pool rich in one shape: ")


def R(rows, covers=()):
    out = []
    for row in rows:
        name, bounds = row[0], row[1]
        cov = row[2] if len(row) > 2 and row[2] is not None else covers
        kw = dict(T, max_steps=4_000_000_000) if name == "codec_near_three_deep" else dict(max_steps=2_000_000_000) if name.startswith("large_") and not name.endswith("_deep") else dict(T, max_steps=20_000_000_000) if name.startswith("large_") else T if name.endswith("_deep") or (len(row) > 3 and row[3]) else {}
        out.append(H("rec", name, bounds, cov, **kw))
    return out


RW = ["one group completed", "one summand taken", "all groups completed", "evaluated", "failed"]
ACC = ["accepted", "full length"]
REC = R([
    ("rec_core", "mixed grammars, any <= 4 tokens"),
    ("rec_rec", "left/right/middle recursion, any <= 5 tokens"),
    ("rec_unary", "chains of unary rules, any <= 4 tokens"),
    ("rec_null", "nullable symbols, any <= 3 tokens"),
    ("rec_long", "right-hand sides of 3-4 symbols, any <= 5 tokens"),
    ("rec_one", "one terminal, highly ambiguous, <= 16 tokens"),
    ("rec_nest", "nesting, any <= 6 tokens"),
    ("rec_hide", "hidden left/right recursion through nullable symbols, any <= 4 tokens"),
    ("rec_right", "right recursion, any <= 6 tokens"),
    ("rec_useless", "with unproductive and unreachable rules, any <= 3 tokens"),
    ("rec_wide", "40 symbols, any <= 2 tokens"),
], ACC)
REC_DEEP = R([
    ("rec_core_deep", "mixed grammars, any <= 6 tokens"),
    ("rec_rec_deep", "recursion, any <= 7 tokens"),
    ("rec_null_deep", "nullable symbols, any <= 5 tokens"),
    ("rec_hide_deep", "hidden recursion, any <= 6 tokens"),
    ("rec_unary_deep", "unary chains, any <= 6 tokens"),
    ("rec_nest_deep", "nesting, any <= 9 tokens"),
], ACC)
MULTI = R([
    ("multi_null", "any subset of terminals at each of <= 2 positions, nullable", ["several tokens at once", "evaluated"]),
    ("multi_nest", "any subset of terminals at each of <= 3 positions, nesting", ["several tokens at once"]),
    ("multi_long", "any subset of terminals at each of <= 2 positions, long rules", ["several tokens at once"]),
    ("multi_core", "any subset of terminals at each of <= 3 positions, mixed", ["several tokens at once", "evaluated"], True),
    ("multi_core_deep", "the same, <= 5 positions", ["several tokens at once", "evaluated"]),
    ("multi_long_deep", "the same, <= 4 positions", ["several tokens at once"]),
    ("multi_nest_deep", "the same, <= 5 positions", ["several tokens at once"]),
])


LARGE = R([
    ("large_nest", "a^n b^m for n = 300, any token at one of 16 places: acceptance, failures, what is expected", ["failed", "unfinished"]),
    ("large_nest_short", "the same, n = 66,000, at two places", ["failed"]),
    ("large_symbols", "a grammar of 320 symbols and 320 rules, 5 x 5 pairs of tokens", ["evaluated", "failed"]),
    ("large_groups", "one terminal, 24 tokens, all completions", ["by hand", "several groups"]),
    ("large_groups_more", "one terminal, 40 tokens, all completions", ["by hand", "several groups"]),
    ("large_nest_value", "a^300 b^300, simple bocage", ["evaluated"]),
    ("large_list_value", "a left-recursive list of 300", ["evaluated"]),
    ("large_right_value", "a right-recursive list of 300", ["evaluated"]),
    ("large_list_more", "a left-recursive list of 30,000", ["evaluated"]),
    ("large_nest_compact", "a^300 b^300, compact bocage", ["evaluated"]),
    ("large_list_compact", "a left-recursive list of 300, compact bocage", ["evaluated"]),
    ("large_right_compact", "a right-recursive list of 300, compact bocage", ["evaluated"]),
    ("large_list_compact_more", "a left-recursive list of 30,000, compact bocage", ["evaluated"]),
    ("large_symbols_compact", "a grammar of 320 symbols and 320 rules, compact bocage", ["evaluated", "failed"]),
    ("large_driven", "parse() of 600 tokens, one of them changed at one of 13 places", ["error", "parsed"]),
    ("large_tokenized", "600 words or characters, one of them changed or unknown at one of 11 places", ["words", "text"]),
    ("large_json_mini", "a grammar of 320 symbols and 320 rules through miniserde", ["evaluated", "failed"]),
    ("large_json_serde", "the same through serde_json", ["evaluated", "failed"]),
    ("large_events", "events on every dot of 320 rules", ["event"]),
    ("large_nest_forest", "a^n b^m for n = 300, simple or compact bocage", ["failed", "unfinished"]),
    ("large_reset", "reset after up to 600 tokens, then a^n b^m for n = 300", ["failed", "unfinished"]),
    ("large_alternatives", "one node of 300 alternatives", ["evaluated"]),
    ("large_alternatives_compact", "one node of 300 alternatives, compact bocage", ["evaluated"]),
    ("large_pairs_deep", "one node of 67,600 alternatives", ["evaluated"]),
    ("large_pairs_compact_deep", "one node of 67,600 alternatives, compact bocage", ["evaluated"]),
    ("large_combinations", "9 factors of two alternatives: 512 values", ["evaluated"]),
    ("large_combinations_compact", "9 factors of two alternatives, compact bocage", ["evaluated"]),
    ("large_combinations_more", "17 factors of two alternatives: 131,072 values", ["evaluated"]),
    ("large_combinations_more_compact", "17 factors of two alternatives, compact bocage", ["evaluated"]),
    ("large_rule", "a rule of 301 symbols, another terminal and a nullable symbol at one of 5 places each: what is expected, acceptance and the value", ["evaluated"]),
    ("large_rule_compact", "a rule of 301 symbols, compact bocage", ["evaluated"]),
    ("large_nothing", "40 nullable symbols in a row, all or all but one of which are nothing", ["evaluated"]),
    ("large_nothing_compact", "40 nullable symbols in a row, compact bocage", ["evaluated"]),
    ("large_nothing_deep", "130 nullable symbols in a row", ["evaluated"]),
    ("large_nothing_compact_deep", "130 nullable symbols in a row, compact bocage", ["evaluated"]),
    ("large_chain", "300 rules of one symbol in a row", ["evaluated"]),
    ("large_chain_compact", "300 rules of one symbol in a row, compact bocage", ["evaluated"]),
    ("large_hinted_symbols", "a grammar of 320 symbols and 320 rules, 4 x 4 pairs of tokens, each with a truthful hint", ["hinted", "failed", "evaluated"]),
    ("large_info", "a grammar of 320 symbols and 320 rules: every rule's position, action and eliminated symbol", ["rules put together", "helper"]),
    ("large_hinted", "a^n b^m for n = 300, any token at one of 10 places, hints at all, half or none of the steps", ["hinted", "accepted", "failed"]),
])


def only(rows, *names):
    got = [r for r in rows if r["name"] in names]
    assert len(got) == len(names), names
    return got


PROPS.update({
    "C01": dict(
        title="Recognition is exact: accepts precisely the strings of the language",
        bounds=POOLS + "mixed, recursive, unary chains, nullable, long rules, one terminal, nesting, hidden recursion, 40 symbols; token strings of up to 3-8 tokens each (see harnesses), several terminals per position; is_finished() after every prefix",
        harnesses=REC + MULTI + REC_DEEP + only(LARGE, "large_nest", "large_nest_short", "large_symbols", "large_groups", "large_rule"),
    ),
    "C02": dict(
        title="A parse fails exactly at the first token no sentence can continue with",
        bounds=POOLS + "the same pools as C01, token strings up to 3-8 tokens, the failing position compared at every token",
        harnesses=only(REC, "rec_core", "rec_rec", "rec_long", "rec_nest", "rec_right", "rec_hide", "rec_useless", "rec_wide", "rec_null") + only(MULTI, "multi_nest", "multi_long", "multi_core_deep", "multi_long_deep", "multi_nest_deep") + REC_DEEP + only(LARGE, "large_nest", "large_symbols", "large_rule"),
    ),
    "C03": dict(
        title="Truthful lookahead hints never change acceptance, failure or values",
        bounds=POOLS + "mixed, nullable, long, nesting, hidden and right recursion; any string up to 2-4 tokens, at each step a truthful hint, none, or one set and cleared, any leaf values",
        harnesses=R([
            ("hint_core", "mixed, <= 2 tokens"),
            ("hint_null", "nullable, <= 2 tokens"),
            ("hint_long", "long rules, <= 3 tokens"),
            ("hint_nest", "nesting, <= 4 tokens"),
            ("hint_hide", "hidden recursion, <= 2 tokens"),
            ("hint_right", "right recursion, <= 3 tokens"),
            ("hint_core_deep", "mixed, <= 4 tokens"),
            ("hint_null_deep", "nullable, <= 4 tokens"),
            ("hint_long_deep", "long rules, <= 5 tokens"),
        ], ["hinted", "accepted", "failed"]) + only(LARGE, "large_hinted", "large_hinted_symbols"),
    ),
    "C04": dict(
        title="A reset recognizer behaves like a fresh one",
        bounds=POOLS + "mixed, nesting, nullable; any history of up to 1-3 tokens (stopped before or after the start of input, within a step, with completions left over, with or without hints, failed or not), reset, then any string of up to 2-4 tokens compared with a fresh recognizer",
        harnesses=R([
            ("reset_core", "mixed, <= 2 tokens before, <= 2 after", ["hint before reset", "failed before reset", "failed", "full length"]),
            ("reset_nest", "nesting, <= 2 before, <= 3 after", ["hint before reset", "failed before reset", "full length"]),
            ("reset_within_core", "mixed, reset within step 1 (before, half-way through or after its completions), <= 2 after, evaluated", RW),
            ("reset_within_one", "the same, one terminal, within step 3, <= 3 after, compact bocage", RW),
            ("reset_within_nest", "the same, nesting, within step 2, <= 2 after, compact bocage", RW),
            ("reset_within_unary_deep", "the same, unary chains, within step 2", RW),
            ("reset_within_long_deep", "the same, long rules, within step 3, <= 3 after", RW),
            ("reset_within_null_deep", "the same, nullable, within step 1, <= 2 after", RW),
            ("reset_within_nest_deep", "the same, nesting, within step 4, <= 4 after", RW),
            ("reset_within_core_deep", "the same, mixed, within step 3, <= 3 after", RW),
            ("reset_nest_deep", "nesting, <= 3 before, <= 4 after", ["hint before reset", "failed before reset", "full length"]),
            ("reset_null", "nullable, 1 before, 2 after", ["hint before reset", "full length"]),
            ("reset_core_deep", "mixed, <= 4 before, <= 4 after", ["full length"]),
        ]) + only(LARGE, "large_reset"),
    ),
    "C05": dict(
        title="Progress information names exactly what the parser expects next",
        bounds=POOLS + "mixed, nullable, long, nesting, unary, hidden recursion, 40 symbols; after each prefix of any string up to 2-5 tokens",
        harnesses=R([
            ("prog_core", "mixed, <= 3 tokens", ["rules compared"]),
            ("prog_null", "nullable, <= 3 tokens", ["full length"]),
            ("prog_long", "long rules, <= 4 tokens", ["rules compared"]),
            ("prog_nest", "nesting, <= 5 tokens", ["rules compared"]),
            ("prog_unary", "unary chains, <= 3 tokens", ["rules compared"]),
            ("prog_hide", "hidden recursion, <= 3 tokens", ["full length"]),
            ("prog_wide", "40 symbols, <= 2 tokens", ["rules compared"]),
            ("prog_core_deep", "mixed, <= 5 tokens", ["rules compared"]),
            ("prog_nest_deep", "nesting, <= 8 tokens", ["rules compared"]),
            ("prog_null_deep", "nullable, <= 5 tokens", ["full length"]),
        ]) + only(LARGE, "large_nest", "large_symbols", "large_rule"),
    ),
    "C06": dict(
        title="Events, traces and distances match the positions the parse is in",
        bounds=POOLS + "mixed, long, nesting, nullable, unary; an arbitrary 32-bit event and distance at every dot of every rule; after each prefix of any string up to 3-4 tokens",
        harnesses=R([
            ("event_core", "mixed, <= 3 tokens", ["event", "inside rules"]),
            ("event_long", "long rules, <= 4 tokens", ["event", "inside rules"]),
            ("event_nest", "nesting, <= 4 tokens", ["event", "inside rules"]),
            ("event_null", "nullable, <= 3 tokens", ["event"]),
            ("event_unary", "unary chains, <= 3 tokens", ["event", "inside rules"]),
            ("event_core_deep", "mixed, <= 5 tokens", ["event", "inside rules"]),
            ("event_long_deep", "long rules, <= 6 tokens", ["event", "inside rules"]),
        ]) + only(LARGE, "large_events"),
    ),
    "C07": dict(
        title="The value of an unambiguous parse is the value of its derivation",
        bounds=POOLS + "mixed, unary, long, nesting, right recursion; every unambiguous sentence up to 3-5 tokens with arbitrary 32-bit leaf values",
        harnesses=R([
            ("eval_core_one", "mixed, <= 3 tokens", ["unambiguous"]),
            ("eval_unary_one", "unary chains, <= 3 tokens", ["unambiguous"]),
            ("eval_long_one", "long rules, <= 5 tokens", ["unambiguous"]),
            ("eval_nest_one", "nesting, <= 5 tokens", ["unambiguous"]),
            ("eval_right_one", "right recursion, <= 4 tokens", ["unambiguous"]),
            ("eval_core_deep", "mixed, <= 5 tokens", ["unambiguous"]),
            ("eval_long_deep", "long rules, <= 7 tokens", ["unambiguous"]),
            ("eval_nest_deep", "nesting, <= 7 tokens", ["unambiguous"]),
            ("eval_right_deep", "right recursion, <= 6 tokens", ["unambiguous"]),
        ]) + only(LARGE, "large_nest_value", "large_list_value", "large_right_value", "large_list_more", "large_rule", "large_chain", "large_symbols"),
    ),
    "C08": dict(
        title="The compact bocage evaluates to the same results as the simple bocage",
        bounds=POOLS + "mixed, nullable, one terminal, long, hidden recursion; every sentence up to 2-5 tokens, one leaf value arbitrary; both bocages evaluated, twice; stored nodes around byte boundaries against the same oracle in both",
        harnesses=R([
            ("compact_core", "mixed, <= 2 tokens", ["compared", "ambiguous"]),
            ("compact_null", "nullable, <= 2 tokens", ["compared"]),
            ("compact_one", "one terminal, <= 4 tokens", ["compared", "ambiguous"]),
            ("compact_one_deep", "one terminal, <= 5 tokens", ["compared", "ambiguous"]),
            ("compact_long", "long rules, <= 4 tokens", ["compared"]),
            ("compact_hide", "hidden recursion, <= 3 tokens", ["compared"]),
            ("twice_core", "mixed, <= 3 tokens, evaluated twice", ["twice"]),
            ("twice_null", "nullable, <= 2 tokens, evaluated twice", ["twice"]),
            ("codec_near_byte", "handles around 2^8", ["evaluated"]),
            ("simple_shapes", "sums of sums in the simple bocage", ["evaluated", "ambiguous"]),
            ("codec_shapes", "sums of sums in the compact bocage", ["evaluated", "ambiguous"]),
            ("nothing_hide_compact", "hidden recursion, <= 2 tokens, several or no values for nothing", ["several values", "no value"]),
            ("nothing_null_compact", "nullable, <= 2 tokens, several or no values for nothing", ["several values", "no value"]),
            ("again_core_compact", "mixed, <= 2 tokens, each read once or twice", ["read twice"]),
            ("again_long_compact", "long rules, <= 3 tokens, each read once or twice", ["read twice"]),
            ("compact_core_deep", "mixed, <= 4 tokens", ["compared", "ambiguous"]),
            ("compact_null_deep", "nullable, <= 4 tokens", ["compared"]),
        ]) + only(LARGE, "large_nest_compact", "large_list_compact", "large_right_compact", "large_list_compact_more", "large_symbols_compact", "large_alternatives_compact", "large_combinations_compact", "large_combinations_more_compact", "large_rule_compact", "large_chain_compact", "large_nothing_compact"),
    ),
    "C09": dict(
        title="An ambiguous parse evaluates to one value per derivation",
        bounds=POOLS + "mixed, recursive, one terminal, unary, nesting; every ambiguous sentence up to 3-5 tokens with arbitrary 32-bit leaf values; all derivations",
        harnesses=R([
            ("eval_core_many", "mixed, <= 3 tokens"),
            ("eval_rec_many", "recursion, <= 4 tokens"),
            ("eval_one_many", "one terminal, <= 5 tokens"),
            ("eval_unary_many", "unary chains, <= 3 tokens"),
            ("eval_nest_many", "nesting, <= 5 tokens"),
            ("eval_core_deep", "mixed, <= 5 tokens"),
            ("eval_rec_deep", "recursion, <= 5 tokens"),
            ("eval_nest_deep", "nesting, <= 7 tokens"),
        ], ["ambiguous"]) + R([
            ("nothing_hide", "hidden recursion, <= 3 tokens, several or no values for nothing", ["several values", "no value"]),
            ("again_core", "mixed, <= 2 tokens, each read once or twice", ["read twice"]),
            ("again_null", "nullable, <= 2 tokens, each read once or twice", ["read twice"]),
            ("again_long", "long rules, <= 3 tokens, each read once or twice", ["read twice"]),
            ("again_core_deep", "mixed, <= 3 tokens, each read once or twice", ["read twice"]),
            ("again_long_deep", "long rules, <= 5 tokens, each read once or twice, compact bocage", ["read twice"]),
        ]) + only(LARGE, "large_alternatives", "large_alternatives_compact", "large_combinations", "large_combinations_compact", "large_combinations_more", "large_combinations_more_compact", "large_pairs_deep", "large_pairs_compact_deep"),
    ),
    "C10": dict(
        title="Eliminated nullable symbols reappear in evaluation, in the right place",
        bounds=POOLS + "nullable symbols in rules of up to 4, hidden recursion; every sentence up to 3-4 tokens (the empty one included) with a part that derives nothing, arbitrary leaf values",
        harnesses=R([
            ("eval_null", "3 nullable symbols in a row, <= 3 tokens", ["unambiguous", "two empty parts"]),
            ("eval_null4", "4 nullable symbols in a row, <= 3 tokens", ["unambiguous", "two empty parts"]),
            ("eval_hide", "hidden recursion, <= 4 tokens", ["unambiguous", "two empty parts"]),
            ("eval_core_null", "mixed, <= 3 tokens", ["unambiguous"]),
            ("node_null", "nullable, a node at every position, <= 3 tokens", ["before input", "empty input"]),
            ("nothing_null", "nullable, <= 2 tokens, several or no values for nothing", ["several values", "no value"]),
            ("nothing_hide", "hidden recursion, <= 3 tokens, several or no values for nothing", ["several values", "no value"]),
            ("nothing_core", "mixed, <= 2 tokens, several or no values for nothing", ["several values", "no value"]),
            ("nothing_hide_compact", "hidden recursion, <= 2 tokens, several or no values for nothing", ["several values", "no value"]),
            ("nothing_null_compact", "nullable, <= 2 tokens, several or no values for nothing", ["several values", "no value"]),
            ("nothing_null_deep", "nullable, <= 3 tokens, several or no values for nothing, either bocage", ["several values", "no value"]),
            ("nothing_hide_deep", "hidden recursion, <= 3 tokens, several or no values for nothing, compact bocage", ["several values", "no value"]),
            ("eval_null_deep", "nullable, <= 5 tokens", ["unambiguous", "ambiguous"]),
        ]) + only(LARGE, "large_symbols", "large_symbols_compact", "large_nothing", "large_nothing_compact", "large_nothing_deep", "large_nothing_compact_deep", "large_rule"),
    ),
    "C11": dict(
        title="Completions come as one group per symbol and origin, latest origin first",
        bounds=POOLS + "mixed, unary, one terminal, nesting, nullable; strings up to 1-6 tokens; each group completed whole, by hand, or skipped",
        harnesses=R([
            ("group_core", "mixed, <= 2 tokens", ["by hand", "several groups", "evaluated"]),
            ("group_unary", "unary chains, <= 2 tokens", ["by hand", "several groups", "evaluated"]),
            ("group_unary_each", "unary chains, 1 token, any choice per group", ["by hand", "several groups"]),
            ("group_one", "one terminal, <= 3 tokens", ["by hand", "several groups"]),
            ("group_one_each", "one terminal, <= 2 tokens, any choice per group", ["by hand", "several groups"]),
            ("group_one_long", "one terminal, <= 7 tokens (many completions at once)", ["by hand", "several groups"]),
            ("group_nest", "nesting, <= 4 tokens", ["by hand", "several groups"]),
            ("group_null", "nullable, <= 2 tokens", ["by hand", "several groups"]),
            ("skip_one", "one terminal, <= 3 tokens, one group skipped", ["skipped"]),
            ("skip_nest", "nesting, <= 4 tokens, one group skipped", ["skipped"]),
            ("skip_core", "mixed, <= 2 tokens, one group skipped", ["skipped"], True),
            ("skip_unary", "unary chains, <= 2 tokens, one group skipped", ["skipped"], True),
            ("group_core_deep", "mixed, <= 3 tokens, any choice per group", ["by hand"]),
            ("group_unary_deep", "unary chains, <= 3 tokens, any choice per group", ["by hand"]),
            ("group_nest_deep", "nesting, <= 6 tokens, any choice per group", ["by hand"]),
            ("skip_core_deep", "mixed, <= 3 tokens, a group skipped", ["skipped"]),
            ("skip_nest_deep", "nesting, <= 6 tokens, a group skipped", ["skipped"]),
        ]) + only(LARGE, "large_groups", "large_groups_more"),
    ),
    "C15": dict(
        title="Completions are ordered by origin first, then dot, and never by forest node",
        bounds="any two and three items with any 32-bit origin, dot and node (complete: no bound); in recognizers: one-terminal and unary grammars, up to 7 tokens, groups' origins never increase",
        harnesses=R([
            ("item_order", "any two items", ["less", "equal", "greater"]),
            ("item_order_total", "any three items", ["chain"]),
            ("item_order_node", "any nodes, of three types", ["sorted"]),
            ("group_one_long", "one terminal, <= 7 tokens: order in which completions come", ["several groups"]),
            ("group_unary", "unary chains, <= 2 tokens", ["several groups"]),
            ("group_nest_deep", "nesting, <= 6 tokens", ["several groups"]),
        ]) + only(LARGE, "large_groups"),
    ),
    "C16": dict(
        title="Every node stored in the compact bocage reads back as the same node",
        bounds="leaves with any 32-bit symbol and value; sums of up to 2 over products, leaves, empty symbols and sums, 3 levels; every offset around handles 2^8 and 2^16 (2^24 in thorough); positions around 2^8 and 2^16; empty symbols up to 70,000; and every parse of C08's bounds",
        harnesses=R([
            ("codec_values", "one leaf: any symbol and value, any sum", ["evaluated", "ambiguous"]),
            ("codec_values2", "two leaves: any symbols and values", ["evaluated"]),
            ("codec_shapes", "sums of sums, 3 levels", ["evaluated", "ambiguous"]),
            ("codec_near_byte", "every offset around handle 2^8", ["evaluated"]),
            ("codec_near_short", "every offset around handle 2^16", ["evaluated"]),
            ("codec_actions", "positions around 2^8 and 2^16", ["evaluated", "ambiguous"]),
            ("codec_empty_byte", "empty symbols around 2^8", ["evaluated"]),
            ("codec_empty_more", "empty symbols around 70,000", ["evaluated"]),
            ("codec_empty_short", "empty symbols whose handles are around 2^16", ["evaluated"]),
            ("compact_one", "one terminal, <= 4 tokens", ["compared", "ambiguous"]),
            ("compact_one_deep", "one terminal, <= 5 tokens", ["compared", "ambiguous"]),
            ("nothing_hide_compact", "hidden recursion, <= 2 tokens, several or no values for nothing", ["several values", "no value"]),
            ("compact_hide", "hidden recursion, <= 3 tokens", ["compared"]),
            ("codec_values3_deep", "three leaves", ["evaluated"]),
            ("codec_shapes_deep", "sums of sums, any counts", ["evaluated", "ambiguous"]),
            ("codec_near_short_deep", "every offset around 2^16, any sums", ["evaluated"]),
            ("codec_near_three_deep", "thirteen offsets around 2^24", ["evaluated"]),
            ("compact_core_deep", "mixed, <= 4 tokens", ["compared", "ambiguous"]),
        ]) + only(LARGE, "large_list_compact", "large_list_compact_more", "large_symbols_compact", "large_alternatives_compact", "large_combinations_more_compact"),
    ),
    "C17": dict(
        title="Capacity hints are total and within their stated limits",
        bounds="any memory limit and token count < 2^20 (thorough: 2^32) and any of 256 limits from each of 2^32, 2^40 and 2^60, with nine symbol counts; eight memory limits with any symbol count < 2^60; recognition under five kinds of hint, nesting grammars, any <= 3 tokens",
        harnesses=R([
            ("hintcap_memory", "any memory and token count below 2^17, nine symbol counts or none", ["floor", "above the floor"]),
            ("hintcap_memory_large", "any memory of 2^32, 2^40 or 2^60 and up to 255 more, any token count up to 255, nine symbol counts or none", ["above the floor"]),
            ("hintcap_memory_deep", "any memory and token count below 2^24, nine symbol counts or none", ["floor", "above the floor"]),
            ("hintcap_monotone", "any two memory limits", ["monotone"]),
            ("hintcap_syms", "any symbol count, eight memory limits", ["syms"]),
            ("hintcap_default", "the default"),
            ("hintcap_recognize", "nesting, <= 3 tokens, any of five hints", ["full length", "failed"]),
            ("hintcap_recognize_deep", "mixed, <= 3 tokens, any of five hints", ["full length", "failed"]),
        ]),
    ),
    "C18": dict(
        title="Internal and external symbols map to each other consistently",
        bounds=POOLS + "mixed, nullable, long, hidden, unary, with useless rules, 40 symbols; every symbol",
        harnesses=R([
            ("maps_core", "mixed"), ("maps_null", "nullable"), ("maps_null4", "four nullable symbols"), ("maps_long", "long rules"),
            ("maps_hide", "hidden recursion"), ("maps_unary", "unary chains"), ("maps_useless", "useless rules"), ("maps_wide", "40 symbols"),
        ], ["mapped"]) + only(LARGE, "large_symbols"),
    ),
    "C19": dict(
        title="A grammar that went through JSON parses exactly like the original",
        bounds=POOLS + "mixed, nullable, four nullable, nesting, long, unary, 40 symbols; events on every dot; miniserde and serde_json; every query of the grammar compared, then any <= 1-3 tokens parsed and evaluated with the copy",
        harnesses=R([
            ("json_mini_null", "nullable, with events, 1 token", ["read back", "evaluated"]),
            ("json_mini_nest", "nesting, 3 tokens", ["read back", "evaluated"]),
            ("json_serde_null", "nullable, with events, 1 token", ["read back", "evaluated"]),
            ("json_serde_nest", "nesting, 3 tokens", ["read back", "evaluated"]),
            ("json_mini_null4", "four nullable symbols, 1 token", ["read back", "evaluated"]),
            ("json_serde_null4", "four nullable symbols, with events, 1 token", ["read back", "evaluated"]),
            ("json_mini_core", "mixed, with events, 1 token", ["read back", "evaluated"]),
            ("json_serde_core", "mixed, with events, 1 token", ["read back", "evaluated"]),
            ("json_mini_wide", "40 symbols, with events, 1 token", ["read back", "evaluated"]),
            ("json_serde_wide", "40 symbols, with events, 1 token", ["read back", "evaluated"]),
            ("json_mini_long", "long rules, with events, 2 tokens", ["read back", "evaluated"]),
            ("json_serde_unary", "unary chains, with events, 1 token", ["read back", "evaluated"]),
            ("json_mini_core_deep", "mixed, with events, 3 tokens", ["read back", "evaluated"]),
            ("json_serde_core_deep", "mixed, with events, 3 tokens", ["read back", "evaluated"]),
        ]) + only(LARGE, "large_json_mini", "large_json_serde"),
    ),
    "C20": dict(
        title="Using a grammar by reference or by value makes no difference",
        bounds="a grammar giving arbitrary answers to every query (any 32-bit numbers, any flags); " + POOLS + "mixed, nullable, four nullable, long, 40 symbols, useless rules; every query by value, reference, reference to reference; any <= 2-3 tokens",
        harnesses=R([
            ("ref_any", "any answers", ["asked"]),
            ("ref_core", "mixed, 2 tokens", ["compared"]),
            ("ref_null", "nullable, 2 tokens", ["compared"]),
            ("ref_long", "long rules, 3 tokens", ["compared"]),
            ("ref_wide", "40 symbols, 1 token", ["compared"]),
            ("ref_null4", "four nullable symbols, 1 token", ["compared"]),
            ("ref_useless", "with useless rules, 2 tokens", ["compared"]),
        ]),
    ),
    "C21": dict(
        title="Forest metadata lookups are total and faithful to the grammar",
        bounds=POOLS + "mixed, nullable, four nullable, long, hidden, unary, useless rules, 40 symbols; every rule position",
        harnesses=R([
            ("info_core", "mixed"), ("info_null", "nullable"), ("info_null4", "four nullable symbols"), ("info_long", "long rules"),
            ("info_hide", "hidden recursion"), ("info_unary", "unary chains"), ("info_useless", "useless rules"), ("info_wide", "40 symbols"),
        ], ["rules put together"]) + only(LARGE, "large_info"),
    ),
    "C22": dict(
        title="Parse drivers report the right position and never lose a token",
        bounds=POOLS + "mixed, nullable, nesting; parse() of any <= 2-4 tokens, lists of any <= 2-3 known and unknown words, texts of any <= 2 characters where characters may be several terminals or none",
        harnesses=R([
            ("drive_parse_core", "mixed, <= 2 tokens", ["read", "parsed", "error"]),
            ("drive_parse_null", "nullable, <= 3 tokens", ["read", "parsed", "error"]),
            ("drive_parse_nest", "nesting, <= 4 tokens", ["read", "parsed", "error"]),
            ("drive_words", "nesting, <= 3 words", ["parsed", "unknown word", "refused"]),
            ("drive_words_null", "nullable, <= 2 words", ["parsed", "unknown word", "refused"]),
            ("drive_chars_nest", "nesting, <= 2 characters", ["parsed", "error", "unfinished"]),
            ("drive_chars", "mixed, <= 2 characters", ["parsed", "error", "unfinished"], True),
            ("drive_parse_core_deep", "mixed, <= 4 tokens", ["read", "parsed", "error"]),
            ("drive_parse_long_deep", "long rules, <= 4 tokens", ["read", "parsed", "error"]),
            ("drive_words_deep", "long rules, <= 3 words", ["unknown word", "refused"]),
            ("drive_chars_core_deep", "mixed, <= 3 characters", ["parsed", "error", "unfinished"]),
            ("drive_chars_long_deep", "long rules, <= 3 characters", ["error", "unfinished"]),
        ]) + only(LARGE, "large_driven", "large_tokenized"),
    ),
    "C23": dict(
        title="The choice of forest never affects recognition",
        bounds=POOLS + "mixed, nullable, nesting, one terminal; four recognizers (null, simple, compact, a user's forest) on any <= 2-4 tokens, one step with any hint, one leaf value arbitrary",
        harnesses=R([
            ("forest_null", "nullable, <= 2 tokens", ["hinted", "full length", "failed"]),
            ("forest_nest", "nesting, <= 3 tokens", ["hinted", "full length", "failed"]),
            ("forest_one", "one terminal, <= 4 tokens", ["hinted", "full length"]),
            ("forest_core", "mixed, <= 2 tokens", ["hinted", "full length", "failed"], True),
            ("forest_core_deep", "mixed, <= 3 tokens", ["hinted", "full length", "failed"]),
            ("forest_nest_deep", "nesting, <= 5 tokens", ["hinted", "full length", "failed"]),
            ("forest_null_deep", "nullable, <= 3 tokens", ["hinted", "full length", "failed"]),
        ]) + only(LARGE, "large_nest", "large_nest_forest"),
    ),
    "C24": dict(
        title="A forest node is offered exactly when there is a parse to evaluate",
        bounds=POOLS + "mixed, nullable, hidden recursion; at every point of any string up to 1-3 tokens (before input too), simple and compact bocage; handles of any two symbols < 2^20",
        harnesses=R([
            ("node_core", "mixed, <= 2 tokens", ["no node", "some input"]),
            ("node_null", "nullable, <= 3 tokens", ["before input", "empty input", "some input", "no node"]),
            ("node_hide", "hidden recursion, <= 3 tokens", ["no node", "some input"]),
            ("node_core_compact", "mixed, 1 token, compact bocage", ["no node", "some input"]),
            ("node_null_compact", "nullable, <= 2 tokens, compact bocage", ["before input", "empty input", "some input"]),
            ("handles", "any two symbols", ["handles"]),
            ("node_core_deep", "mixed, <= 4 tokens", ["no node", "some input"]),
            ("node_null_compact_deep", "nullable, <= 4 tokens, compact bocage", ["some input"]),
        ]) + only(LARGE, "large_nest_forest", "large_symbols", "large_symbols_compact", "large_nothing", "large_nothing_compact"),
    ),
    "C25": dict(
        title="The example grammars compute what they describe",
        bounds="every rule's action on all 32-bit operands for which it is defined; every viable text of <= 3 characters over the whole alphabet and of <= 5 over part of it, numbers of <= 5 digits, one 13-21 character text with any character at any place; both bocages",
        harnesses=R([
            ("ex_amb_actions", "ambiguous: each action, any operands", ["computed", "operation"]),
            ("ex_prec_actions", "precedence: each action, any operands", ["computed", "operation"]),
            ("ex_amb_any", "ambiguous: any text <= 3", ["evaluated", "no expression"]),
            ("ex_prec_any", "precedence: any text <= 3", ["evaluated", "no expression"]),
            ("ex_amb_texts", "ambiguous: texts <= 5 of 3+-*/8", ["evaluated", "no expression"]),
            ("ex_prec_texts", "precedence: texts <= 5 of 3-/()8", ["evaluated", "no expression"]),
            ("ex_amb_numbers", "ambiguous: numbers <= 5 digits", ["evaluated"]),
            ("ex_prec_numbers", "precedence: numbers <= 5 digits", ["evaluated"]),
            ("ex_amb_place", "ambiguous: any character at any place of a long text", ["evaluated", "no expression"]),
            ("ex_prec_place", "precedence: any character at any place of a long text", ["evaluated", "no expression"]),
            ("ex_prec_long", "precedence: a text of about 290 characters, any of six characters at any of 12 places", ["evaluated", "no expression"]),
            ("ex_published", "the published examples, as they are and with any of six characters at any place", ["evaluated", "no expression", "as published"]),
            ("ex_amb_texts_deep", "ambiguous: texts <= 7", ["evaluated", "no expression"]),
            ("ex_prec_texts_deep", "precedence: texts <= 7", ["evaluated", "no expression"]),
            ("ex_amb_numbers_deep", "ambiguous: numbers <= 4 of any digits", ["evaluated"]),
            ("ex_prec_numbers_deep", "precedence: numbers <= 4 of any digits", ["evaluated"]),
        ]),
    ),
})
for _p in PROPS.values():
    _p.setdefault("assumptions", ENGINE_ASSUMPTIONS)

# Deep bounds that are cheap enough for every change.
CHEAP = set("""
cart_incremental_deep codec_near_short_deep codec_shapes_deep drive_parse_core_deep drive_parse_long_deep drive_words_deep
eval_long_deep eval_nest_deep eval_null_deep eval_rec_deep eval_right_deep event_core_deep event_long_deep
forest_core_deep forest_nest_deep forest_null_deep json_mini_core_deep json_serde_core_deep
rec_core_deep rec_rec_deep rec_null_deep rec_hide_deep rec_unary_deep rec_nest_deep
""".split())
for _p in PROPS.values():
    for _h in _p["harnesses"]:
        if _h["name"] in CHEAP:
            _h.pop("tier", None)
