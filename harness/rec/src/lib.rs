//! Recognizer, grammar and forests, end to end over solver-chosen grammars, tokens and leaf values.
mod examples;
mod exact;
mod gram;
mod large;
mod more;
mod tables;
mod tree;
use cfg::Symbol;
use gearley_default_grammar::DefaultGrammar;
use gearley_forest::Forest;
use gearley_grammar::Grammar;
use gearley_recognizer::lookahead::Lookahead;
use gearley_recognizer::perf_hint::PerfHint;
use gearley_recognizer::Recognizer;
use gram::{Gram, Pool, Ref};
use tree::{same, trees, Eval};
use vs::{any_bool, any_u32, assert, cover, out, pick};

/// Reads the start-of-input marker.
fn start<G: Grammar, F: Forest, P: PerfHint>(r: &mut Recognizer<G, F, P>) {
    r.begin_earleme();
    let sof = r.grammar().sof();
    r.scan(sof, 0);
    assert(r.end_earleme(), "the start of input is not accepted");
}
fn step<G: Grammar, F: Forest, P: PerfHint>(r: &mut Recognizer<G, F, P>, g: &Gram, t: usize, value: u32) -> bool {
    r.begin_earleme();
    let s = g.internal(r.grammar(), t);
    r.scan(s, value);
    r.end_earleme()
}
/// `n` symbolic tokens.
fn tokens(g: &Gram, n: usize) -> Vec<usize> {
    let used = g.used();
    (0..n).map(|_| g.sym_token(&used)).collect()
}
/// How many of the tokens can be read; equal to their number if all of them.
fn viable(re: &mut Ref, toks: &[usize]) -> usize {
    toks.iter().position(|&t| !re.token(t)).unwrap_or(toks.len())
}

fn recognize(mut g: Gram, max: usize) {
    let gr = g.build(any_bool());
    let mut rec = Recognizer::new(&gr);
    let used = g.used();
    let mut re = Ref::new(&g);
    start(&mut rec);
    for _ in 0..max {
        assert(rec.is_finished() == re.accepts(), "is_finished() disagrees with the language");
        assert(!rec.is_exhausted(), "exhausted although more input is possible");
        if re.accepts() {
            cover("accepted");
        }
        let t = g.sym_token(&used);
        let viable = re.token(t);
        let ok = step(&mut rec, &g, t, 0);
        out(ok as u64);
        assert(ok == viable, "the parse does not fail exactly at the first impossible token");
        if !viable {
            assert(!rec.is_finished(), "finished after a failure");
            cover("failed");
            return;
        }
    }
    assert(rec.is_finished() == re.accepts(), "is_finished() disagrees with the language");
    cover("full length");
}

/// Truthful hints at any steps.
fn hints(pool: &Pool, max: usize, any: bool) {
    let mut g = pool.any();
    let gr = g.build(false);
    let n = pick(0, max as u64);
    let toks = tokens(&g, n);
    let vals: Vec<u32> = (0..n).map(|_| any_u32()).collect();
    let mut re = Ref::new(&g);
    let k = viable(&mut re, &toks);
    let mut rec = Recognizer::with_forest(&gr, simple_bocage::Bocage::new(&gr));
    // Hints at any steps; or at one of them, or at all.
    let steps = if any { None } else { Some(pick(0, n as u64 + 1)) };
    // Steps without a hint may have had one that was taken back.
    let mut taken_back = None;
    // The hint for the token after the one being read; after the last one, the end of input.
    let mut hint = |rec: &mut Recognizer<&DefaultGrammar, simple_bocage::Bocage>, next: usize| {
        if !steps.map_or_else(any_bool, |s| s == next || s == n + 1) {
            if *taken_back.get_or_insert_with(any_bool) {
                rec.lookahead().set_hint(gr.eof());
                rec.lookahead().clear_hint();
                assert(rec.lookahead().sym().is_none(), "a cleared hint is still there");
            }
            return false;
        }
        let s = if next < n { g.internal(&gr, toks[next]) } else { gr.eof() };
        rec.lookahead().set_hint(s);
        assert(rec.lookahead().sym() == Some(s), "the hint was not stored");
        cover("hinted");
        true
    };
    let mut failed = None;
    rec.begin_earleme();
    let mut last = hint(&mut rec, 0);
    rec.scan(gr.sof(), 0);
    if !rec.end_earleme() {
        assert(last && k == 0 && (n > 0 || !re.accepts()), "a truthful hint made the start of input fail");
        return;
    }
    for i in 0..n {
        rec.begin_earleme();
        assert(rec.lookahead().sym().is_none(), "a hint outlives its step");
        last = i < k && hint(&mut rec, i + 1);
        rec.scan(g.internal(&gr, toks[i]), vals[i]);
        if !rec.end_earleme() {
            failed = Some(i);
            break;
        }
    }
    match failed {
        None => {
            assert(k == n, "an impossible token was accepted");
            let fin = rec.finished_node();
            assert(fin.is_some() == re.accepts(), "hints changed acceptance");
            if let Some(node) = fin {
                cover("accepted");
                let want = trees(&re, &vals, 0, 0, n);
                let got = rec.into_forest().evaluate(Eval { gr: &gr, g: &g }, node);
                same(got, want);
            }
        }
        Some(i) => {
            out(i as u64);
            // A hinted step may already see that the next token is impossible.
            let early = last && i + 1 == k && (k < n || !re.accepts());
            assert(i == k || early, "hints made a possible token fail");
            cover("failed");
        }
    }
}

/// Whatever happened before, reset() gives a fresh recognizer.
fn reset(pool: &Pool, n1: usize, n2: usize) {
    let mut g = pool.any();
    let gr = g.build(false);
    let used = g.used();
    let mut rec = Recognizer::new(&gr);
    let stop = pick(0, n1 as u64 + 2);
    if stop > 0 {
        rec.begin_earleme();
        rec.scan(gr.sof(), 0);
        if stop > 1 {
            rec.end_earleme();
            for i in 0..n1 {
                if i + 2 >= stop {
                    break;
                }
                rec.begin_earleme();
                let t = g.sym_token(&used);
                if any_bool() {
                    let h = g.sym_token(&used);
                    rec.lookahead().set_hint(g.internal(&gr, h));
                    cover("hint before reset");
                }
                rec.scan(g.internal(&gr, t), 0);
                if !rec.end_earleme() {
                    cover("failed before reset");
                    break;
                }
            }
        }
    }
    rec.reset();
    let mut fresh = Recognizer::new(&gr);
    assert(rec.earleme() == fresh.earleme(), "reset() leaves the position behind");
    assert(rec.is_finished() == fresh.is_finished(), "reset() leaves a finished parse behind");
    assert(rec.lookahead().sym().is_none(), "reset() leaves the lookahead hint behind");
    start(&mut fresh);
    start(&mut rec);
    let mut re = Ref::new(&g);
    for _ in 0..n2 {
        let t = g.sym_token(&used);
        let v = re.token(t);
        rec.begin_earleme();
        fresh.begin_earleme();
        let (a, b): (Vec<_>, Vec<_>) = (rec.predicted_symbols().collect(), fresh.predicted_symbols().collect());
        assert(a == b, "after reset() other symbols are predicted");
        let (a, b): (Vec<_>, Vec<_>) = (rec.medial_items().map(|i| (i.dot, i.origin)).collect(), fresh.medial_items().map(|i| (i.dot, i.origin)).collect());
        assert(a == b, "after reset() other items are there");
        let s = g.internal(&gr, t);
        rec.scan(s, 0);
        fresh.scan(s, 0);
        let ok = rec.end_earleme();
        assert(ok == fresh.end_earleme(), "after reset() another token fails");
        assert(ok == v, "after reset() an impossible token is accepted or a possible one refused");
        if !ok {
            cover("failed");
            return;
        }
        assert(rec.is_finished() == fresh.is_finished() && rec.is_finished() == re.accepts(), "after reset() acceptance is wrong");
    }
    cover("full length");
}

/// A reset anywhere within a step, and what is read and evaluated after it; the forest is kept.
fn reset_within(pool: &Pool, n1: usize, n2: usize, compact: bool) {
    let mut g = pool.any();
    let gr = g.build(false);
    let used = g.used();
    macro_rules! run {
        ($bocage:expr) => {{
            let mut rec = Recognizer::with_forest(&gr, $bocage);
            start(&mut rec);
            for i in 0..n1 {
                let t = g.sym_token(&used);
                rec.begin_earleme();
                rec.scan(g.internal(&gr, t), i as u32);
                if i + 1 == n1 {
                    match pick(0, 3) {
                        0 => (),
                        1 => {
                            if let Some(mut group) = rec.next_sum() {
                                group.complete_entire_sum();
                                cover("one group completed");
                            }
                        }
                        2 => {
                            if let Some(mut group) = rec.next_sum() {
                                group.next_summand();
                                cover("one summand taken");
                            }
                        }
                        _ => {
                            rec.complete_all_sums_entirely();
                            cover("all groups completed");
                        }
                    }
                } else if !rec.end_earleme() {
                    break;
                }
            }
            rec.reset();
            start(&mut rec);
            let mut re = Ref::new(&g);
            let mut vals = Vec::new();
            for i in 0..n2 {
                let t = g.sym_token(&used);
                let v = if i == 0 { any_u32() } else { i as u32 };
                vals.push(v);
                let ok = step(&mut rec, &g, t, v);
                assert(ok == re.token(t), "after reset() an impossible token is accepted or a possible one refused");
                if !ok {
                    cover("failed");
                    return;
                }
                let node = rec.finished_node();
                assert(node.is_some() == re.accepts(), "after reset() acceptance is wrong");
                if i + 1 == n2 {
                    if let Some(node) = node {
                        let want = trees(&re, &vals, 0, 0, n2);
                        let got = rec.into_forest().evaluate(Eval { gr: &gr, g: &g }, node);
                        same(got, want);
                        cover("evaluated");
                        return;
                    }
                }
            }
        }};
    }
    if compact {
        run!(compact_bocage::Bocage::new(&gr))
    } else {
        run!(simple_bocage::Bocage::new(&gr))
    }
}

/// The user's symbols among internal ones, as a bit set.
fn user_syms(g: &Gram, gr: &DefaultGrammar, it: impl Iterator<Item = Symbol>) -> u64 {
    let mut m = 0;
    for s in it {
        let e = gr.to_external(s);
        if let Some(u) = g.syms.iter().position(|&x| x == e) {
            m |= 1 << u;
        }
    }
    m
}
/// Symbols that derive something other than nothing.
fn solid(g: &Gram) -> u64 {
    let n = g.nullable();
    let mut m = !0u64 << g.nts;
    for _ in 0..=g.nts {
        for (l, r) in &g.rules {
            if r.iter().any(|s| m >> s & 1 != 0) && r.iter().all(|s| (m | n) >> s & 1 != 0) {
                m |= 1 << l;
            }
        }
    }
    m & ((1 << g.num()) - 1)
}

fn progress(mut g: Gram, max: usize) {
    let gr = g.build(any_bool());
    let used = g.used();
    let mut rec = Recognizer::new(&gr);
    let mut re = Ref::new(&g);
    let solid = solid(&g);
    start(&mut rec);
    for i in 0..=max {
        rec.begin_earleme();
        let got = user_syms(&g, &gr, rec.predicted_symbols());
        let want = re.next_syms() & solid;
        out(got);
        assert(want & !got == 0, "a symbol the input can continue with is not predicted");
        assert(got & !want == 0, "a symbol the input cannot continue with is predicted");
        assert(rec.predicted_symbols().any(|s| s == gr.eof()) == re.accepts(), "end of input predicted at the wrong place");
        if g.nullable() == 0 {
            // Partly read rules, by rule, position and origin.
            let mut want = re.inside();
            let (mut o2r, mut exp) = (Vec::new(), 0u64);
            let [_, at_dot, _] = gr.trace();
            let mut got = Vec::new();
            for (item, post) in rec.medial_items().zip(rec.expected_terminals()) {
                let tr = at_dot[item.dot as usize];
                if tr.is_null() {
                    assert(post == gr.eof() || gr.to_external(post) == g.syms[0], "an item of no rule expects a user symbol");
                    continue;
                }
                got.push((tr.id as usize, tr.pos as usize, item.origin as usize));
                let u = user_syms(&g, &gr, std::iter::once(post));
                assert(u == 1 << g.rules[tr.id as usize].1[tr.pos as usize], "the symbol expected after a dot is another one");
                exp |= u;
            }
            want.sort_unstable();
            got.sort_unstable();
            assert(got.len() >= want.len(), "a partly read rule is missing");
            assert(got.len() <= want.len(), "a partly read rule is there twice or is invented");
            let mut wexp = 0;
            for (g1, w) in got.iter().zip(&want) {
                assert((g1.0, g1.1) == (w.0, w.1), "the wrong rule or dot is live");
                o2r.push((w.2, g1.2));
                wexp |= 1 << g.rules[w.0].1[w.1];
            }
            assert(exp == wexp, "expected symbols are wrong");
            // Origins may be renumbered, but not reordered or merged.
            o2r.sort_unstable();
            for p in o2r.windows(2) {
                assert((p[0].0 < p[1].0) == (p[0].1 < p[1].1), "origins of live rules are mixed up");
            }
            cover("rules compared");
        } else {
            let exp = user_syms(&g, &gr, rec.expected_terminals().filter(|&s| s != gr.eof()));
            let j = re.sets.len() - 1;
            let want = re.inside().iter().filter(|x| x.2 < j).fold((i == 0) as u64, |m, x| m | 1u64 << g.rules[x.0].1[x.1]);
            assert(exp == want & solid, "expected symbols are wrong");
        }
        if i == max {
            break;
        }
        let t = g.sym_token(&used);
        let v = re.token(t);
        rec.scan(g.internal(&gr, t), 0);
        assert(rec.end_earleme() == v, "progress and acceptance disagree");
        if !v {
            cover("failed");
            return;
        }
    }
    cover("full length");
}

/// Parses any string of at most `max` tokens with any leaf values and evaluates it.
#[derive(PartialEq)]
enum Only {
    All,
    Unambiguous,
    Ambiguous,
    Nullable,
}
fn evaluate(pool: &Pool, min: usize, max: usize, only: Only) {
    let mut g = pool.any();
    let gr = g.build(any_bool());
    let n = pick(min as u64, max as u64);
    let used = g.used();
    let mut re = Ref::new(&g);
    let mut rec = Recognizer::with_forest(&gr, simple_bocage::Bocage::new(&gr));
    start(&mut rec);
    let mut vals = Vec::new();
    for _ in 0..n {
        let t = g.sym_token(&used);
        vs::assume(re.token(t));
        let v = any_u32();
        vals.push(v);
        assert(step(&mut rec, &g, t, v), "a possible token was refused");
    }
    vs::assume(re.accepts());
    let node = rec.finished_node();
    assert(node.is_some(), "no node for a finished parse");
    let want = trees(&re, &vals, 0, 0, n);
    match only {
        Only::All => {}
        Only::Unambiguous => vs::assume(want.len() == 1),
        Only::Ambiguous => vs::assume(want.len() > 1),
        Only::Nullable => vs::assume(want.iter().any(|t| t.nulls() > 0)),
    }
    if want.len() == 1 {
        cover("unambiguous");
    } else {
        cover("ambiguous");
    }
    if want.iter().any(|t| t.nulls() > 1) {
        cover("two empty parts");
    }
    let got = rec.into_forest().evaluate(Eval { gr: &gr, g: &g }, node.unwrap());
    for t in &got {
        out(t.shape.iter().fold(7, |h: u64, &x| h.wrapping_mul(31) ^ x as u64));
        t.leaves.iter().for_each(|&x| out(x as u64));
    }
    same(got, want);
}

/// What derives nothing has several values, or none.
fn nothing(pool: &Pool, min: usize, max: usize, compact: bool) {
    let mut g = pool.any();
    let gr = g.build(any_bool());
    let n = pick(min as u64, max as u64);
    let used = g.used();
    let nullable = g.nullable();
    let mut re = Ref::new(&g);
    let mut vals = Vec::new();
    macro_rules! run {
        ($bocage:expr) => {{
            let mut rec = Recognizer::with_forest(&gr, $bocage);
            start(&mut rec);
            for _ in 0..n {
                let t = g.sym_token(&used);
                vs::assume(re.token(t));
                vals.push(any_u32());
                assert(step(&mut rec, &g, t, vals[vals.len() - 1]), "a possible token was refused");
            }
            vs::assume(re.accepts());
            // All have two values, or one has two or none.
            let mut counts = vec![1; g.num()];
            let empty: Vec<usize> = (0..g.nts).filter(|s| nullable >> s & 1 != 0).collect();
            vs::assume(!empty.is_empty());
            match pick(0, 2 * empty.len() as u64) {
                0 => counts.fill(2),
                k => counts[empty[(k - 1) / 2]] = if k % 2 == 0 { 2 } else { 0 },
            }
            let want = tree::trees_nothing(&re, &vals, &counts);
            if want.is_empty() {
                cover("no value");
            }
            if want.len() > 1 {
                cover("several values");
            }
            let node = rec.finished_node();
            assert(node.is_some(), "no node for a finished parse");
            let eval = tree::EvalNothing { eval: Eval { gr: &gr, g: &g }, nothing: &counts };
            let got = rec.into_forest().evaluate(eval, node.unwrap());
            for t in &got {
                out(t.shape.iter().fold(7, |h: u64, &x| h.wrapping_mul(31) ^ x as u64));
                t.leaves.iter().for_each(|&x| out(x as u64));
            }
            same(got, want);
        }};
    }
    if compact {
        run!(compact_bocage::Bocage::new(&gr))
    } else {
        run!(simple_bocage::Bocage::new(&gr))
    }
}

/// The compact bocage gives what the simple one gives.
fn compact(pool: &Pool, min: usize, max: usize) {
    let mut g = pool.any();
    let gr = g.build(any_bool());
    let n = pick(min as u64, max as u64);
    let used = g.used();
    let mut re = Ref::new(&g);
    let mut a = Recognizer::with_forest(&gr, simple_bocage::Bocage::new(&gr));
    let mut b = Recognizer::with_forest(&gr, compact_bocage::Bocage::new(&gr));
    start(&mut a);
    start(&mut b);
    // One leaf value is arbitrary; the encoding of each depends on its size.
    let big = pick(0, n as u64);
    for i in 0..n {
        let t = g.sym_token(&used);
        vs::assume(re.token(t));
        let v = if i == big { any_u32() } else { i as u32 };
        assert(step(&mut a, &g, t, v) && step(&mut b, &g, t, v), "a possible token was refused");
    }
    vs::assume(re.accepts());
    let (na, nb) = (a.finished_node(), b.finished_node());
    assert(na.is_some() && nb.is_some(), "no node for a finished parse");
    let ra = a.into_forest().evaluate(Eval { gr: &gr, g: &g }, na.unwrap());
    let rb = b.into_forest().evaluate(Eval { gr: &gr, g: &g }, nb.unwrap());
    cover("compared");
    if ra.len() > 1 {
        cover("ambiguous");
    }
    rb.iter().for_each(|t| t.leaves.iter().for_each(|&l| out(l as u64)));
    same(rb, ra);
}

/// Every subset of terminals may be read at once.
fn multi(mut g: Gram, max: usize) {
    let gr = g.build(any_bool());
    let used = g.used();
    let n = pick(1, max as u64);
    let mut rec = Recognizer::with_forest(&gr, simple_bocage::Bocage::new(&gr));
    let mut re = Ref::new(&g);
    start(&mut rec);
    let mut vals = Vec::new();
    for _ in 0..n {
        let m = pick(1, (1 << used.len()) - 1);
        let set = used.iter().enumerate().filter(|x| m >> x.0 & 1 != 0).fold(0u64, |m, x| m | 1 << x.1);
        let v = any_u32();
        vals.push(v);
        rec.begin_earleme();
        for &t in &used {
            if set >> t & 1 != 0 {
                rec.scan(g.internal(&gr, t), v);
            }
        }
        let viable = re.token_set(set);
        if m.count_ones() > 1 && viable {
            cover("several tokens at once");
        }
        assert(rec.end_earleme() == viable, "with several tokens at once the parse does not fail exactly when none is possible");
        if !viable {
            cover("failed");
            return;
        }
        assert(rec.is_finished() == re.accepts(), "with several tokens at once is_finished() disagrees with the language");
    }
    vs::assume(re.accepts());
    let node = rec.finished_node().unwrap();
    let want = trees(&re, &vals, 0, 0, n);
    cover("evaluated");
    same(rec.into_forest().evaluate(Eval { gr: &gr, g: &g }, node), want);
}

/// A terminal may be read twice at once, with different values.
fn again(pool: &Pool, max: usize, compact: bool) {
    let mut g = pool.any();
    let gr = g.build(any_bool());
    let used = g.used();
    let n = pick(1, max as u64) as usize;
    let mut re = Ref::new(&g);
    let mut vals: Vec<Vec<u32>> = Vec::new();
    macro_rules! run {
        ($bocage:expr) => {{
            let mut rec = Recognizer::with_forest(&gr, $bocage);
            start(&mut rec);
            for _ in 0..n {
                let t = g.sym_token(&used);
                vs::assume(re.token(t));
                let v: Vec<u32> = (0..pick(1, 2) as u32).map(|k| vals.len() as u32 * 1000 + k).collect();
                rec.begin_earleme();
                for &v in &v {
                    rec.scan(g.internal(&gr, t), v);
                }
                assert(rec.end_earleme(), "a possible token was refused when read twice");
                vals.push(v);
            }
            vs::assume(re.accepts() && vals.iter().any(|v| v.len() > 1));
            let node = rec.finished_node();
            assert(node.is_some(), "no node for a finished parse");
            // One value per derivation and choice of values.
            let mut want = Vec::new();
            for k in 0..vals.iter().map(|v| v.len()).product::<usize>() {
                let mut k = k;
                let mut one = Vec::new();
                for v in &vals {
                    one.push(v[k % v.len()]);
                    k /= v.len();
                }
                want.extend(trees(&re, &one, 0, 0, n));
            }
            cover("read twice");
            let mut got = rec.into_forest().evaluate(Eval { gr: &gr, g: &g }, node.unwrap());
            got.sort_by(|a, b| (&a.shape, &a.leaves).cmp(&(&b.shape, &b.leaves)));
            want.sort_by(|a, b| (&a.shape, &a.leaves).cmp(&(&b.shape, &b.leaves)));
            same(got, want);
        }};
    }
    if compact {
        run!(compact_bocage::Bocage::new(&gr))
    } else {
        run!(simple_bocage::Bocage::new(&gr))
    }
}

const CORE: Pool = Pool { nts: "SAB", ts: "ab", base: &[], opt: &["SAB", "SSS", "Sa", "SA", "AaA", "A", "Ab", "AB", "BAb", "Bb"] };
const REC: Pool = Pool { nts: "S", ts: "ab", base: &[], opt: &["SSS", "SSSS", "Sa", "SaSb", "S", "Sab", "SbSS", "SSab"] };
const UNARY: Pool = Pool { nts: "SABC", ts: "ab", base: &["SA"], opt: &["SB", "AB", "BC", "AC", "Ca", "Aa", "Bb", "SaSb", "CbS"] };
const NULL: Pool = Pool { nts: "SABC", ts: "abc", base: &["SABC"], opt: &["A", "B", "C", "Aa", "Bb", "Cc", "BA", "SaS"] };
const NULL4: Pool = Pool { nts: "SABCD", ts: "abcd", base: &["SABCD"], opt: &["A", "B", "C", "D", "Aa", "Bb", "Cc", "Dd"] };
const ONE: Pool = Pool { nts: "SA", ts: "a", base: &[], opt: &["SSS", "SSSS", "SaS", "SAS", "Sa", "Saa", "AaA", "Aa"] };
const NEST: Pool = Pool { nts: "SA", ts: "abc", base: &["Sc"], opt: &["SaSb", "SAc", "AaAb", "Aab", "SSS", "SaaSb"] };
const HIDE: Pool = Pool { nts: "SAB", ts: "abc", base: &["Sc"], opt: &["SASb", "SBSAb", "A", "Aa", "B", "BaA", "ABb", "SSaB"] };
const RIGHT: Pool = Pool { nts: "SA", ts: "ab", base: &[], opt: &["SaS", "Sb", "SAS", "Aa", "AaA", "AbA", "SaSb", "SA"] };
const USELESS: Pool = Pool { nts: "SABC", ts: "ab", base: &["Sa", "SSA"], opt: &["AB", "Ab", "BBa", "Ba", "CSa", "Cb", "SaC", "Sb"] };
const LONG: Pool = Pool { nts: "SAB", ts: "abc", base: &["SaABc"], opt: &["SAbBa", "SABAB", "Aa", "Ab", "Ba", "Bbab", "AB", "A"] };

vs::harnesses! {
    fn rec_core() { recognize(CORE.any(), 4); }
    fn rec_rec() { recognize(REC.any(), 5); }
    fn rec_unary() { recognize(UNARY.any(), 4); }
    fn rec_null() { recognize(NULL.any(), 3); }
    fn rec_long() { recognize(LONG.any(), 5); }
    fn rec_one() { recognize(ONE.any(), 16); }
    fn rec_nest() { recognize(NEST.any(), 6); }
    fn rec_hide() { recognize(HIDE.any(), 4); }
    fn rec_right() { recognize(RIGHT.any(), 6); }
    fn rec_useless() { recognize(USELESS.any_useless(), 3); }
    fn rec_wide() { recognize(gram::wide(), 2); }
    fn rec_nest_deep() { recognize(NEST.any(), 9); }
    fn rec_core_deep() { recognize(CORE.any(), 6); }
    fn rec_rec_deep() { recognize(REC.any(), 7); }
    fn rec_null_deep() { recognize(NULL.any(), 5); }
    fn rec_hide_deep() { recognize(HIDE.any(), 6); }
    fn rec_unary_deep() { recognize(UNARY.any(), 6); }
    fn again_core() { again(&CORE, 2, false); }
    fn again_core_deep() { again(&CORE, 3, false); }
    fn again_core_compact() { again(&CORE, 2, true); }
    fn again_null() { again(&NULL, 2, false); }
    fn again_long() { again(&LONG, 3, false); }
    fn again_long_deep() { again(&LONG, 5, true); }
    fn again_long_compact() { again(&LONG, 3, true); }
    fn multi_core() { multi(CORE.any(), 3); }
    fn multi_null() { multi(NULL.any(), 2); }
    fn multi_long() { multi(LONG.any(), 2); }
    fn multi_long_deep() { multi(LONG.any(), 4); }
    fn multi_nest() { multi(NEST.any(), 3); }
    fn multi_nest_deep() { multi(NEST.any(), 5); }
    fn multi_core_deep() { multi(CORE.any(), 5); }
    fn hint_core() { hints(&CORE, 2, false); }
    fn hint_null() { hints(&NULL, 2, true); }
    fn hint_long() { hints(&LONG, 3, false); }
    fn hint_nest() { hints(&NEST, 4, false); }
    fn hint_hide() { hints(&HIDE, 2, true); }
    fn hint_right() { hints(&RIGHT, 3, false); }
    fn hint_core_deep() { hints(&CORE, 4, true); }
    fn hint_null_deep() { hints(&NULL, 4, true); }
    fn hint_long_deep() { hints(&LONG, 5, true); }
    fn reset_core() { reset(&CORE, 2, 2); }
    fn reset_nest() { reset(&NEST, 2, 3); }
    fn reset_nest_deep() { reset(&NEST, 3, 4); }
    fn reset_null() { reset(&NULL, 1, 2); }
    fn reset_within_core() { reset_within(&CORE, 1, 2, false); }
    fn reset_within_unary_deep() { reset_within(&UNARY, 2, 2, true); }
    fn reset_within_nest() { reset_within(&NEST, 2, 2, true); }
    fn reset_within_one() { reset_within(&ONE, 3, 3, true); }
    fn reset_within_null_deep() { reset_within(&NULL, 1, 2, true); }
    fn reset_within_long_deep() { reset_within(&LONG, 3, 3, false); }
    fn reset_within_nest_deep() { reset_within(&NEST, 4, 4, true); }
    fn reset_within_core_deep() { reset_within(&CORE, 3, 3, true); }
    fn reset_core_deep() { reset(&CORE, 4, 4); }
    fn prog_core() { progress(CORE.any(), 3); }
    fn prog_null() { progress(NULL.any(), 3); }
    fn prog_long() { progress(LONG.any(), 4); }
    fn prog_nest() { progress(NEST.any(), 5); }
    fn prog_unary() { progress(UNARY.any(), 3); }
    fn prog_hide() { progress(HIDE.any(), 3); }
    fn prog_wide() { progress(gram::wide(), 2); }
    fn prog_core_deep() { progress(CORE.any(), 5); }
    fn prog_nest_deep() { progress(NEST.any(), 8); }
    fn prog_null_deep() { progress(NULL.any(), 5); }
    fn eval_core_one() { evaluate(&CORE, 1, 3, Only::Unambiguous); }
    fn eval_unary_one() { evaluate(&UNARY, 1, 3, Only::Unambiguous); }
    fn eval_long_one() { evaluate(&LONG, 2, 5, Only::Unambiguous); }
    fn eval_nest_one() { evaluate(&NEST, 1, 5, Only::Unambiguous); }
    fn eval_right_one() { evaluate(&RIGHT, 1, 4, Only::Unambiguous); }
    fn eval_core_many() { evaluate(&CORE, 1, 3, Only::Ambiguous); }
    fn eval_rec_many() { evaluate(&REC, 1, 4, Only::Ambiguous); }
    fn eval_one_many() { evaluate(&ONE, 1, 5, Only::Ambiguous); }
    fn eval_unary_many() { evaluate(&UNARY, 1, 3, Only::Ambiguous); }
    fn eval_nest_many() { evaluate(&NEST, 1, 5, Only::Ambiguous); }
    fn eval_null() { evaluate(&NULL, 0, 3, Only::Nullable); }
    fn eval_null4() { evaluate(&NULL4, 0, 3, Only::Nullable); }
    fn eval_hide() { evaluate(&HIDE, 0, 4, Only::Nullable); }
    fn nothing_null() { nothing(&NULL, 0, 2, false); }
    fn nothing_null_compact() { nothing(&NULL, 0, 2, true); }
    fn nothing_hide() { nothing(&HIDE, 0, 3, false); }
    fn nothing_hide_compact() { nothing(&HIDE, 0, 2, true); }
    fn nothing_core() { nothing(&CORE, 0, 2, false); }
    fn nothing_null_deep() { nothing(&NULL, 0, 3, any_bool()); }
    fn nothing_hide_deep() { nothing(&HIDE, 0, 3, true); }
    fn eval_core_null() { evaluate(&CORE, 0, 3, Only::Nullable); }
    fn eval_core_deep() { evaluate(&CORE, 0, 5, Only::All); }
    fn eval_rec_deep() { evaluate(&REC, 0, 5, Only::All); }
    fn eval_null_deep() { evaluate(&NULL, 0, 5, Only::Nullable); }
    fn eval_long_deep() { evaluate(&LONG, 0, 7, Only::All); }
    fn eval_nest_deep() { evaluate(&NEST, 0, 7, Only::All); }
    fn eval_right_deep() { evaluate(&RIGHT, 0, 6, Only::Unambiguous); }
    fn compact_core() { compact(&CORE, 0, 2); }
    fn compact_null() { compact(&NULL, 0, 2); }
    fn compact_one() { compact(&ONE, 1, 4); }
    fn compact_one_deep() { compact(&ONE, 1, 5); }
    fn compact_long() { compact(&LONG, 0, 4); }
    fn compact_hide() { compact(&HIDE, 0, 3); }
    fn compact_core_deep() { compact(&CORE, 0, 4); }
    fn compact_null_deep() { compact(&NULL, 0, 4); }
    fn event_core() { more::events(&CORE, 3); }
    fn event_long() { more::events(&LONG, 4); }
    fn event_nest() { more::events(&NEST, 4); }
    fn event_null() { more::events(&NULL, 3); }
    fn event_unary() { more::events(&UNARY, 3); }
    fn event_core_deep() { more::events(&CORE, 5); }
    fn event_long_deep() { more::events(&LONG, 6); }
    fn group_core() { more::groups(&CORE, 2, false, false); }
    fn group_unary() { more::groups(&UNARY, 2, false, false); }
    fn group_unary_each() { more::groups(&UNARY, 1, true, false); }
    fn group_one() { more::groups(&ONE, 3, false, false); }
    fn group_one_each() { more::groups(&ONE, 2, true, false); }
    fn group_one_long() { more::groups(&ONE, 7, false, false); }
    fn group_nest() { more::groups(&NEST, 4, false, false); }
    fn group_null() { more::groups(&NULL, 2, false, false); }
    fn group_core_deep() { more::groups(&CORE, 3, true, false); }
    fn group_unary_deep() { more::groups(&UNARY, 3, true, false); }
    fn group_nest_deep() { more::groups(&NEST, 6, true, false); }
    fn skip_core() { more::groups(&CORE, 2, false, true); }
    fn skip_one() { more::groups(&ONE, 3, false, true); }
    fn skip_nest() { more::groups(&NEST, 4, false, true); }
    fn skip_unary() { more::groups(&UNARY, 2, false, true); }
    fn skip_core_deep() { more::groups(&CORE, 3, false, true); }
    fn skip_nest_deep() { more::groups(&NEST, 6, false, true); }
    fn forest_core() { more::forests(&CORE, 2); }
    fn forest_null() { more::forests(&NULL, 2); }
    fn forest_nest() { more::forests(&NEST, 3); }
    fn forest_core_deep() { more::forests(&CORE, 3); }
    fn forest_nest_deep() { more::forests(&NEST, 5); }
    fn forest_null_deep() { more::forests(&NULL, 3); }
    fn forest_one() { more::forests(&ONE, 4); }
    fn node_core() { more::nodes(&CORE, 2, false); }
    fn node_null() { more::nodes(&NULL, 3, false); }
    fn node_hide() { more::nodes(&HIDE, 3, false); }
    fn node_core_deep() { more::nodes(&CORE, 4, false); }
    fn node_null_compact_deep() { more::nodes(&NULL, 4, true); }
    fn node_core_compact() { more::nodes(&CORE, 1, true); }
    fn node_null_compact() { more::nodes(&NULL, 2, true); }
    fn drive_parse_core() { more::parse(&CORE, 2); }
    fn drive_parse_null() { more::parse(&NULL, 3); }
    fn drive_parse_nest() { more::parse(&NEST, 4); }
    fn drive_parse_long_deep() { more::parse(&LONG, 4); }
    fn drive_parse_core_deep() { more::parse(&CORE, 4); }
    fn drive_words() { more::words(&NEST, 3); }
    fn drive_words_deep() { more::words(&LONG, 3); }
    fn drive_words_null() { more::words(&NULL, 2); }
    fn drive_chars() { more::chars(&CORE, 2, 0x7e); }
    fn drive_chars_nest() { more::chars(&NEST, 2, 0x7e); }
    fn drive_chars_long_deep() { more::chars(&LONG, 3, 0xfffe); }
    fn drive_chars_core_deep() { more::chars(&CORE, 3, 0x7fe); }
    fn twice_core() { more::twice(&CORE, 3); }
    fn twice_null() { more::twice(&NULL, 2); }
    fn item_order() { exact::item_order(); }
    fn item_order_total() { exact::item_order_total(); }
    fn item_order_node() { exact::item_order_node(); }
    fn handles() { exact::handles(); }
    fn hintcap_memory() { exact::hint_memory(17, &[0]); }
    fn hintcap_memory_large() { exact::hint_memory(8, &[1 << 32, 1 << 40, 1 << 60]); }
    fn hintcap_memory_deep() { exact::hint_memory(24, &[0]); }
    fn hintcap_monotone() { exact::hint_monotone(); }
    fn hintcap_syms() { exact::hint_syms(); }
    fn hintcap_default() { exact::hint_default(); }
    fn hintcap_recognize() { exact::hint_recognize(&NEST, 3); }
    fn hintcap_recognize_deep() { exact::hint_recognize(&CORE, 3); }
    fn codec_values() { exact::codec_values(true, 1); }
    fn codec_values2() { exact::codec_values(true, 2); }
    fn codec_values3_deep() { exact::codec_values(true, 3); }
    fn codec_shapes() { exact::codec_shapes(true, false); }
    fn codec_near_byte() { exact::codec_handles(true, 256, 9, false); }
    fn codec_near_short() { exact::codec_handles(true, 65536, 9, false); }
    fn codec_shapes_deep() { exact::codec_shapes(true, true); }
    fn codec_near_short_deep() { exact::codec_handles(true, 65536, 9, true); }
    fn codec_near_three_deep() { exact::codec_handles(true, 1 << 24, 9, false); }
    fn codec_actions() { exact::codec_actions(true); }
    fn codec_empty_byte() { exact::codec_empty(true, 300); }
    fn codec_empty_short() { exact::codec_empty(true, 7300); }
    fn codec_empty_more() { exact::codec_empty(true, 70_000); }
    fn simple_values2() { exact::codec_values(false, 2); }
    fn simple_shapes() { exact::codec_shapes(false, false); }
    fn simple_actions() { exact::codec_actions(false); }
    fn simple_empty() { exact::codec_empty(false, 300); }
    fn maps_core() { tables::maps(CORE.any()); }
    fn maps_null() { tables::maps(NULL.any()); }
    fn maps_null4() { tables::maps(NULL4.any()); }
    fn maps_long() { tables::maps(LONG.any()); }
    fn maps_hide() { tables::maps(HIDE.any()); }
    fn maps_unary() { tables::maps(UNARY.any()); }
    fn maps_useless() { tables::maps(USELESS.any_useless()); }
    fn maps_wide() { tables::maps(gram::wide()); }
    fn info_core() { tables::info(CORE.any()); }
    fn info_null() { tables::info(NULL.any()); }
    fn info_null4() { tables::info(NULL4.any()); }
    fn info_long() { tables::info(LONG.any()); }
    fn info_hide() { tables::info(HIDE.any()); }
    fn info_unary() { tables::info(UNARY.any()); }
    fn info_useless() { tables::info(USELESS.any_useless()); }
    fn info_wide() { tables::info(gram::wide()); }
    fn json_mini_null4() { tables::json(NULL4.any(), false, false, 1); }
    fn json_serde_null4() { tables::json(NULL4.any(), true, true, 1); }
    fn json_mini_core() { tables::json(CORE.any(), false, true, 1); }
    fn json_serde_core() { tables::json(CORE.any(), true, true, 1); }
    fn json_mini_wide() { tables::json(gram::wide(), false, true, 1); }
    fn json_serde_wide() { tables::json(gram::wide(), true, true, 1); }
    fn json_mini_long() { tables::json(LONG.any(), false, true, 2); }
    fn json_serde_unary() { tables::json(UNARY.any(), true, true, 1); }
    fn json_mini_null() { tables::json(NULL.any(), false, true, 1); }
    fn json_mini_nest() { tables::json(NEST.any(), false, false, 3); }
    fn json_serde_null() { tables::json(NULL.any(), true, true, 1); }
    fn json_serde_nest() { tables::json(NEST.any(), true, false, 3); }
    fn json_mini_core_deep() { tables::json(CORE.any(), false, true, 3); }
    fn json_serde_core_deep() { tables::json(CORE.any(), true, true, 3); }
    fn ex_amb_actions() { examples::actions(true); }
    fn ex_prec_actions() { examples::actions(false); }
    fn ex_amb_any() { examples::texts(true, b"+-*/0123456789", 3); }
    fn ex_prec_any() { examples::texts(false, b"+-*/()0123456789", 3); }
    fn ex_amb_texts() { examples::texts(true, b"3+-*/8", 5); }
    fn ex_prec_texts() { examples::texts(false, b"3-/()8", 5); }
    fn ex_amb_numbers() { examples::numbers(true, b"019", 5); }
    fn ex_prec_numbers() { examples::numbers(false, b"019", 5); }
    fn ex_amb_place() { examples::place(true, b"+-*/0123456789"); }
    fn ex_prec_place() { examples::place(false, b"+-*/()0123456789"); }
    fn ex_amb_texts_deep() { examples::texts(true, b"03+-*/8", 7); }
    fn ex_prec_texts_deep() { examples::texts(false, b"03+-*/()8", 7); }
    fn ex_amb_numbers_deep() { examples::numbers(true, b"0123456789", 4); }
    fn ex_prec_numbers_deep() { examples::numbers(false, b"0123456789", 4); }
    fn ref_core() { tables::reference(CORE.any(), 2); }
    fn ref_null() { tables::reference(NULL.any(), 2); }
    fn ref_long() { tables::reference(LONG.any(), 3); }
    fn ref_wide() { tables::reference(gram::wide(), 1); }
    fn ref_null4() { tables::reference(NULL4.any(), 1); }
    fn ref_useless() { tables::reference(USELESS.any_useless(), 2); }
    fn large_nest() { large::nested(300, &[0, 1, 127, 128, 255, 256, 257, 299, 300, 301, 511, 512, 513, 598, 599, 600]); }
    fn large_nest_short() { large::nested(66_000, &[131_999, 132_000]); }
    fn large_nest_value() { large::nested_value(300, false); }
    fn large_nest_compact() { large::nested_value(300, true); }
    fn large_list_value() { large::list_value(300, false, false); }
    fn large_list_compact() { large::list_value(300, false, true); }
    fn large_list_more() { large::list_value(30_000, false, false); }
    fn large_list_compact_more() { large::list_value(30_000, false, true); }
    fn large_right_value() { large::list_value(300, true, false); }
    fn large_right_compact() { large::list_value(300, true, true); }
    fn large_groups() { large::groups(24); }
    fn large_groups_more() { large::groups(40); }
    fn large_driven() { large::driven(300, &[0, 1, 255, 256, 257, 299, 300, 511, 512, 513, 598, 599, 600]); }
    fn large_symbols() { large::many_symbols(80, &[0, 31, 63, 64, 79], false, None, false); }
    fn large_symbols_compact() { large::many_symbols(80, &[0, 31, 63, 64, 79], true, None, false); }
    fn large_json_mini() { large::many_symbols(80, &[0, 63, 79], false, Some(false), false); }
    fn large_json_serde() { large::many_symbols(80, &[0, 63, 79], false, Some(true), false); }
    fn large_events() { large::many_events(80, &[0, 31, 32, 63, 64, 79]); }
    fn large_nest_forest() { large::nested_forest(300, &[0, 255, 256, 299, 300, 511, 512, 600]); }
    fn large_reset() { large::nested_reset(300, &[1, 63, 64, 65, 255, 256, 257, 300, 450, 600], &[0, 256, 300, 511, 600]); }
    fn large_hinted() { large::hinted(300, &[0, 1, 255, 256, 299, 300, 511, 598, 599, 600]); }
    fn large_alternatives() { large::alternatives(300, false); }
    fn large_alternatives_compact() { large::alternatives(300, true); }
    fn large_pairs_deep() { large::pairs(260, false); }
    fn large_pairs_compact_deep() { large::pairs(260, true); }
    fn large_combinations() { large::combinations(9, false); }
    fn large_combinations_compact() { large::combinations(9, true); }
    fn large_combinations_more() { large::combinations(17, false); }
    fn large_combinations_more_compact() { large::combinations(17, true); }
    fn large_rule() { large::long_rule(300, &[0, 127, 255, 256, 299], false); }
    fn large_rule_compact() { large::long_rule(300, &[0, 127, 255, 256, 299], true); }
    fn large_nothing() { large::many_nothing(40, &[0, 1, 7, 8, 9, 31, 32, 33, 38, 39, 40], false); }
    fn large_nothing_compact() { large::many_nothing(40, &[0, 1, 7, 8, 9, 31, 32, 33, 38, 39, 40], true); }
    fn large_nothing_deep() { large::many_nothing(130, &[0, 63, 127, 128, 129, 130], false); }
    fn large_nothing_compact_deep() { large::many_nothing(130, &[0, 63, 127, 128, 129, 130], true); }
    fn large_chain() { large::chain(300, false); }
    fn large_chain_compact() { large::chain(300, true); }
    fn large_tokenized() { large::tokenized(300, &[0, 1, 255, 256, 299, 300, 511, 512, 598, 599, 600]); }
    fn ex_prec_long() { examples::long(280, &[0, 3, 6, 125, 127, 128, 255, 256, 257, 258, 259, 263], b"+*()07"); }
    fn ex_published() { examples::published(b"+*()07"); }
    fn large_info() { tables::info(large::many(80)); }
    fn large_info_more() { tables::info(large::many(10)); }
    fn large_hinted_symbols() { large::many_symbols(80, &[0, 63, 79, 25], false, None, true); }
    fn ref_any() { tables::reference_any(); }
}
