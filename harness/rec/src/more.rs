//! Events, completion groups, forests side by side, nodes, parse drivers.
use crate::gram::{Pool, Ref};
use crate::tree::{same, same_leaves, trees, Eval, Tree};
use crate::{start, step, tokens, viable};
use cfg::history::earley::{EventId, MinimalDistance};
use cfg_load::advanced::{AdvancedGrammar, LexerMap};
use gearley_default_grammar::DefaultGrammar;
use gearley_forest::Forest;
use gearley_grammar::Grammar;
use gearley_recognizer::lookahead::Lookahead;
use gearley_recognizer::Recognizer;
use gearley_utils::{parse_terminal_list, parse_tokenizing, RecognizerParseExt};
use vs::{any_bool, any_u32, assert, cover, out, pick};

type Ev = (EventId, MinimalDistance);

/// Events with arbitrary ids and distances at every dot of every rule.
pub fn events(pool: &Pool, max: usize) {
    let mut g = pool.any();
    let evs: Vec<Vec<Ev>> =
        g.rules.iter().map(|(_, r)| (0..=r.len()).map(|_| (EventId { id: any_u32() }, MinimalDistance { distance: any_u32() })).collect()).collect();
    let gr = DefaultGrammar::from_grammar(g.cfg_with(any_bool(), Some(&evs)));
    let used = g.used();
    let mut rec = Recognizer::new(&gr);
    let mut re = Ref::new(&g);
    start(&mut rec);
    let plain = g.nullable() == 0;
    for i in 0..=max {
        rec.begin_earleme();
        let predicted: Vec<_> = rec.predicted_symbols().collect();
        let ev: Vec<Ev> = rec.events().collect();
        let tr: Vec<_> = rec.trace().collect();
        let di: Vec<u32> = rec.minimal_distances().collect();
        let med: Vec<_> = rec.medial_items().collect();
        assert(ev.len() == predicted.len() + med.len(), "there are not as many events as live positions");
        assert(tr.len() == ev.len() && di.len() == ev.len(), "events, traces and distances disagree about what is live");
        let mut live = Vec::new();
        for k in 0..ev.len() {
            let (t, origin) = tr[k];
            assert(di[k] == ev[k].1.distance, "a distance belongs to another event");
            if k < predicted.len() {
                assert(origin == rec.earleme(), "a prediction has another origin than the current set");
                let e = gr.to_external(predicted[k]);
                match g.syms.iter().position(|&s| s == e) {
                    Some(s) if g.is_nt(s) => {
                        if plain || !t.is_null() {
                            assert(!t.is_null(), "a predicted symbol has no trace");
                            assert(g.rules[t.id as usize].0 == s && (t.pos == 0 || !plain), "a predicted symbol traces to another place");
                        }
                    }
                    Some(_) => assert(t.is_null(), "a terminal traces to a rule"),
                    None => {}
                }
            } else {
                let item = med[k - predicted.len()];
                assert(origin == item.origin as usize, "a trace has the wrong origin");
                if !t.is_null() {
                    live.push((t.id as usize, t.pos as usize));
                }
            }
            if t.is_null() {
                assert(ev[k].0.is_null() && ev[k].1.is_null(), "an event where the user has no rule");
            } else {
                let want = evs[t.id as usize][t.pos as usize];
                assert((ev[k].0.id == want.0.id) & (ev[k].1.distance == want.1.distance), "an event of another dot is reported");
                out(ev[k].0.id as u64);
                cover("event");
            }
        }
        if plain {
            let mut want: Vec<_> = re.inside().into_iter().map(|x| (x.0, x.1)).collect();
            want.sort_unstable();
            live.sort_unstable();
            assert(live == want, "traces are not the positions inside rules that are live");
            if !live.is_empty() {
                cover("inside rules");
            }
        }
        if i == max {
            break;
        }
        let t = g.sym_token(&used);
        let v = re.token(t);
        rec.scan(g.internal(&gr, t), 0);
        assert(rec.end_earleme() == v, "with events a token fails elsewhere");
        if !v {
            return;
        }
    }
}

/// Completion groups, each of them completed as a whole, by hand, or skipped.
pub fn groups(pool: &Pool, max: usize, one_by_one: bool, skips: bool) {
    let mut g = pool.any();
    let gr = g.build(any_bool());
    let used = g.used();
    let mut rec = Recognizer::with_forest(&gr, simple_bocage::Bocage::new(&gr));
    let mut re = Ref::new(&g);
    start(&mut rec);
    // The same input with end_earleme() alone.
    let mut plain = Recognizer::with_forest(&gr, simple_bocage::Bocage::new(&gr));
    start(&mut plain);
    let mut vals = Vec::new();
    let n = pick(1, max as u64);
    // How groups of internal symbols are completed; those of the user's symbols are decided one by one, or as well.
    let gensyms = pick(0, 1);
    for j in 1..=n {
        let t = g.sym_token(&used);
        let v = any_u32();
        vals.push(v);
        rec.begin_earleme();
        if !skips {
            plain.begin_earleme();
            assert(rec.predicted_symbols().eq(plain.predicted_symbols()), "draining by hand leaves other predictions than end_earleme()");
            let (a, b) = (rec.medial_items().map(|i| (i.dot, i.origin)), plain.medial_items().map(|i| (i.dot, i.origin)));
            assert(a.eq(b), "draining by hand leaves other items than end_earleme()");
        }
        rec.scan(g.internal(&gr, t), v);
        if rec.is_exhausted() {
            assert(!re.token(t), "a possible token was refused");
            cover("failed");
            return;
        }
        // Internal origins skip sets nobody needs any more; they keep their order.
        let mut seen: Vec<(usize, u32)> = Vec::new();
        let mut last = u32::MAX;
        let mut skipped = Vec::new();
        while let Some(mut group) = rec.next_sum() {
            let (sym, origin) = (group.symbol(), group.origin());
            assert(origin <= last, "a completion of a later origin comes after one of an earlier origin");
            last = origin;
            let e = gr.to_external(sym);
            let user = if sym.usize() < gr.num_syms() { g.syms.iter().position(|&s| s == e) } else { None };
            let mut mode = gensyms;
            if let Some(u) = user {
                mode = if one_by_one { pick(0, 1) } else { 1 - gensyms };
                assert(!seen.contains(&(u, origin)), "completions of one symbol and origin come in two groups");
                seen.push((u, origin));
                if skips && skipped.is_empty() && any_bool() {
                    mode = 2;
                }
            }
            match mode {
                0 => group.complete_entire_sum(),
                1 => {
                    let mut count = 0;
                    while let Some(item) = group.next_summand() {
                        assert(item.origin == origin, "a group holds an item of another origin");
                        count += 1;
                        group.push_summand(item);
                    }
                    assert(count > 0, "an empty group");
                    group.complete_sum();
                    cover("by hand");
                }
                _ => {
                    group.skip_entire_sum();
                    skipped.push((user.unwrap(), origin));
                    cover("skipped");
                }
            }
        }
        rec.lookahead().clear_hint();
        rec.advance_after_completion();
        if skipped.is_empty() {
            let ok = re.token(t);
            assert(ok, "an impossible token was accepted");
        } else {
            // Which of the origins it was: ranks among the origins seen for non-skipped runs are ambiguous, so
            // find the one that is right.
            let mut full = Ref::new(&g);
            full.skip = re.skip.clone();
            for k in 0..j - 1 {
                full.token_set(re.tokens[k]);
            }
            full.token(t);
            let mut origins: Vec<usize> = full.completed().iter().map(|x| x.1).collect();
            origins.sort_unstable();
            origins.dedup();
            // Before the skipped group every group is there, so the rank from the end is known.
            let (u, o) = skipped[0];
            let mut later: Vec<u32> = seen.iter().map(|x| x.1).filter(|&x| x > o).collect();
            later.sort_unstable();
            later.dedup();
            assert(later.len() < origins.len(), "a group of an origin that is not there");
            let real = origins[origins.len() - 1 - later.len()];
            assert(full.completed().contains(&(u, real)), "a group of a symbol that is not completed");
            re.skip.push((j, u, real));
            re.token(t);
        }
        // Groups are the completed spans: the same symbols, per origin in order.
        let mut want = re.completed();
        want.sort_unstable_by_key(|x| (x.1, x.0));
        seen.sort_unstable_by_key(|x| (x.1, x.0));
        assert(seen.len() >= want.len(), "a completion is in no group");
        assert(seen.len() <= want.len(), "a group of nothing completed");
        for k in 0..want.len() {
            assert(seen[k].0 == want[k].0, "a group of another symbol than the completed one");
            if k > 0 {
                assert((seen[k].1 == seen[k - 1].1) == (want[k].1 == want[k - 1].1), "groups have mixed up origins");
            }
        }
        if want.len() > 1 {
            cover("several groups");
        }
        assert(rec.is_finished() == re.accepts(), "draining completions by hand changes acceptance");
        if !skips {
            plain.scan(g.internal(&gr, t), v);
            assert(plain.end_earleme(), "a possible token was refused");
        }
    }
    if re.skip.is_empty() && n <= 5 && re.accepts() {
        let node = rec.finished_node().unwrap();
        let want = trees(&re, &vals, 0, 0, n);
        same(rec.into_forest().evaluate(Eval { gr: &gr, g: &g }, node), want);
        cover("evaluated");
    }
}
/// Recognizers with different forests, side by side.
pub fn forests(pool: &Pool, max: usize) {
    let mut g = pool.any();
    let gr = g.build(any_bool());
    let used = g.used();
    let mut a = Recognizer::new(&gr);
    let mut b = Recognizer::with_forest(&gr, simple_bocage::Bocage::new(&gr));
    let mut c = Recognizer::with_forest(&gr, compact_bocage::Bocage::new(&gr));
    let mut d = Recognizer::with_forest(&gr, Counting(0));
    start(&mut a);
    start(&mut b);
    start(&mut c);
    start(&mut d);
    let mut re = Ref::new(&g);
    let hinted = pick(0, max as u64);
    for i in 0..=max {
        macro_rules! same_answers {
            ($r:ident) => {
                assert($r.earleme() == a.earleme(), "the forest changes the position");
                assert($r.is_finished() == a.is_finished(), "the forest changes acceptance");
                assert($r.is_exhausted() == a.is_exhausted(), "the forest changes exhaustion");
            };
        }
        same_answers!(b);
        same_answers!(c);
        same_answers!(d);
        if i == max {
            break;
        }
        a.begin_earleme();
        b.begin_earleme();
        c.begin_earleme();
        d.begin_earleme();
        macro_rules! same_progress {
            ($r:ident) => {
                assert(a.predicted_symbols().eq($r.predicted_symbols()), "the forest changes predictions");
                assert(
                    a.medial_items().map(|i| (i.dot, i.origin)).eq($r.medial_items().map(|i| (i.dot, i.origin))),
                    "the forest changes the live items",
                );
            };
        }
        same_progress!(b);
        same_progress!(c);
        same_progress!(d);
        let t = g.sym_token(&used);
        if i == hinted {
            let h = g.internal(&gr, g.sym_token(&used));
            a.lookahead().set_hint(h);
            b.lookahead().set_hint(h);
            c.lookahead().set_hint(h);
            d.lookahead().set_hint(h);
            cover("hinted");
        }
        let s = g.internal(&gr, t);
        let v = if i == 0 && hinted == max { any_u32() } else { i as u32 };
        a.scan(s, v);
        b.scan(s, v);
        c.scan(s, v);
        d.scan(s, v);
        let ok = a.end_earleme();
        out(ok as u64);
        assert(b.end_earleme() == ok && c.end_earleme() == ok && d.end_earleme() == ok, "the forest changes where a parse fails");
        let _ = re.token(t);
        if !ok {
            cover("failed");
            return;
        }
    }
    cover("full length");
}
/// A user's forest: every node is new.
struct Counting(u64);
impl Counting {
    fn next(&mut self) -> u64 {
        self.0 += 1;
        self.0
    }
}
impl Forest for Counting {
    type NodeRef = u64;
    const FOREST_BYTES_PER_RECOGNIZER_BYTE: usize = 1;
    fn begin_sum(&mut self) {}
    fn push_summand(&mut self, _: gearley_forest::item::Item<u64>) {}
    fn sum(&mut self, _: cfg::Symbol, _: u32) -> u64 {
        self.next()
    }
    fn product(&mut self, _: u64, _: u64) -> u64 {
        self.next()
    }
    fn leaf(&mut self, _: cfg::Symbol, _: u32, _: u32) -> u64 {
        self.next()
    }
    fn nulling(&self, _: cfg::Symbol) -> u64 {
        0
    }
}

/// Where a node is offered, and that it can be evaluated.
pub fn nodes(pool: &Pool, max: usize, compact: bool) {
    let mut g = pool.any();
    let gr = g.build(any_bool());
    macro_rules! run {
        ($bocage:expr) => {{
            let mut rec = Recognizer::with_forest(&gr, $bocage);
            let used = g.used();
            let mut re = Ref::new(&g);
            let mut vals = Vec::new();
            // 0: before anything, 1: after the start of input, then after so many tokens.
            let stop = pick(0, max as u64 + 1);
            let mut ok = true;
            if stop > 0 {
                assert(rec.finished_node().is_some() == rec.is_finished(), "a node is offered without a parse, or none with one");
                start(&mut rec);
                for _ in 1..stop {
                    assert(rec.finished_node().is_some() == re.accepts(), "a node is offered without a parse, or none with one");
                    rec.begin_earleme();
                    assert(rec.finished_node().is_none() && !rec.is_finished(), "a parse is finished before anything was read in this step");
                    let t = g.sym_token(&used);
                    let v = if vals.is_empty() { any_u32() } else { vals.len() as u32 };
                    vals.push(v);
                    rec.scan(g.internal(&gr, t), v);
                    ok = rec.end_earleme();
                    if re.token(t) != ok {
                        assert(false, "a token fails elsewhere");
                    }
                    if !ok {
                        break;
                    }
                }
            }
            let node = rec.finished_node();
            assert(node.is_some() == rec.is_finished(), "is_finished() and finished_node() disagree");
            assert(node.is_some() == (ok && re.accepts()), "a node is offered without a parse, or none with one");
            if let Some(node) = node {
                let n = if ok { vals.len() } else { 0 };
                let want = trees(&re, &vals, 0, 0, n);
                let got = rec.into_forest().evaluate(Eval { gr: &gr, g: &g }, node);
                same(got, want);
                cover(match stop {
                    0 => "before input",
                    1 => "empty input",
                    _ => "some input",
                });
            } else {
                cover("no node");
            }
        }};
    }
    if compact {
        run!(compact_bocage::Bocage::new(&gr))
    } else {
        run!(simple_bocage::Bocage::new(&gr))
    }
}

/// The error of a parse driver; its type has no public name, so this reads its Debug output.
pub enum Perr {
    Parse { tokens: Vec<usize>, i: usize },
    Tokenize { word: String },
    Finish,
}
pub fn perr(e: impl std::fmt::Debug) -> Perr {
    let s = format!("{:?}", e);
    let b = s.as_bytes();
    let number = |mut at: usize| {
        let mut n = 0;
        while b[at].is_ascii_digit() {
            n = n * 10 + (b[at] - b'0') as usize;
            at += 1;
        }
        n
    };
    let find = |what: &[u8]| (0..b.len() - what.len()).filter(|&k| &b[k..k + what.len()] == what).map(|k| k + what.len()).collect::<Vec<_>>();
    match b[0] {
        b'P' => Perr::Parse { tokens: find(b"Symbol(").into_iter().map(number).collect(), i: number(*find(b", i: ").last().unwrap()) },
        b'T' => {
            let at = *find(b"word: \"").last().unwrap();
            let len = b[at..].iter().position(|&c| c == b'"').unwrap();
            Perr::Tokenize { word: s[at..at + len].to_string() }
        }
        _ => Perr::Finish,
    }
}

/// `parse` against the language; the position of an error.
pub fn parse(pool: &Pool, max: usize) {
    let mut g = pool.any();
    let gr = g.build(any_bool());
    let n = pick(0, max as u64);
    let toks = tokens(&g, n);
    let mut re = Ref::new(&g);
    let k = viable(&mut re, &toks);
    let ext: Vec<_> = toks.iter().map(|&t| g.syms[t]).collect();
    let mut rec = Recognizer::with_forest(&gr, simple_bocage::Bocage::new(&gr));
    match rec.parse(&ext) {
        Ok(b) => {
            assert(k == n, "parse() reads an impossible token");
            assert(b == re.accepts(), "parse() is wrong about a string");
            assert(rec.is_finished() == b, "parse() and is_finished() disagree");
            cover("read");
            if b {
                // Every leaf's value is the position of its token.
                let vals: Vec<u32> = (0..n as u32).collect();
                let want = trees(&re, &vals, 0, 0, n);
                let node = rec.finished_node().unwrap();
                same(rec.into_forest().evaluate(Eval { gr: &gr, g: &g }, node), want);
                cover("parsed");
            }
        }
        Err(e) => {
            let Perr::Parse { tokens, i } = perr(e) else {
                assert(false, "parse() reports an error of another kind");
                return;
            };
            assert(k < n, "parse() fails on possible tokens");
            assert(i == k || i + 1 == k, "parse() reports an error at another token");
            assert(tokens == [ext[i].usize()], "parse() reports another token than the one at the position");
            out(i as u64);
            cover("error");
        }
    }
}

const NAMES: [&str; 4] = ["a", "b", "c", "d"];

/// Words against terminal names.
pub fn words(pool: &Pool, max: usize) {
    let mut g = pool.any();
    let cfg = g.cfg_named(any_bool(), &NAMES);
    let gr = DefaultGrammar::from_grammar(cfg.clone());
    let n = pick(0, max as u64);
    let used = g.used();
    let mut re = Ref::new(&g);
    let mut list = Vec::new();
    let mut bad = None;
    let mut good = true;
    for i in 0..n {
        let c = pick(0, used.len() as u64);
        if c == used.len() {
            list.push("x");
            bad = bad.or(Some(i));
        } else {
            list.push(NAMES[used[c] - g.nts]);
            good = good && re.token(used[c]);
        }
    }
    match parse_terminal_list(cfg, gr, list.iter().copied()).map_err(perr) {
        Err(Perr::Tokenize { word }) => {
            assert(bad.is_some(), "a terminal's name is not recognized");
            assert(word == "x", "an error names another word than the unknown one");
            cover("unknown word");
        }
        Ok(b) => {
            assert(bad.is_none(), "an unknown word is accepted");
            assert(b && good && re.accepts(), "a list of words outside the language is accepted");
            cover("parsed");
        }
        Err(_) => {
            assert(bad.is_none(), "an unknown word leads to an error of another kind");
            assert(!(good && re.accepts()), "a list of words of the language is refused");
            cover("refused");
        }
    }
}

/// Characters against a character lexer; a character may be several terminals.
/// The alphabet starts where UTF-8 takes another byte.
pub fn chars(pool: &Pool, max: usize, base: u32) {
    let ch = |c: usize| char::from_u32(base + c as u32).unwrap();
    let mut g = pool.any();
    let cfg = g.cfg(any_bool());
    let gr = DefaultGrammar::from_grammar(cfg.clone());
    let used = g.used();
    let mut lexer_map = LexerMap::new();
    // Terminal i reads character 2i and the two after it, so every second character is two terminals.
    for (i, &t) in used.iter().enumerate() {
        lexer_map.insert(ch(2 * i), ch(2 * i + 2), g.syms[t]);
    }
    let loaded = AdvancedGrammar { cfg, lexer_map };
    let n = pick(0, max as u64);
    let mut re = Ref::new(&g);
    let mut text = String::new();
    let mut fail = None;
    for i in 0..n {
        let c = pick(0, 2 * used.len() as u64 + 1);
        text.push(ch(c));
        let set = used.iter().enumerate().filter(|x| 2 * x.0 <= c && c <= 2 * x.0 + 2).fold(0u64, |m, x| m | 1 << x.1);
        if fail.is_none() && !re.token_set(set) {
            fail = Some((i, set));
        }
    }
    match parse_tokenizing(loaded, gr, &text).map_err(perr) {
        Ok(b) => {
            assert(fail.is_none() && b && re.accepts(), "a text outside the language is accepted");
            cover("parsed");
        }
        Err(Perr::Parse { tokens, i }) => {
            assert(fail.is_some(), "a text is refused in the middle although it can go on");
            let (at, set) = fail.unwrap();
            assert(i == at, "an error is reported at another character");
            let got = tokens.iter().fold(0u64, |m, s| m | 1 << g.syms.iter().position(|x| x.usize() == *s).unwrap());
            assert(got == set, "an error lists other terminals than those of the character");
            out(i as u64);
            cover("error");
        }
        Err(Perr::Finish) => {
            assert(fail.is_none() && !re.accepts(), "a text of the language is refused at its end");
            cover("unfinished");
        }
        Err(Perr::Tokenize { .. }) => assert(false, "an error of another kind"),
    }
}

/// Leaf values and identity of results across two evaluations of one forest.
pub fn twice(pool: &Pool, max: usize) {
    let mut g = pool.any();
    let gr = g.build(false);
    let n = pick(1, max as u64);
    let toks = tokens(&g, n);
    let mut re = Ref::new(&g);
    vs::assume(viable(&mut re, &toks) == n && re.accepts());
    macro_rules! run {
        ($b:expr) => {{
            let mut rec = Recognizer::with_forest(&gr, $b);
            start(&mut rec);
            for (i, &t) in toks.iter().enumerate() {
                assert(step(&mut rec, &g, t, i as u32), "a possible token was refused");
            }
            let node = rec.finished_node().unwrap();
            let mut f = rec.into_forest();
            let first: Vec<Tree> = f.evaluate(Eval { gr: &gr, g: &g }, node);
            let second = f.evaluate(Eval { gr: &gr, g: &g }, node);
            assert(first.len() == second.len(), "a second evaluation gives another number of results");
            for (a, b) in first.iter().zip(&second) {
                assert(a.shape == b.shape, "a second evaluation gives another result");
                same_leaves(a, b);
            }
            cover("twice");
        }};
    }
    run!(simple_bocage::Bocage::new(&gr));
    run!(compact_bocage::Bocage::new(&gr));
}
