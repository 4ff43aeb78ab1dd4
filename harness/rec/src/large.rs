//! Long inputs and large grammars: counters, positions and symbol numbers past one and two bytes. The languages are
//! simple enough for a direct oracle.
use crate::gram::Gram;
use crate::more::{perr, Perr};
use crate::start;
use cfg::history::earley::{EventId, MinimalDistance};
use cfg::Symbol;
use gearley_default_grammar::DefaultGrammar;
use gearley_forest::{Evaluate, Forest};
use gearley_grammar::Grammar;
use gearley_recognizer::lookahead::Lookahead;
use gearley_recognizer::perf_hint::PerfHint;
use gearley_recognizer::Recognizer;
use cfg_load::advanced::{AdvancedGrammar, LexerMap};
use gearley_utils::{parse_terminal_list, parse_tokenizing, RecognizerParseExt};
use vs::{any_bool, assert, cover, out, pick};

fn gram(nts: usize, ts: usize, rules: Vec<(usize, Vec<usize>)>) -> Gram {
    Gram { nts, ts, rules, useless: Vec::new(), syms: Vec::new() }
}

/// A value that tells apart the order and the kind of all parts: the composition of a map x -> m*x + a for each.
#[derive(Clone, Copy, Default, PartialEq, Debug)]
struct Map {
    m: u64,
    a: u64,
}
const M: u64 = 0x9e37_79b9_7f4a_7c15;
fn map(tag: u64, v: u64) -> Map {
    Map { m: M, a: v.wrapping_add(tag << 40).wrapping_mul(0xff51_afd7_ed55_8ccd).wrapping_add(tag) }
}
impl Map {
    fn then(self, o: Map) -> Map {
        Map { m: self.m.wrapping_mul(o.m), a: self.a.wrapping_mul(o.m).wrapping_add(o.a) }
    }
}
fn leaf(sym: usize, value: u32) -> Map {
    map(1 + sym as u64, value as u64)
}
fn rule(rule: usize, args: &[Map]) -> Map {
    args.iter().fold(map(0, 2 * rule as u64), |x, y| x.then(*y)).then(map(0, 2 * rule as u64 + 1))
}
fn empty(sym: usize) -> Map {
    map(1 + sym as u64, 1 << 35)
}
struct Ev<'a> {
    gr: &'a DefaultGrammar,
    g: &'a Gram,
}
impl Ev<'_> {
    fn user(&self, s: Symbol) -> usize {
        let e = self.gr.to_external(s);
        self.g.syms.iter().position(|&x| x == e).unwrap_or(0x7fff)
    }
}
impl Evaluate for Ev<'_> {
    type Elem = Map;
    fn leaf(&self, terminal: Symbol, value: u32) -> Map {
        leaf(self.user(terminal), value)
    }
    fn product<'a>(&self, action: u32, args: impl Iterator<Item = &'a Map>) -> Map {
        let a: Vec<Map> = args.copied().collect();
        rule(action as usize, &a)
    }
    fn nulling(&self, symbol: Symbol, results: &mut Vec<Map>) {
        results.push(empty(self.user(symbol)));
    }
}

fn read<G: Grammar, F: Forest, P: PerfHint>(r: &mut Recognizer<G, F, P>, s: Symbol, v: u32) -> bool {
    r.begin_earleme();
    r.scan(s, v);
    r.end_earleme()
}
/// One of some places.
fn place(of: &[usize]) -> usize {
    of[pick(0, of.len() as u64 - 1)]
}

/// Evaluates in both bocages: `vals` for the tokens `toks`, all of them possible.
macro_rules! both {
    ($g:expr, $gr:expr, $compact:expr, $toks:expr, $want:expr) => {{
        macro_rules! run {
            ($bocage:expr) => {{
                let mut rec = Recognizer::with_forest($gr, $bocage);
                start(&mut rec);
                for (i, &t) in $toks.iter().enumerate() {
                    assert(read(&mut rec, t, i as u32), "a possible token was refused");
                }
                let node = rec.finished_node();
                assert(node.is_some(), "a sentence has no node");
                let got = rec.into_forest().evaluate(Ev { gr: $gr, g: $g }, node.unwrap());
                assert(got.len() == 1, "an unambiguous parse has other than one value");
                assert(got[0] == $want, "the value of a parse is not the one of its derivation");
                cover("evaluated");
            }};
        }
        if $compact {
            run!(compact_bocage::Bocage::new($gr))
        } else {
            run!(simple_bocage::Bocage::new($gr))
        }
    }};
}

// S = a S b | a b
fn nest() -> Gram {
    gram(1, 2, vec![(0, vec![1, 0, 2]), (0, vec![1, 2])])
}
/// a^n b^m, and any token at some places: acceptance, failures and what is expected next.
pub fn nested(n: usize, places: &[usize]) {
    let mut g = nest();
    let gr = g.build(any_bool());
    let mut rec = Recognizer::new(&gr);
    start(&mut rec);
    nested_from(&g, &gr, rec, n, places);
}
/// With another forest.
pub fn nested_forest(n: usize, places: &[usize]) {
    let mut g = nest();
    let gr = g.build(any_bool());
    if any_bool() {
        let mut rec = Recognizer::with_forest(&gr, compact_bocage::Bocage::new(&gr));
        start(&mut rec);
        nested_from(&g, &gr, rec, n, places);
    } else {
        let mut rec = Recognizer::with_forest(&gr, simple_bocage::Bocage::new(&gr));
        start(&mut rec);
        nested_from(&g, &gr, rec, n, places);
    }
}
/// After a reset in the middle, or at the end, of another long text.
pub fn nested_reset(n: usize, stops: &[usize], places: &[usize]) {
    let mut g = nest();
    let gr = g.build(any_bool());
    let (a, b) = (g.internal(&gr, 1), g.internal(&gr, 2));
    let mut rec = Recognizer::new(&gr);
    start(&mut rec);
    for i in 0..place(stops) {
        read(&mut rec, if i < n { a } else { b }, 0);
    }
    rec.reset();
    assert(rec.earleme() == Recognizer::new(&gr).earleme() && !rec.is_finished(), "reset() leaves the position behind");
    start(&mut rec);
    nested_from(&g, &gr, rec, n, places);
}
fn nested_from<F: Forest>(g: &Gram, gr: &DefaultGrammar, mut rec: Recognizer<&DefaultGrammar, F>, n: usize, places: &[usize]) {
    let (a, b) = (g.internal(gr, 1), g.internal(gr, 2));
    let p = place(places);
    let (mut na, mut nb) = (0, 0);
    for i in 0..2 * n + 1 {
        assert(rec.is_finished() == (na == nb && na > 0), "acceptance of a long text is wrong");
        let is_a = (i < n) != (i == p);
        let ok = if is_a { nb == 0 } else { nb < na };
        if i + 2 > p && i < p + 2 || i + 2 > 2 * n {
            rec.begin_earleme();
            let (mut can_a, mut can_b, mut end) = (false, false, false);
            for s in rec.predicted_symbols().chain(rec.expected_terminals()) {
                can_a |= s == a;
                can_b |= s == b;
                end |= s == gr.eof();
            }
            assert(can_a == (nb == 0), "a is expected at the wrong place");
            assert(can_b == (nb < na), "b is expected at the wrong place");
            assert(end == (na == nb && na > 0), "the end is expected at the wrong place");
            rec.scan(if is_a { a } else { b }, i as u32);
            assert(rec.end_earleme() == ok, "a long text fails at the wrong token");
        } else {
            assert(read(&mut rec, if is_a { a } else { b }, i as u32) == ok, "a long text fails at the wrong token");
        }
        if !ok {
            out(i as u64);
            assert(!rec.is_finished(), "finished after a failure");
            cover("failed");
            return;
        }
        if is_a {
            na += 1;
        } else {
            nb += 1;
        }
    }
    assert(!rec.is_finished(), "acceptance of a long text is wrong");
    cover("unfinished");
}
pub fn nested_value(n: usize, compact: bool) {
    let mut g = nest();
    let gr = g.build(any_bool());
    let (a, b) = (g.internal(&gr, 1), g.internal(&gr, 2));
    let toks: Vec<Symbol> = (0..2 * n).map(|i| if i < n { a } else { b }).collect();
    let mut want = rule(1, &[leaf(1, n as u32 - 1), leaf(2, n as u32)]);
    for i in (0..n - 1).rev() {
        want = rule(0, &[leaf(1, i as u32), want, leaf(2, (2 * n - 1 - i) as u32)]);
    }
    both!(&g, &gr, compact, toks, want);
}
/// S = S a | a, or S = a S | a.
pub fn list_value(n: usize, right: bool, compact: bool) {
    let mut g = gram(1, 1, vec![(0, if right { vec![1, 0] } else { vec![0, 1] }), (0, vec![1])]);
    let gr = g.build(any_bool());
    let a = g.internal(&gr, 1);
    let toks = vec![a; n];
    let mut want = rule(1, &[leaf(1, if right { n as u32 - 1 } else { 0 })]);
    for i in 1..n {
        want = if right { rule(0, &[leaf(1, (n - 1 - i) as u32), want]) } else { rule(0, &[want, leaf(1, i as u32)]) };
    }
    both!(&g, &gr, compact, toks, want);
}

/// A truthful hint at every step, at every other, or at none.
pub fn hinted(n: usize, places: &[usize]) {
    let mut g = nest();
    let gr = g.build(any_bool());
    let (a, b) = (g.internal(&gr, 1), g.internal(&gr, 2));
    let mut rec = Recognizer::new(&gr);
    start(&mut rec);
    let p = place(places);
    let every = pick(0, 2);
    let tok = |i: usize| if i == 2 * n { gr.eof() } else if (i < n) != (i == p) { a } else { b };
    let (mut na, mut nb) = (0, 0);
    for i in 0..2 * n {
        let is_a = tok(i) == a;
        let ok = if is_a { nb == 0 } else { nb < na };
        if is_a {
            na += 1;
        } else {
            nb += 1;
        }
        let next = tok(i + 1);
        let next_ok = if next == a { nb == 0 } else if next == b { nb < na } else { na == nb };
        rec.begin_earleme();
        assert(rec.lookahead().sym().is_none(), "a hint outlives its step");
        let hint = ok && every > 0 && i % every == 0;
        if hint {
            rec.lookahead().set_hint(next);
            cover("hinted");
        }
        rec.scan(tok(i), 0);
        let got = rec.end_earleme();
        assert(!got || ok, "hints made an impossible token pass");
        assert(got || !ok || hint && !next_ok, "hints made a possible token fail");
        if !got {
            cover("failed");
            return;
        }
    }
    assert(rec.is_finished() == (na == nb), "hints changed acceptance");
    cover("accepted");
}

/// S = S S | a (and S = S S S): very many completions at once, in the right groups and order.
pub fn groups(n: usize) {
    let three = any_bool();
    let mut rules = vec![(0, vec![0, 0]), (0, vec![1])];
    if three {
        rules.push((0, vec![0, 0, 0]));
    }
    let mut g = gram(1, 1, rules);
    let gr = g.build(any_bool());
    let (a, s) = (g.internal(&gr, 1), g.internal(&gr, 0));
    let mut rec = Recognizer::new(&gr);
    start(&mut rec);
    let by_hand = any_bool();
    for i in 0..n {
        assert(rec.is_finished() == (i > 0), "acceptance of a long text is wrong");
        rec.begin_earleme();
        rec.scan(a, 0);
        let mut seen = Vec::new();
        let mut last = u32::MAX;
        while let Some(mut group) = rec.next_sum() {
            assert(group.origin() <= last, "a completion of a later origin comes after one of an earlier origin");
            last = group.origin();
            if group.symbol() == s {
                assert(!seen.contains(&last), "completions of one symbol and origin come in two groups");
                seen.push(last);
            }
            if by_hand {
                let mut count = 0;
                while let Some(item) = group.next_summand() {
                    assert(item.origin == last, "a group holds an item of another origin");
                    count += 1;
                    group.push_summand(item);
                }
                assert(count > 0, "an empty group");
                group.complete_sum();
                cover("by hand");
            } else {
                group.complete_entire_sum();
            }
        }
        assert(seen.len() == i + 1, "a completion is missing");
        rec.advance_after_completion();
    }
    assert(rec.is_finished(), "acceptance of a long text is wrong");
    cover("several groups");
}

/// parse() of a long text with one token out of place.
pub fn driven(n: usize, places: &[usize]) {
    let mut g = nest();
    let gr = g.build(false);
    let p = place(places);
    let ext = |is_a: bool| g.syms[if is_a { 1 } else { 2 }];
    let toks: Vec<Symbol> = (0..2 * n).map(|i| ext((i < n) != (i == p))).collect();
    // The first token no sentence continues with.
    let (mut na, mut nb, mut bad) = (0, 0, None);
    for (i, &t) in toks.iter().enumerate() {
        let is_a = t == g.syms[1];
        if !(if is_a { nb == 0 } else { nb < na }) {
            bad = Some(i);
            break;
        }
        if is_a {
            na += 1;
        } else {
            nb += 1;
        }
    }
    let mut rec = Recognizer::new(&gr);
    match rec.parse(&toks) {
        Ok(fin) => {
            assert(bad.is_none(), "parse() accepts an impossible token");
            assert(fin == (na == nb), "parse() gives another outcome");
            cover("parsed");
        }
        Err(e) => {
            let Perr::Parse { tokens, i } = perr(e) else {
                assert(false, "parse() reports an error of another kind");
                return;
            };
            out(i as u64);
            let bad = bad.unwrap_or(usize::MAX);
            assert(i == bad || i + 1 == bad, "parse() reports an error at another token");
            assert(tokens == [toks[i].usize()], "parse() reports another token than the one at the position");
            cover("error");
        }
    }
}

/// Lists of words and texts of that language, with a word or character at some place that is another, or unknown.
pub fn tokenized(n: usize, places: &[usize]) {
    let mut g = nest();
    let (p, what) = (place(places), pick(0, 2));
    let kinds: Vec<usize> = (0..2 * n).map(|i| if i == p && what > 0 { if what == 1 { 1 - i / n } else { 2 } } else { i / n }).collect();
    // The first token no sentence continues with.
    let (mut na, mut nb, mut bad) = (0, 0, None);
    for (i, &k) in kinds.iter().enumerate() {
        if !(if k == 0 { nb == 0 } else { k == 1 && nb < na }) {
            bad = Some(i);
            break;
        }
        if k == 0 {
            na += 1;
        } else {
            nb += 1;
        }
    }
    let fine = bad.is_none() && na == nb;
    if any_bool() {
        let cfg = g.cfg_named(false, &["one", "other"]);
        let gr = DefaultGrammar::from_grammar(cfg.clone());
        match parse_terminal_list(cfg, gr, kinds.iter().map(|&k| ["one", "other", "none"][k])).map_err(perr) {
            Err(Perr::Tokenize { word }) => assert(what == 2 && p < 2 * n && word == "none", "an error names another word than the unknown one"),
            Ok(b) => assert(b && fine, "a list of words outside the language is accepted"),
            Err(_) => assert(!fine && kinds.iter().all(|&k| k < 2), "a list of words of the language is refused"),
        }
        cover("words");
    } else {
        let cfg = g.cfg(false);
        let gr = DefaultGrammar::from_grammar(cfg.clone());
        let mut lexer_map = LexerMap::new();
        lexer_map.insert('a', 'a', g.syms[1]);
        lexer_map.insert('b', 'b', g.syms[2]);
        let text: String = kinds.iter().map(|&k| ['a', 'b', 'c'][k]).collect();
        match parse_tokenizing(AdvancedGrammar { cfg, lexer_map }, gr, &text).map_err(perr) {
            Ok(b) => assert(b && fine, "a text outside the language is accepted"),
            Err(Perr::Parse { tokens, i }) => {
                assert(Some(i) == bad, "an error is reported at another character");
                assert(tokens.len() == (kinds[i] < 2) as usize, "an error lists other terminals than those of the character");
            }
            Err(Perr::Finish) => assert(bad.is_none() && na != nb, "a text of the language is refused at its end"),
            Err(Perr::Tokenize { .. }) => assert(false, "an error of another kind"),
        }
        cover("text");
    }
}

/// S = X_i for each i; X_i = t_i u_i N_i; N_i = nothing | u_i.
pub fn many(n: usize) -> Gram {
    let (x, e, t, u) = (1, 1 + n, 1 + 2 * n, 1 + 3 * n);
    let mut rules = Vec::new();
    for i in 0..n {
        rules.push((0, vec![x + i]));
        rules.push((x + i, vec![t + i, u + i, e + i]));
        rules.push((e + i, vec![]));
        rules.push((e + i, vec![u + i]));
    }
    gram(1 + 2 * n, 2 * n, rules)
}
/// An event at each dot of each of many rules.
pub fn many_events(n: usize, near: &[usize]) {
    let mut g = many(n);
    let evs: Vec<Vec<_>> = (0..g.rules.len())
        .map(|i| (0..=g.rules[i].1.len()).map(|k| (EventId { id: (i * 8 + k) as u32 }, MinimalDistance { distance: (i * 3 + k * 1000) as u32 })).collect())
        .collect();
    let gr = DefaultGrammar::from_grammar(g.cfg_with(any_bool(), Some(&evs)));
    let (t, u) = (1 + 2 * n, 1 + 3 * n);
    let i = place(near);
    let mut rec = Recognizer::new(&gr);
    start(&mut rec);
    for k in 0..3 {
        rec.begin_earleme();
        let (ev, tr): (Vec<_>, Vec<_>) = (rec.events().collect(), rec.trace().collect());
        let di: Vec<u32> = rec.minimal_distances().collect();
        assert(ev.len() == tr.len() && di.len() == ev.len(), "events, traces and distances disagree about what is live");
        let mut seen = Vec::new();
        for (e, (x, d)) in ev.iter().zip(tr.iter().zip(&di)) {
            let x = x.0;
            assert(*d == e.1.distance, "a distance belongs to another event");
            if x.is_null() {
                assert(e.0.is_null() && e.1.is_null(), "an event where the user has no rule");
            } else {
                let want = &evs[x.id as usize][x.pos as usize];
                assert(e.0.id == want.0.id && e.1.distance == want.1.distance, "an event of another dot is reported");
                assert(!seen.contains(&e.0.id), "an event is reported twice");
                seen.push(e.0.id);
            }
        }
        let want = |r: usize, dot: usize| (r * 8 + dot) as u32;
        if k == 0 {
            // The start symbol (by one of its rules) and each X.
            assert(seen.len() == n + 1 && (0..n).all(|j| seen.contains(&want(4 * j + 1, 0))), "an event of a live position is missing");
        } else {
            assert(seen.contains(&want(4 * i + 1, k)), "an event of a live position is missing");
            assert(seen.iter().all(|id| (id / 8) as usize / 4 == i), "an event of a position that is not live");
        }
        cover("event");
        rec.scan(g.internal(&gr, if k == 0 { t + i } else { u + i }), 0);
        assert(rec.end_earleme(), "a possible token was refused");
    }
}
/// `json`: the grammar goes through JSON first.
pub fn many_symbols(n: usize, near: &[usize], compact: bool, json: Option<bool>, hints: bool) {
    let mut g = many(n);
    let gr = g.build(any_bool());
    let gr: DefaultGrammar = match json {
        None => gr,
        Some(true) => serde_json::from_str(&serde_json::to_string(&gr).unwrap()).unwrap(),
        Some(false) => match miniserde::json::from_str(&miniserde::json::to_string(&gr)) {
            Ok(c) => c,
            Err(_) => {
                assert(false, "a grammar's JSON is refused");
                return;
            }
        },
    };
    let (x, e, t, u) = (1, 1 + n, 1 + 2 * n, 1 + 3 * n);
    for s in 0..g.num() {
        let int = g.internal(&gr, s);
        assert(int.usize() < gr.num_syms() && gr.to_external(int) == g.syms[s], "a symbol is mapped to another one");
    }
    let i = place(near);
    let j = place(near);
    let longer = any_bool();
    let v = [300, u32::MAX][pick(0, 1)];
    macro_rules! run {
        ($bocage:expr) => {{
            let mut rec = Recognizer::with_forest(&gr, $bocage);
            start(&mut rec);
            rec.begin_earleme();
            let got: Vec<Symbol> = rec.predicted_symbols().collect();
            for k in 0..n {
                assert(got.contains(&g.internal(&gr, t + k)) && got.contains(&g.internal(&gr, x + k)), "a symbol the input can continue with is not predicted");
                assert(!got.contains(&g.internal(&gr, u + k)), "a symbol the input cannot continue with is predicted");
            }
            if hints {
                rec.lookahead().set_hint(g.internal(&gr, u + j));
            }
            rec.scan(g.internal(&gr, t + i), v);
            let ok = rec.end_earleme();
            assert(ok || hints && i != j, "a possible token was refused");
            if !ok {
                cover("failed");
                return;
            }
            assert(!rec.is_finished(), "acceptance is wrong");
            rec.begin_earleme();
            if hints {
                let next = if longer { g.internal(&gr, u + i) } else { gr.eof() };
                rec.lookahead().set_hint(next);
                cover("hinted");
            }
            rec.scan(g.internal(&gr, u + j), 7);
            let ok = rec.end_earleme();
            assert(ok == (i == j), "an impossible token is accepted or a possible one refused");
            if !ok {
                cover("failed");
                return;
            }
            // Hints may leave out what cannot be followed by the next token.
            assert(rec.is_finished() || hints && longer, "acceptance is wrong");
            let mut last = empty(e + i);
            if longer {
                rec.begin_earleme();
                if hints {
                    rec.lookahead().set_hint(gr.eof());
                }
                rec.scan(g.internal(&gr, u + i), 9);
                assert(rec.end_earleme(), "a possible token was refused");
                last = rule(4 * i + 3, &[leaf(u + i, 9)]);
            }
            let want = rule(4 * i, &[rule(4 * i + 1, &[leaf(t + i, v), leaf(u + i, 7), last])]);
            let node = rec.finished_node();
            assert(node.is_some(), "a sentence has no node");
            let got = rec.into_forest().evaluate(Ev { gr: &gr, g: &g }, node.unwrap());
            assert(got.len() == 1, "an unambiguous parse has other than one value");
            assert(got[0] == want, "the value of a parse is not the one of its derivation");
            cover("evaluated");
        }};
    }
    if compact {
        run!(compact_bocage::Bocage::new(&gr))
    } else {
        run!(simple_bocage::Bocage::new(&gr))
    }
}

/// Evaluates in one of the bocages: the values for the tokens `toks`, in some order.
macro_rules! values {
    ($g:expr, $gr:expr, $compact:expr, $toks:expr) => {{
        macro_rules! run {
            ($bocage:expr) => {{
                let mut rec = Recognizer::with_forest($gr, $bocage);
                start(&mut rec);
                for (i, &t) in $toks.iter().enumerate() {
                    assert(read(&mut rec, t, i as u32), "a possible token was refused");
                }
                let node = rec.finished_node();
                assert(node.is_some(), "a sentence has no node");
                rec.into_forest().evaluate(Ev { gr: $gr, g: $g }, node.unwrap())
            }};
        }
        let mut got = if $compact { run!(compact_bocage::Bocage::new($gr)) } else { run!(simple_bocage::Bocage::new($gr)) };
        got.sort_by_key(|x| (x.m, x.a));
        got
    }};
}
fn same(got: Vec<Map>, mut want: Vec<Map>) {
    want.sort_by_key(|x| (x.m, x.a));
    assert(got.len() == want.len(), "an ambiguous parse has another number of values than derivations");
    assert(got == want, "the values of a parse are not those of its derivations");
    out(got.len() as u64);
    cover("evaluated");
}
/// S = b X; X = a, n times over: one node of very many alternatives.
pub fn alternatives(n: usize, compact: bool) {
    // 0 S, 1 X, 2.. A_i, then a, b
    let (a, b) = (2 + n, 3 + n);
    let mut rules = vec![(0, vec![b, 1])];
    for i in 0..n {
        rules.push((1, vec![2 + i]));
        rules.push((2 + i, vec![a]));
    }
    let mut g = gram(2 + n, 2, rules);
    let gr = g.build(any_bool());
    let toks = [g.internal(&gr, b), g.internal(&gr, a)];
    let got = values!(&g, &gr, compact, toks);
    let want = (0..n).map(|i| rule(0, &[leaf(b, 0), rule(1 + 2 * i, &[rule(2 + 2 * i, &[leaf(a, 1)])])])).collect();
    same(got, want);
}
/// S = Y_i Z_j for each i and j; Y_i = a; Z_j = b: n * n alternatives.
pub fn pairs(n: usize, compact: bool) {
    let (a, b) = (1 + 2 * n, 2 + 2 * n);
    let mut rules = Vec::new();
    for i in 0..n {
        rules.push((1 + i, vec![a]));
        rules.push((1 + n + i, vec![b]));
    }
    for i in 0..n {
        for j in 0..n {
            rules.push((0, vec![1 + i, 1 + n + j]));
        }
    }
    let mut g = gram(1 + 2 * n, 2, rules);
    let gr = g.build(any_bool());
    let toks = [g.internal(&gr, a), g.internal(&gr, b)];
    let got = values!(&g, &gr, compact, toks);
    let want = (0..n * n).map(|k| rule(2 * n + k, &[rule(2 * (k / n), &[leaf(a, 0)]), rule(2 * (k % n) + 1, &[leaf(b, 1)])])).collect();
    same(got, want);
}
/// S = X X ... X, k times, and X = A | B, A = a, B = a: 2^k values.
pub fn combinations(k: usize, compact: bool) {
    let a = 3;
    let mut g = gram(3, 1, vec![(0, vec![1; k]), (1, vec![2]), (1, vec![a]), (2, vec![a])]);
    let gr = g.build(any_bool());
    let toks = vec![g.internal(&gr, a); k];
    let got = values!(&g, &gr, compact, toks);
    let want = (0..1u64 << k)
        .map(|bits| {
            let xs: Vec<Map> = (0..k).map(|i| if bits >> i & 1 == 1 { rule(2, &[leaf(a, i as u32)]) } else { rule(1, &[rule(3, &[leaf(a, i as u32)])]) }).collect();
            rule(0, &xs)
        })
        .collect();
    same(got, want);
}
/// S = t_0 N t_1 N ... t_n, where each N may be nothing: all nothing but at some places. With progress on the way.
pub fn long_rule(n: usize, near: &[usize], compact: bool) {
    // 0 S, 1 N, 2 a, 3 b, 4 c
    let (a, b, c) = (2, 3, 4);
    let (at, nu) = (place(near), place(near));
    let mut rhs = Vec::new();
    for i in 0..n {
        // b only at one place, and what may be nothing after another.
        rhs.push(if i == at { b } else { a });
        if i == nu {
            rhs.push(1);
        }
    }
    let mut g = gram(2, 3, vec![(0, rhs.clone()), (1, vec![]), (1, vec![c])]);
    let gr = g.build(any_bool());
    let some = any_bool();
    let mut toks = Vec::new();
    let mut parts = Vec::new();
    for &s in &rhs {
        let s = if s == 1 {
            if !some {
                parts.push(empty(1));
                continue;
            }
            parts.push(rule(2, &[leaf(c, toks.len() as u32)]));
            c
        } else {
            parts.push(leaf(s, toks.len() as u32));
            s
        };
        toks.push(g.internal(&gr, s));
    }
    let mut rec = Recognizer::new(&gr);
    start(&mut rec);
    for (i, &t) in toks.iter().enumerate() {
        assert(rec.is_finished() == (some && nu + 1 == n && i == n), "acceptance is wrong");
        rec.begin_earleme();
        for s in [a, b, c] {
            let two = i == nu + 1 && s == c;
            let s = g.internal(&gr, s);
            let next = rec.predicted_symbols().any(|x| x == s);
            assert(next || s != t, "a symbol the input can continue with is not predicted");
            // After it, whichever of the two is not this token.
            let other = i == nu + 1 && (if some { nu + 1 < n && s == g.internal(&gr, rhs[nu + 2]) } else { two });
            assert(next == (s == t || other), "a symbol the input cannot continue with is predicted");
        }
        rec.scan(t, i as u32);
        assert(rec.end_earleme(), "a possible token was refused");
    }
    assert(rec.is_finished() && !read(&mut rec, toks[0], 0), "acceptance is wrong");
    both!(&g, &gr, compact, toks, rule(0, &parts));
}
/// S = N N ... N a: each N may be nothing, and one of some is not.
pub fn many_nothing(n: usize, near: &[usize], compact: bool) {
    // 0 S, 1.. N_i, then c_i, then a
    let (c, a) = (1 + n, 1 + 2 * n);
    let mut rules = vec![(0, (1..=n).chain([a]).collect::<Vec<_>>())];
    for i in 0..n {
        rules.push((1 + i, vec![]));
        rules.push((1 + i, vec![c + i]));
    }
    let mut g = gram(1 + n, n + 1, rules);
    let gr = g.build(any_bool());
    let i = place(near);
    let mut toks = Vec::new();
    if i < n {
        toks.push(g.internal(&gr, c + i));
    }
    toks.push(g.internal(&gr, a));
    let mut parts: Vec<Map> = (0..n).map(|k| if k == i { rule(2 * k + 2, &[leaf(c + k, 0)]) } else { empty(1 + k) }).collect();
    parts.push(leaf(a, toks.len() as u32 - 1));
    both!(&g, &gr, compact, toks, rule(0, &parts));
}
/// S = A_1, A_1 = A_2, ... A_n = a.
pub fn chain(n: usize, compact: bool) {
    let mut rules: Vec<(usize, Vec<usize>)> = (0..n).map(|i| (i, vec![i + 1])).collect();
    rules.reverse();
    let mut g = gram(n, 1, rules);
    let gr = g.build(any_bool());
    let toks = [g.internal(&gr, n)];
    let mut want = leaf(n, 0);
    // The last rule is of the first symbol.
    for i in 0..n {
        want = rule(i, &[want]);
    }
    both!(&g, &gr, compact, toks, want);
}
