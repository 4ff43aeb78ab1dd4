//! The tables of a grammar: symbol maps, rules and their origins; copies of it through references and JSON.
use crate::gram::{Gram, Pool, Ref};
use crate::tree::{same, trees, Eval};
use crate::{start, step};
use bit_matrix::row::BitSlice;
use cfg::history::earley::{
    EventAndDistance, EventId, ExternalDottedRule, ExternalOrigin, MinimalDistance, NullingEliminated,
};
use cfg::Symbol;
use gearley_default_grammar::DefaultGrammar;
use gearley_grammar::{ForestInfo, Grammar, NullingIntermediateRule, PredictionTransition};
use gearley_recognizer::Recognizer;
use vs::{any_bool, any_u32, assert, cover, out, pick};

/// Symbols that are part of some sentence's derivation and not only of nothing.
fn partake(g: &Gram) -> u64 {
    g.rules.iter().fold(1u64, |m, (l, r)| r.iter().fold(m | 1 << l, |m, s| m | 1 << s))
}

/// Maps between the user's symbols and internal ones.
pub fn maps(mut g: Gram) {
    let gr = g.build(any_bool());
    let n = gr.num_syms();
    let solid = crate::solid(&g);
    let mut seen = vec![false; n];
    for u in 0..g.num() {
        if partake(&g) >> u & 1 == 0 {
            if let Some(i) = gr.to_internal(g.syms[u]) {
                assert(gr.to_external(i) == g.syms[u], "an unused symbol maps to another one");
            }
            cover("unused");
            continue;
        }
        let i = gr.to_internal(g.syms[u]);
        if solid >> u & 1 != 0 || u == 0 {
            assert(i.is_some(), "a symbol has no internal one");
        }
        // Symbols that derive only nothing may be gone from the rules; those eliminated from some still have a number.
        let Some(i) = i else { continue };
        assert(gr.to_external(i) == g.syms[u], "to_external(to_internal()) is another symbol");
        if i.usize() < n {
            assert(!seen[i.usize()], "two symbols have one internal symbol");
            seen[i.usize()] = true;
        } else {
            assert(solid >> u & 1 == 0, "a symbol of the user is numbered as a generated one");
        }
        out(i.usize() as u64);
    }
    for i in 0..n + gr.num_gensyms() {
        let s = Symbol::from(i as u32);
        assert(gr.to_internal(gr.to_external(s)) == Some(s), "to_internal(to_external()) is another symbol");
    }
    let (sof, eof, root) = (gr.sof(), gr.eof(), gr.start_sym());
    assert(sof.usize() < n && eof.usize() < n && root.usize() < n, "a special symbol is out of range");
    assert(sof != eof && sof != root && eof != root, "special symbols are the same");
    for s in [sof, eof, root] {
        assert(!g.syms.contains(&gr.to_external(s)), "a special symbol is one of the user's");
        assert(!seen[s.usize()], "a special symbol is one of the user's");
    }
    assert(gr.externalized_start_sym() == g.syms[0], "the start symbol is another one");
    let d = gr.dot_before_eof();
    assert(gr.get_rhs1(d) == Some(eof), "the position before the end of input is another one");
    cover("mapped");
}

/// The rules behind the tables, put together again.
struct Rules<'a> {
    gr: &'a DefaultGrammar,
    g: &'a Gram,
    info: ForestInfo,
    /// First symbol of each rule.
    rhs0: Vec<Symbol>,
}
impl Rules<'_> {
    fn user(&self, s: Symbol) -> Option<usize> {
        let e = self.gr.to_external(s);
        self.g.syms.iter().position(|&x| x == e)
    }
    fn is_special(&self, s: Symbol) -> bool {
        s == self.gr.sof() || s == self.gr.eof() || s == self.gr.start_sym()
    }
    /// The user's symbols, end and start of input as themselves (from a million on).
    fn spell(&self, s: Symbol, depth: usize) -> Vec<usize> {
        assert(depth < 8, "helper symbols are made of themselves");
        if let Some(u) = self.user(s) {
            return vec![u];
        }
        if self.is_special(s) {
            return vec![1_000_000 + (s == self.gr.eof()) as usize + 2 * (s == self.gr.start_sym()) as usize];
        }
        if let Some(r) = self.info.nulling_intermediate_rules.iter().find(|r| r[0] == s) {
            let mut v = self.spell(r[1], depth + 1);
            v.extend(self.spell(r[2], depth + 1));
            return v;
        }
        let mut found: Option<Vec<usize>> = None;
        for k in 0..self.gr.num_rules() {
            if self.gr.get_lhs(k as u32) == s {
                assert(self.info.eval[k].is_null(), "a helper rule has an action");
                let v = self.rhs(k, depth + 1);
                if let Some(f) = &found {
                    assert(*f == v, "rules of a helper symbol stand for different sequences");
                }
                found = Some(v);
            }
        }
        assert(found.is_some(), "a helper symbol has no rule");
        found.unwrap()
    }
    /// A rule's right-hand side in the user's terms, with what was eliminated.
    fn rhs(&self, k: usize, depth: usize) -> Vec<usize> {
        let mut v = self.spell(self.rhs0[k], depth);
        if let Some(r) = self.gr.get_rhs1(k as u32) {
            v.extend(self.spell(r, depth));
        }
        match self.info.nulling_eliminated[k] {
            Some((s, true)) => v.extend(self.spell(s, depth)),
            Some((s, false)) => {
                let mut w = self.spell(s, depth);
                w.extend(v);
                v = w;
            }
            None => {}
        }
        v
    }
}

/// Positions, actions and eliminated symbols against the user's rules.
pub fn info(mut g: Gram) {
    let gr = g.build(any_bool());
    let info = gr.forest_info();
    let n = gr.num_rules();
    assert(info.eval.len() == n && info.nulling_eliminated.len() == n, "forest information is missing for some rule");
    assert(gr.rhs1().len() >= n, "some rule has no second column");
    assert(info.sof == gr.sof() && info.eof == gr.eof(), "forest information has other special symbols");
    assert(gr.to_external(info.start) == g.syms[0], "forest information has another start symbol");
    assert(gr.eliminated_nulling_intermediate() == &info.nulling_intermediate_rules[..], "intermediate rules differ");
    let mut max = None;
    let mut up = |s: Symbol| max = max.max(Some(s.usize()));
    for k in 0..n {
        let d = k as u32;
        assert(gr.external_origin(d).id == info.eval[k].id, "the action of a rule depends on who is asked");
        assert(info.external_origin(d).map(|o| o.id) == Some(info.eval[k].id), "forest information loses an action");
        assert(gr.nulling(d) == info.nulling_eliminated[k], "an eliminated symbol depends on who is asked");
        assert(gr.get_rhs1(d) == gr.rhs1()[k], "the second symbol of a rule depends on how it is asked for");
        assert(gr.rhs1_or_lhs(d) == gr.get_rhs1(d).unwrap_or(gr.get_lhs(d)), "rhs1_or_lhs() is neither");
        if let Some((s, _)) = info.nulling_eliminated[k] {
            assert(gr.get_rhs1(d).is_none(), "a symbol was eliminated from a rule that still has two");
            up(s);
        }
    }
    for r in &info.nulling_intermediate_rules {
        r.iter().for_each(|&s| up(s));
    }
    assert(info.max_nulling_symbol() == max, "the largest eliminated symbol is another one");
    assert(info.external_origin(n as u32 + any_u32() % 1000).is_none(), "a position outside the grammar has an action");
    assert(gr.nulling(n as u32 + 1).is_none(), "a position outside the grammar lacks a symbol");
    // Every rule begins with one symbol, at which it is completed.
    let total = gr.num_syms() + gr.num_gensyms();
    let mut rhs0: Vec<Option<Symbol>> = vec![None; n];
    for s in 0..total {
        let sym = Symbol::from(s as u32);
        let all: Vec<PredictionTransition> = if s < gr.num_syms() {
            gr.completions(sym).to_vec()
        } else {
            gr.gen_completion(sym).iter().flatten().copied().collect()
        };
        let mut unary = false;
        for t in all {
            let k = t.dot as usize;
            assert(k < n && rhs0[k].is_none(), "a rule is completed at two symbols");
            rhs0[k] = Some(sym);
            assert(t.is_unary == gr.get_rhs1(t.dot).is_none(), "a completion of a rule with one symbol has two, or the reverse");
            assert(s >= gr.num_syms() || !unary || t.is_unary, "a completion with two symbols comes after one with one");
            unary = t.is_unary;
            // What is predicted for it.
            let mut lhs = gr.get_lhs(t.dot);
            if lhs.usize() < gr.num_syms() {
                assert(t.symbol == lhs, "a completion is to be predicted by another symbol");
            } else {
                // The symbol of the rule that the helper begins.
                for _ in 0..8 {
                    if lhs.usize() < gr.num_syms() {
                        break;
                    }
                    let up = (0..n).find(|&j| gr.gen_completion(lhs).iter().flatten().any(|x| x.dot as usize == j));
                    assert(up.is_some(), "a helper symbol begins no rule");
                    lhs = gr.get_lhs(up.unwrap() as u32);
                }
                assert(t.symbol == lhs, "a helper's completion is to be predicted by another symbol");
                cover("helper");
            }
        }
    }
    assert(rhs0.iter().all(|r| r.is_some()), "a rule is completed at no symbol");
    let rules = Rules { gr: &gr, g: &g, info, rhs0: rhs0.into_iter().flatten().collect() };
    let mut used = vec![false; g.rules.len()];
    for k in 0..n {
        let lhs = gr.get_lhs(k as u32);
        let id = rules.info.eval[k];
        match rules.user(lhs) {
            Some(u) => {
                assert(!id.is_null(), "a rule of the user's symbol has no action");
                let r = &g.rules[id.id as usize];
                assert(r.0 == u, "a rule has the action of another symbol's");
                assert(r.1 == rules.rhs(k, 0), "a rule has another right-hand side than the user's");
                used[id.id as usize] = true;
            }
            None => {
                assert(id.is_null(), "a helper rule has an action");
                if lhs == gr.start_sym() {
                    assert(rules.rhs(k, 0).contains(&0), "the root is not made of the start symbol");
                }
            }
        }
    }
    // Every symbol of a large grammar can read something.
    let solid = if g.num() > 60 { None } else { Some(crate::solid(&g)) };
    for (i, (_, r)) in g.rules.iter().enumerate() {
        // Rules that can read something.
        if r.iter().any(|s| solid.is_none_or(|m| m >> s & 1 != 0)) {
            assert(used[i], "a rule of the user's is nowhere");
        }
    }
    cover("rules put together");
}

fn bits(v: &mut Vec<u32>, s: &BitSlice) {
    for b in s.iter_blocks() {
        let b = *b as u64;
        v.push(b as u32);
        v.push((b >> 32) as u32);
    }
    v.push(END);
}
fn sym(v: &mut Vec<u32>, s: Option<Symbol>) {
    v.push(s.map_or(!0, |s| s.usize() as u32));
}
fn origin(v: &mut Vec<u32>, o: ExternalOrigin) {
    v.push(o.id);
}
fn nulling(v: &mut Vec<u32>, n: NullingEliminated) {
    sym(v, n.map(|n| n.0));
    v.push(n.map_or(2, |n| n.1 as u32));
}
fn transition(v: &mut Vec<u32>, t: Option<PredictionTransition>) {
    sym(v, t.map(|t| t.symbol));
    v.push(t.map_or(!0, |t| t.dot));
    v.push(t.map_or(2, |t| t.is_unary as u32));
}
const END: u32 = 0x7fff_fff7;

/// Every answer a grammar gives. `external`: how many symbols the user has.
fn dump<G: Grammar>(g: G, external: usize) -> Vec<u32> {
    let mut v = Vec::new();
    let n = g.num_syms();
    let at = |s: usize| Symbol::from(s as u32);
    v.extend([n as u32, g.num_gensyms() as u32, g.num_rules() as u32, g.has_trivial_derivation() as u32, g.dot_before_eof()]);
    for s in [g.sof(), g.eof(), g.start_sym(), g.externalized_start_sym(), g.useless_symbol()] {
        sym(&mut v, Some(s));
    }
    for s in 0..n {
        bits(&mut v, g.lhs_lr_set(at(s)));
        bits(&mut v, g.prediction_row(at(s)));
        for &t in g.completions(at(s)) {
            transition(&mut v, Some(t));
        }
        v.push(END);
    }
    for s in n..n + g.num_gensyms() {
        g.gen_completion(at(s)).into_iter().for_each(|t| transition(&mut v, t));
    }
    for s in 0..n + g.num_gensyms() {
        sym(&mut v, Some(g.to_external(at(s))));
    }
    for s in 0..external {
        sym(&mut v, g.to_internal(at(s)));
    }
    for d in 0..g.num_rules() as u32 {
        sym(&mut v, Some(g.get_lhs(d)));
        sym(&mut v, g.get_rhs1(d));
        sym(&mut v, Some(g.rhs1_or_lhs(d)));
        if g.rhs1_or_lhs(d).usize() < n {
            bits(&mut v, g.lookahead_set(d));
        }
        origin(&mut v, g.external_origin(d));
        nulling(&mut v, g.nulling(d));
    }
    g.rhs1().iter().for_each(|&s| sym(&mut v, s));
    v.push(END);
    for e in [g.events().0, g.events().1] {
        for (id, d) in e {
            v.extend([id.id, d.distance]);
        }
        v.push(END);
    }
    for column in g.trace() {
        for t in column {
            v.extend([t.id, t.pos]);
        }
        v.push(END);
    }
    g.eliminated_nulling_intermediate().iter().flatten().for_each(|&s| sym(&mut v, Some(s)));
    let i = g.forest_info();
    i.eval.iter().for_each(|&o| origin(&mut v, o));
    v.push(END);
    i.nulling_intermediate_rules.iter().flatten().for_each(|&s| sym(&mut v, Some(s)));
    v.push(END);
    i.nulling_eliminated.iter().for_each(|&o| nulling(&mut v, o));
    [i.sof, i.eof, i.start].into_iter().for_each(|s| sym(&mut v, Some(s)));
    v
}
fn equal(a: &[u32], b: &[u32], what: &str) {
    assert(a.len() == b.len(), what);
    let mut eq = true;
    for (x, y) in a.iter().zip(b) {
        eq &= x == y;
    }
    assert(eq, what);
}

/// A grammar read back from JSON answers as the original, and parses as it.
pub fn json(mut g: Gram, serde: bool, events: bool, max: usize) {
    let evs: Vec<Vec<_>> = g
        .rules
        .iter()
        .enumerate()
        .map(|(i, (_, r))| (0..=r.len()).map(|k| (EventId { id: (i * 5 + k) as u32 }, MinimalDistance { distance: (i * 3 + k * 2) as u32 })).collect())
        .collect();
    let gr = DefaultGrammar::from_grammar(g.cfg_with(any_bool(), if events { Some(&evs) } else { None }));
    let copy: DefaultGrammar = if serde {
        let text = serde_json::to_string(&gr).unwrap();
        serde_json::from_str(&text).unwrap()
    } else {
        let text = miniserde::json::to_string(&gr);
        match miniserde::json::from_str(&text) {
            Ok(c) => c,
            Err(_) => {
                assert(false, "a grammar's JSON is refused");
                return;
            }
        }
    };
    let n = g.num();
    equal(&dump(&gr, n), &dump(&copy, n), "a grammar read back from JSON answers differently");
    cover("read back");
    // And it parses the same.
    let mut re = Ref::new(&g);
    let used = g.used();
    let mut rec = Recognizer::with_forest(&copy, simple_bocage::Bocage::new(&copy));
    start(&mut rec);
    let mut vals = Vec::new();
    for _ in 0..max {
        let t = g.sym_token(&used);
        let v = any_u32();
        let ok = re.token(t);
        assert(step(&mut rec, &g, t, v) == ok, "a grammar read back from JSON fails elsewhere");
        if !ok {
            return;
        }
        vals.push(v);
        assert(rec.is_finished() == re.accepts(), "a grammar read back from JSON accepts another language");
    }
    if let Some(node) = rec.finished_node() {
        let want = trees(&re, &vals, 0, 0, max);
        same(rec.into_forest().evaluate(Eval { gr: &copy, g: &g }, node), want);
        cover("evaluated");
    }
}

/// By value, by reference, by reference to a reference.
pub fn reference(mut g: Gram, max: usize) {
    let gr = g.build(any_bool());
    let n = g.num();
    let own = dump(gr.clone(), n);
    equal(&own, &dump(&gr, n), "a reference to a grammar answers differently");
    equal(&own, &dump(&&gr, n), "a reference to a reference to a grammar answers differently");
    cover("compared");
    let used = g.used();
    let mut a = Recognizer::new(gr.clone());
    let mut b = Recognizer::new(&gr);
    let by_ref = &gr;
    let mut c = Recognizer::new(&by_ref);
    start(&mut a);
    start(&mut b);
    start(&mut c);
    for _ in 0..max {
        let t = g.sym_token(&used);
        let s = g.internal(&gr, t);
        a.begin_earleme();
        b.begin_earleme();
        c.begin_earleme();
        assert(a.predicted_symbols().eq(b.predicted_symbols()) && a.predicted_symbols().eq(c.predicted_symbols()), "owning its grammar changes what a recognizer predicts");
        a.scan(s, 0);
        b.scan(s, 0);
        c.scan(s, 0);
        let ok = a.end_earleme();
        assert(b.end_earleme() == ok && c.end_earleme() == ok, "owning its grammar changes where a recognizer fails");
        assert(a.is_finished() == b.is_finished() && a.is_finished() == c.is_finished(), "owning its grammar changes acceptance");
        if !ok {
            break;
        }
    }
}

/// A grammar with an arbitrary answer to everything.
#[derive(Clone)]
struct Fake {
    syms: [Symbol; 12],
    nums: [u32; 12],
    bits: [bit_matrix::BitMatrix; 3],
    events: (Vec<EventAndDistance>, Vec<EventAndDistance>),
    trace: [Vec<ExternalDottedRule>; 3],
    rhs1: Vec<Option<Symbol>>,
    inter: Vec<NullingIntermediateRule>,
    completions: Vec<Vec<PredictionTransition>>,
    flags: [bool; 3],
}
impl Fake {
    fn any() -> Fake {
        let sym = || Symbol::from(any_u32() & 0xffff);
        let ev = || (EventId { id: any_u32() }, MinimalDistance { distance: any_u32() });
        let tr = || ExternalDottedRule { id: any_u32(), pos: any_u32() };
        let pt = || PredictionTransition { symbol: sym(), dot: any_u32(), is_unary: any_u32() & 1 == 1 };
        let mut k = 0;
        let mut matrix = || {
            k += 1;
            let mut m = bit_matrix::BitMatrix::new(2, 8);
            (0..8).for_each(|i| m.set(i % 2, i, (i + k) % 3 == 0));
            m
        };
        Fake {
            syms: std::array::from_fn(|_| sym()),
            nums: std::array::from_fn(|_| any_u32()),
            bits: [matrix(), matrix(), matrix()],
            events: (vec![ev()], vec![ev(), ev()]),
            trace: [vec![tr()], vec![tr(), tr()], vec![tr()]],
            rhs1: vec![Some(sym()), None],
            inter: vec![[sym(), sym(), sym()]],
            completions: vec![vec![pt()], vec![pt(), pt()], vec![pt()]],
            flags: [any_u32() & 1 == 1, any_u32() & 1 == 1, any_u32() & 1 == 1],
        }
    }
    fn add(&self, k: usize, s: Symbol) -> Symbol {
        Symbol::from((self.syms[k].usize() as u32) ^ s.usize() as u32)
    }
}
impl Grammar for Fake {
    fn sof(&self) -> Symbol {
        self.syms[0]
    }
    fn eof(&self) -> Symbol {
        self.syms[1]
    }
    fn lhs_lr_set(&self, s: Symbol) -> &BitSlice {
        &self.bits[0][s.usize()]
    }
    fn lookahead_set(&self, d: u32) -> &BitSlice {
        &self.bits[1][d as usize]
    }
    fn rhs1_or_lhs(&self, d: u32) -> Symbol {
        self.add(2, Symbol::from(d))
    }
    fn prediction_row(&self, s: Symbol) -> &BitSlice {
        &self.bits[2][s.usize()]
    }
    fn num_syms(&self) -> usize {
        self.nums[0] as usize
    }
    fn num_gensyms(&self) -> usize {
        self.nums[1] as usize
    }
    fn num_rules(&self) -> usize {
        self.nums[2] as usize
    }
    fn start_sym(&self) -> Symbol {
        self.syms[3]
    }
    fn externalized_start_sym(&self) -> Symbol {
        self.syms[4]
    }
    fn has_trivial_derivation(&self) -> bool {
        self.flags[0]
    }
    fn nulling(&self, pos: u32) -> NullingEliminated {
        if self.flags[1] { Some((self.add(5, Symbol::from(pos)), self.flags[2])) } else { None }
    }
    fn events(&self) -> (&[EventAndDistance], &[EventAndDistance]) {
        (&self.events.0, &self.events.1)
    }
    fn trace(&self) -> [&[ExternalDottedRule]; 3] {
        [&self.trace[0], &self.trace[1], &self.trace[2]]
    }
    fn get_rhs1(&self, d: u32) -> Option<Symbol> {
        Some(self.add(6, Symbol::from(d)))
    }
    fn rhs1(&self) -> &[Option<Symbol>] {
        &self.rhs1
    }
    fn get_lhs(&self, d: u32) -> Symbol {
        self.add(7, Symbol::from(d))
    }
    fn external_origin(&self, d: u32) -> ExternalOrigin {
        ExternalOrigin { id: self.nums[3] ^ d }
    }
    fn eliminated_nulling_intermediate(&self) -> &[NullingIntermediateRule] {
        &self.inter
    }
    fn completions(&self, s: Symbol) -> &[PredictionTransition] {
        &self.completions[s.usize()]
    }
    fn gen_completion(&self, s: Symbol) -> [Option<PredictionTransition>; 2] {
        [Some(self.completions[s.usize()][0]), None]
    }
    fn to_internal(&self, s: Symbol) -> Option<Symbol> {
        Some(self.add(8, s))
    }
    fn to_external(&self, s: Symbol) -> Symbol {
        self.add(9, s)
    }
    fn dot_before_eof(&self) -> u32 {
        self.nums[4]
    }
    fn useless_symbol(&self) -> Symbol {
        self.syms[10]
    }
    fn forest_info(&self) -> ForestInfo {
        ForestInfo {
            eval: vec![ExternalOrigin { id: self.nums[5] }],
            nulling_intermediate_rules: self.inter.clone(),
            nulling_eliminated: vec![Some((self.syms[5], self.flags[2]))],
            sof: self.syms[0],
            eof: self.syms[1],
            start: self.syms[11],
        }
    }
}
/// Each answer of a grammar, at any of a few arguments.
fn ask<G: Grammar>(g: G, s: u32, d: u32) -> Vec<u32> {
    let mut v = Vec::new();
    let at = Symbol::from(s);
    for x in [g.sof(), g.eof(), g.start_sym(), g.externalized_start_sym(), g.useless_symbol(), g.to_external(at), g.get_lhs(d), g.rhs1_or_lhs(d)] {
        sym(&mut v, Some(x));
    }
    sym(&mut v, g.to_internal(at));
    sym(&mut v, g.get_rhs1(d));
    bits(&mut v, g.lhs_lr_set(at));
    bits(&mut v, g.prediction_row(at));
    bits(&mut v, g.lookahead_set(d));
    v.extend([g.num_syms() as u32, g.num_gensyms() as u32, g.num_rules() as u32, g.has_trivial_derivation() as u32, g.dot_before_eof()]);
    nulling(&mut v, g.nulling(d));
    for e in [g.events().0, g.events().1] {
        e.iter().for_each(|(id, d)| v.extend([id.id, d.distance]));
        v.push(END);
    }
    for c in g.trace() {
        c.iter().for_each(|t| v.extend([t.id, t.pos]));
        v.push(END);
    }
    g.rhs1().iter().for_each(|&s| sym(&mut v, s));
    origin(&mut v, g.external_origin(d));
    g.eliminated_nulling_intermediate().iter().flatten().for_each(|&s| sym(&mut v, Some(s)));
    g.completions(at).iter().for_each(|&t| transition(&mut v, Some(t)));
    v.push(END);
    g.gen_completion(at).into_iter().for_each(|t| transition(&mut v, t));
    let i = g.forest_info();
    i.eval.iter().for_each(|&o| origin(&mut v, o));
    i.nulling_intermediate_rules.iter().flatten().for_each(|&s| sym(&mut v, Some(s)));
    i.nulling_eliminated.iter().for_each(|&o| nulling(&mut v, o));
    [i.sof, i.eof, i.start].into_iter().for_each(|s| sym(&mut v, Some(s)));
    v
}
pub fn reference_any() {
    let f = Fake::any();
    let (s, d) = (pick(0, 1) as u32, pick(0, 1) as u32);
    let own = ask(f.clone(), s, d);
    equal(&own, &ask(&f, s, d), "a reference to a grammar answers differently");
    equal(&own, &ask(&&f, s, d), "a reference to a reference to a grammar answers differently");
    out(own.len() as u64);
    cover("asked");
}
