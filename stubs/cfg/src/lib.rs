//! Stand-in for the `cfg` crate (not available offline): context-free grammars, binarization and elimination of
//! nulling rules, with the contract gearley relies on. See DESIGN.md, "Stand-ins".
use std::collections::{BTreeMap, BTreeSet};

pub use cfg_history as history;
pub use cfg_symbol::{intern, Symbol, SymbolName, SymbolPrimitive, SymbolSource};
use history::earley::{EventAndDistance, EventId, ExternalDottedRule, ExternalOrigin, MinimalDistance, NullingEliminated};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct RuleDot {
    pub event: EventId,
    pub distance: MinimalDistance,
    pub trace: ExternalDottedRule,
}
impl RuleDot {
    pub fn null() -> Self {
        RuleDot { event: EventId::null(), distance: MinimalDistance::null(), trace: ExternalDottedRule::null() }
    }
    pub fn event_and_distance(self) -> EventAndDistance {
        (self.event, self.distance)
    }
    pub fn trace(self) -> ExternalDottedRule {
        self.trace
    }
}

#[derive(Clone, Debug)]
pub struct RuleHistory {
    origin: ExternalOrigin,
    nullable: NullingEliminated,
    dots: Vec<Option<RuleDot>>,
}
impl RuleHistory {
    pub fn origin(&self) -> ExternalOrigin {
        self.origin
    }
    pub fn nullable(&self) -> NullingEliminated {
        self.nullable
    }
    pub fn dot(&self, n: usize) -> Option<RuleDot> {
        self.dots.get(n).copied().flatten()
    }
}

#[derive(Clone, Debug)]
pub struct CfgRule {
    pub lhs: Symbol,
    pub rhs: Vec<Symbol>,
    pub history: RuleHistory,
}
impl CfgRule {
    pub fn lhs(&self) -> Symbol {
        self.lhs
    }
    pub fn rhs(&self) -> &[Symbol] {
        &self.rhs
    }
}

#[derive(Clone, Copy, Debug)]
pub struct WrappedRoot {
    pub root: Symbol,
    pub start_of_input: Symbol,
    pub inner_root: Symbol,
    pub end_of_input: Symbol,
}

#[derive(Clone, Copy, Debug)]
pub struct ColumnDot {
    pub lhs: Symbol,
    pub predot: Option<Symbol>,
    pub postdot: Option<Symbol>,
    pub earley: Option<RuleDot>,
}

#[derive(Clone, Debug, Default)]
pub struct Cfg {
    sym_source: SymbolSource,
    rules: Vec<CfgRule>,
    roots: Vec<Symbol>,
    wrapped: Vec<WrappedRoot>,
    nulling: BTreeSet<Symbol>,
    user_rules: u32,
}

pub struct RuleBuilder<'a> {
    cfg: &'a mut Cfg,
    lhs: Symbol,
}
impl<'a> RuleBuilder<'a> {
    pub fn rhs(self, rhs: impl AsRef<[Symbol]>) -> Self {
        let n = rhs.as_ref().len();
        self.rhs_with_events(rhs, &vec![(EventId::null(), MinimalDistance::null()); n + 1])
    }
    /// A rule with an event at each of its dots.
    pub fn rhs_with_events(self, rhs: impl AsRef<[Symbol]>, events: &[EventAndDistance]) -> Self {
        let rhs = rhs.as_ref();
        assert_eq!(events.len(), rhs.len() + 1);
        let id = self.cfg.user_rules;
        self.cfg.user_rules += 1;
        let dots = events
            .iter()
            .enumerate()
            .map(|(pos, &(event, distance))| Some(RuleDot { event, distance, trace: ExternalDottedRule { id, pos: pos as u32 } }))
            .collect();
        self.cfg.rules.push(CfgRule {
            lhs: self.lhs,
            rhs: rhs.to_vec(),
            history: RuleHistory { origin: ExternalOrigin { id }, nullable: None, dots },
        });
        self
    }
    pub fn rule(self, lhs: Symbol) -> Self {
        RuleBuilder { cfg: self.cfg, lhs }
    }
}

impl Cfg {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn sym<const N: usize>(&mut self) -> [Symbol; N] {
        std::array::from_fn(|_| self.sym_source.next_sym(None))
    }
    pub fn next_sym(&mut self, name: Option<SymbolName>) -> Symbol {
        self.sym_source.next_sym(name)
    }
    pub fn rule(&mut self, lhs: Symbol) -> RuleBuilder<'_> {
        RuleBuilder { cfg: self, lhs }
    }
    pub fn set_roots(&mut self, roots: impl AsRef<[Symbol]>) {
        self.roots = roots.as_ref().to_vec();
    }
    pub fn roots(&self) -> &[Symbol] {
        &self.roots
    }
    pub fn wrapped_roots(&self) -> &[WrappedRoot] {
        &self.wrapped
    }
    pub fn num_syms(&self) -> usize {
        self.sym_source.num_syms()
    }
    pub fn sym_source(&self) -> &SymbolSource {
        &self.sym_source
    }
    pub fn rules(&self) -> std::slice::Iter<'_, CfgRule> {
        self.rules.iter()
    }
    pub fn is_empty(&self) -> bool {
        self.rules.is_empty()
    }
    pub fn sort_by(&mut self, f: impl FnMut(&CfgRule, &CfgRule) -> std::cmp::Ordering) {
        self.rules.sort_by(f);
    }
    pub fn column(&self, n: usize) -> impl Iterator<Item = ColumnDot> + '_ {
        self.rules.iter().map(move |r| ColumnDot {
            lhs: r.lhs,
            predot: if n == 0 { Some(r.lhs) } else { r.rhs.get(n - 1).copied() },
            postdot: r.rhs.get(n).copied(),
            earley: r.history.dot(n),
        })
    }
    pub fn stringify_to_bnf(&self) -> String {
        format!("{:?}", self.rules)
    }

    /// Removes the rules that no sentence uses.
    pub fn make_proper(&mut self) -> bool {
        let n = self.num_syms();
        let mut has_rule = vec![false; n];
        for r in &self.rules {
            has_rule[r.lhs.usize()] = true;
        }
        let mut productive: Vec<bool> = has_rule.iter().map(|h| !h).collect();
        loop {
            let mut changed = false;
            for r in &self.rules {
                if !productive[r.lhs.usize()] && r.rhs.iter().all(|s| productive[s.usize()]) {
                    productive[r.lhs.usize()] = true;
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        let before = self.rules.len();
        self.rules.retain(|r| r.rhs.iter().all(|s| productive[s.usize()]));
        let mut reached = vec![false; n];
        let mut todo = self.roots.clone();
        while let Some(s) = todo.pop() {
            if !reached[s.usize()] {
                reached[s.usize()] = true;
                for r in &self.rules {
                    if r.lhs == s {
                        todo.extend(r.rhs.iter().copied());
                    }
                }
            }
        }
        self.rules.retain(|r| reached[r.lhs.usize()]);
        before == self.rules.len()
    }

    /// root ::= start-of-input inner end-of-input.
    pub fn wrap_input(&mut self) {
        assert_eq!(self.roots.len(), 1);
        let inner_root = self.roots[0];
        let [root, start_of_input, end_of_input] = self.sym();
        self.wrapped = vec![WrappedRoot { root, start_of_input, inner_root, end_of_input }];
        self.rules.push(CfgRule {
            lhs: root,
            rhs: vec![start_of_input, inner_root, end_of_input],
            history: RuleHistory { origin: ExternalOrigin::null(), nullable: None, dots: vec![Some(RuleDot::null()); 4] },
        });
        self.roots = vec![root];
    }

    /// Every rule gets at most two symbols on its right-hand side, then rules deriving nothing are split off.
    pub fn binarize_and_eliminate_nulling_rules(&mut self) -> Cfg {
        let mut binary: Vec<CfgRule> = Vec::new();
        for r in std::mem::take(&mut self.rules) {
            let n = r.rhs.len();
            if n <= 2 {
                let mut r = r;
                let last = r.history.dots[n];
                r.history.dots.resize(3, last);
                binary.push(r);
                continue;
            }
            let mut left = r.rhs[0];
            for i in 1..n - 1 {
                let [g] = self.sym();
                let d = &r.history.dots;
                binary.push(CfgRule {
                    lhs: g,
                    rhs: vec![left, r.rhs[i]],
                    history: RuleHistory { origin: ExternalOrigin::null(), nullable: None, dots: vec![None, d[i], d[i + 1]] },
                });
                left = g;
            }
            let d = &r.history.dots;
            binary.push(CfgRule {
                lhs: r.lhs,
                rhs: vec![left, r.rhs[n - 1]],
                history: RuleHistory { origin: r.history.origin, nullable: None, dots: vec![d[0], d[n - 1], d[n]] },
            });
        }
        let n = self.num_syms();
        let mut nullable = vec![false; n];
        loop {
            let mut changed = false;
            for r in &binary {
                if !nullable[r.lhs.usize()] && r.rhs.iter().all(|s| nullable[s.usize()]) {
                    nullable[r.lhs.usize()] = true;
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        let nulling_rules: Vec<CfgRule> = binary.iter().filter(|r| r.rhs.iter().all(|s| nullable[s.usize()])).cloned().collect();
        // Symbols that derive something else than nothing.
        let mut some = vec![true; n];
        for r in &binary {
            some[r.lhs.usize()] = false;
        }
        loop {
            let mut changed = false;
            for r in &binary {
                let ok = r.rhs.iter().all(|s| nullable[s.usize()] || some[s.usize()]) && r.rhs.iter().any(|s| some[s.usize()]);
                if ok && !some[r.lhs.usize()] {
                    some[r.lhs.usize()] = true;
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        for r in binary {
            let d = &r.history.dots;
            let drop = |rhs: Symbol, nullable: NullingEliminated| CfgRule {
                lhs: r.lhs,
                rhs: vec![rhs],
                history: RuleHistory { origin: r.history.origin, nullable, dots: vec![d[0], d[2], d[2]] },
            };
            match r.rhs[..] {
                [] => {}
                [a] => {
                    if some[a.usize()] {
                        self.rules.push(r);
                    }
                }
                [a, b] => {
                    let (sa, sb) = (some[a.usize()], some[b.usize()]);
                    let left = (sa && nullable[b.usize()]).then(|| drop(a, Some((b, true))));
                    let right = (sb && nullable[a.usize()]).then(|| drop(b, Some((a, false))));
                    if sa && sb {
                        self.rules.push(r);
                    }
                    self.rules.extend(left);
                    self.rules.extend(right);
                }
                _ => unreachable!(),
            }
        }
        for r in &nulling_rules {
            self.nulling.insert(r.lhs);
            self.nulling.extend(r.rhs.iter().copied());
        }
        Cfg { sym_source: self.sym_source.clone(), rules: nulling_rules, roots: self.roots.clone(), ..Cfg::default() }
    }
}

#[derive(Clone, Debug)]
pub struct SymbolBitSet {
    bits: bit_vec::BitVec,
}
impl SymbolBitSet {
    pub fn from_elem(grammar: &Cfg, elem: bool) -> Self {
        SymbolBitSet { bits: bit_vec::BitVec::from_elem(grammar.num_syms(), elem) }
    }
    pub fn set(&mut self, s: Symbol, on: bool) {
        self.bits.set(s.usize(), on);
    }
    pub fn has(&self, s: Symbol) -> bool {
        self.bits[s.usize()]
    }
    pub fn negate(&mut self) {
        self.bits.negate();
    }
    pub fn iter(&self) -> impl Iterator<Item = Symbol> + '_ {
        SymbolSource::generate_fresh().zip(self.bits.iter()).filter(|x| x.1).map(|x| x.0)
    }
    pub fn bit_vec(&self) -> &bit_vec::BitVec {
        &self.bits
    }
}

pub mod classify {
    pub trait CfgClassifyExt {}
    impl CfgClassifyExt for super::Cfg {}
}

pub mod predict_sets {
    use super::*;
    pub type PerSymbolSets = BTreeMap<Symbol, BTreeSet<Symbol>>;
    pub trait PredictSets {
        fn predict_sets(&self) -> &PerSymbolSets;
    }
    /// The terminals a symbol's non-empty derivations begin with (the grammar has no nulling rules).
    pub struct FirstSets(PerSymbolSets);
    impl FirstSets {
        pub fn new(grammar: &Cfg) -> Self {
            let lhs: BTreeSet<Symbol> = grammar.rules().map(|r| r.lhs).collect();
            let mut m = PerSymbolSets::new();
            for r in grammar.rules() {
                for &s in &r.rhs {
                    if !lhs.contains(&s) {
                        m.entry(s).or_default().insert(s);
                    }
                }
            }
            closure(&mut m, &grammar.rules().map(|r| (r.lhs, r.rhs[0])).collect::<Vec<_>>());
            FirstSets(m)
        }
    }
    impl PredictSets for FirstSets {
        fn predict_sets(&self) -> &PerSymbolSets {
            &self.0
        }
    }
    /// The terminals that may come right after a symbol.
    pub struct FollowSets(PerSymbolSets);
    impl FollowSets {
        pub fn new(grammar: &Cfg, first: &PerSymbolSets) -> Self {
            let mut m = PerSymbolSets::new();
            for r in grammar.rules() {
                if let Some(f) = r.rhs.get(1).and_then(|s| first.get(s)) {
                    m.entry(r.rhs[0]).or_default().extend(f.iter().copied());
                }
            }
            closure(&mut m, &grammar.rules().map(|r| (*r.rhs.last().unwrap(), r.lhs)).collect::<Vec<_>>());
            FollowSets(m)
        }
    }
    impl PredictSets for FollowSets {
        fn predict_sets(&self) -> &PerSymbolSets {
            &self.0
        }
    }
    fn closure(m: &mut PerSymbolSets, edges: &[(Symbol, Symbol)]) {
        loop {
            let mut changed = false;
            for &(to, from) in edges {
                if to != from {
                    if let Some(f) = m.get(&from).cloned() {
                        let t = m.entry(to).or_default();
                        for s in f {
                            changed |= t.insert(s);
                        }
                    }
                }
            }
            if !changed {
                break;
            }
        }
    }
}

pub mod symbol_bit_matrix {
    use super::*;
    use bit_matrix::BitMatrix;
    use std::cmp::Ordering;
    use std::ops::{Deref, DerefMut};

    #[derive(Clone, Debug)]
    pub struct SymbolBitMatrix(BitMatrix);
    impl Deref for SymbolBitMatrix {
        type Target = BitMatrix;
        fn deref(&self) -> &BitMatrix {
            &self.0
        }
    }
    impl DerefMut for SymbolBitMatrix {
        fn deref_mut(&mut self) -> &mut BitMatrix {
            &mut self.0
        }
    }
    pub trait CfgSymbolBitMatrixExt {
        fn empty_matrix(&self) -> SymbolBitMatrix;
    }
    impl CfgSymbolBitMatrixExt for Cfg {
        fn empty_matrix(&self) -> SymbolBitMatrix {
            SymbolBitMatrix(BitMatrix::new(self.num_syms(), self.num_syms()))
        }
    }

    /// Renumbers the symbols of a grammar.
    pub struct Remap<'a> {
        cfg: &'a mut Cfg,
        /// New order: old symbols.
        order: Vec<Symbol>,
        total: usize,
    }
    impl<'a> Remap<'a> {
        pub fn new(cfg: &'a mut Cfg) -> Self {
            let total = cfg.num_syms();
            Remap { order: cfg.sym_source.generate().collect(), cfg, total }
        }
        /// A linear extension of the partial order, otherwise keeping the current order.
        pub fn reorder_symbols(&mut self, f: impl Fn(Symbol, Symbol) -> Ordering) {
            let n = self.order.len();
            let mut before = vec![0usize; n];
            for i in 0..n {
                for j in 0..n {
                    if i != j && f(self.order[j], self.order[i]) == Ordering::Less {
                        before[i] += 1;
                    }
                }
            }
            let mut placed = vec![false; n];
            let mut out = Vec::with_capacity(n);
            while out.len() < n {
                let next = (0..n).filter(|&i| !placed[i]).min_by_key(|&i| (before[i] != 0, i)).unwrap();
                placed[next] = true;
                let s = self.order[next];
                out.push(s);
                for i in 0..n {
                    if !placed[i] && f(s, self.order[i]) == Ordering::Less {
                        before[i] -= 1;
                    }
                }
            }
            self.order = out;
        }
        pub fn remove_unused_symbols(&mut self) {
            let mut used = self.cfg.nulling.clone();
            for r in &self.cfg.rules {
                used.insert(r.lhs);
                used.extend(r.rhs.iter().copied());
                used.extend(r.history.nullable.map(|n| n.0));
            }
            for w in &self.cfg.wrapped {
                used.extend([w.root, w.start_of_input, w.inner_root, w.end_of_input]);
            }
            self.order.retain(|s| used.contains(s));
        }
        pub fn get_mapping(self) -> intern::Mapping {
            let mut to_internal = vec![None; self.total];
            for (new, &old) in SymbolSource::generate_fresh().zip(&self.order) {
                to_internal[old.usize()] = Some(new);
            }
            let m = |s: Symbol| to_internal[s.usize()].expect("a removed symbol is in use");
            let names = self.cfg.sym_source.names();
            self.cfg.sym_source.set_names(self.order.iter().map(|s| names[s.usize()].clone()).collect());
            for r in &mut self.cfg.rules {
                r.lhs = m(r.lhs);
                r.rhs.iter_mut().for_each(|s| *s = m(*s));
                r.history.nullable = r.history.nullable.map(|(s, d)| (m(s), d));
            }
            for w in &mut self.cfg.wrapped {
                for s in [&mut w.root, &mut w.start_of_input, &mut w.inner_root, &mut w.end_of_input] {
                    *s = m(*s);
                }
            }
            self.cfg.roots.iter_mut().for_each(|s| *s = m(*s));
            self.cfg.nulling = self.cfg.nulling.iter().map(|&s| m(s)).collect();
            intern::Mapping { to_internal, to_external: self.order }
        }
    }
}
