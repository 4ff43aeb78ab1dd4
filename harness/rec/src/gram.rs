//! Grammars chosen by the solver, and reference answers computed from their rules.
use cfg::history::earley::{EventId, MinimalDistance};
use cfg::{Cfg, Symbol};
use gearley_default_grammar::DefaultGrammar;
use gearley_grammar::Grammar;
use vs::{any_bool, assume};

/// Symbols `0..nts` are nonterminals (0: start), the others terminals.
pub struct Gram {
    pub nts: usize,
    pub ts: usize,
    pub rules: Vec<(usize, Vec<usize>)>,
    /// Rules that no sentence uses; they come after the others.
    pub useless: Vec<(usize, Vec<usize>)>,
    /// Symbol number -> external symbol.
    pub syms: Vec<Symbol>,
}
/// One rule of a pool: left-hand side then right-hand side, as characters. Upper case: nonterminals, S the start.
pub struct Pool {
    pub nts: &'static str,
    pub ts: &'static str,
    /// Always there.
    pub base: &'static [&'static str],
    /// Any subset of these.
    pub opt: &'static [&'static str],
}

impl Pool {
    fn sym(&self, c: char) -> usize {
        self.nts.find(c).unwrap_or_else(|| self.nts.len() + self.ts.find(c).unwrap())
    }
    fn rule(&self, s: &str) -> (usize, Vec<usize>) {
        let mut v: Vec<usize> = s.chars().map(|c| self.sym(c)).collect();
        let lhs = v.remove(0);
        (lhs, v)
    }
    /// Any useful, cycle-free grammar of the pool.
    pub fn any(&self) -> Gram {
        let g = self.subset();
        assume(g.is_proper() && !g.used().is_empty());
        assume(!g.is_cyclic());
        g
    }
    /// Any cycle-free grammar of the pool, rules that no sentence uses included.
    pub fn any_useless(&self) -> Gram {
        let mut g = self.subset();
        // A symbol without rules would be a terminal.
        assume(g.rules.iter().all(|(_, r)| r.iter().all(|&s| !g.is_nt(s) || g.rules.iter().any(|x| x.0 == s))));
        let (prod, reach) = g.useful();
        assume(prod & 1 != 0);
        let ok = |(l, r): &(usize, Vec<usize>)| reach >> l & 1 != 0 && r.iter().all(|s| prod >> s & 1 != 0);
        let (rules, useless) = std::mem::take(&mut g.rules).into_iter().partition(ok);
        g.rules = rules;
        g.useless = useless;
        assume(!g.useless.is_empty() && !g.used().is_empty() && !g.is_cyclic());
        g
    }
    fn subset(&self) -> Gram {
        let mut g = Gram { nts: self.nts.len(), ts: self.ts.len(), rules: Vec::new(), useless: Vec::new(), syms: Vec::new() };
        for r in self.base {
            g.rules.push(self.rule(r));
        }
        for r in self.opt {
            if any_bool() {
                g.rules.push(self.rule(r));
            }
        }
        g
    }
}

impl Gram {
    pub fn num(&self) -> usize {
        self.nts + self.ts
    }
    pub fn is_nt(&self, s: usize) -> bool {
        s < self.nts
    }
    /// Productive symbols, and symbols reachable through rules of productive symbols.
    fn useful(&self) -> (u64, u64) {
        let mut prod = !0u64 << self.nts;
        let mut reach = 1u64;
        loop {
            let old = (prod, reach);
            for (l, r) in &self.rules {
                if r.iter().all(|s| prod >> s & 1 != 0) {
                    prod |= 1 << l;
                }
            }
            if prod == old.0 {
                for (l, r) in &self.rules {
                    if reach >> l & 1 != 0 && r.iter().all(|s| prod >> s & 1 != 0) {
                        r.iter().for_each(|s| reach |= 1 << s);
                    }
                }
            }
            if (prod, reach) == old {
                return old;
            }
        }
    }
    /// Every rule is used by some sentence.
    fn is_proper(&self) -> bool {
        let (prod, reach) = self.useful();
        prod & 1 != 0 && self.rules.iter().all(|(l, r)| reach >> l & 1 != 0 && r.iter().all(|s| prod >> s & 1 != 0))
    }
    pub fn nullable(&self) -> u64 {
        let mut n = 0u64;
        loop {
            let old = n;
            for (l, r) in &self.rules {
                if r.iter().all(|s| n >> s & 1 != 0) {
                    n |= 1 << l;
                }
            }
            if n == old {
                return n;
            }
        }
    }
    /// Some symbol derives itself.
    fn is_cyclic(&self) -> bool {
        let n = self.nullable();
        let mut unit = vec![0u64; self.nts];
        for (l, r) in &self.rules {
            for (i, &s) in r.iter().enumerate() {
                if self.is_nt(s) && r.iter().enumerate().all(|(k, x)| k == i || n >> x & 1 != 0) {
                    unit[*l] |= 1 << s;
                }
            }
        }
        for k in 0..self.nts {
            for i in 0..self.nts {
                if unit[i] >> k & 1 != 0 {
                    unit[i] |= unit[k];
                }
            }
        }
        (0..self.nts).any(|i| unit[i] >> i & 1 != 0)
    }
    /// The grammar for gearley; `reversed`: symbols are declared in the opposite order.
    pub fn cfg(&mut self, reversed: bool) -> Cfg {
        self.make(reversed, None, &[])
    }
    /// With an event at each dot of each rule.
    pub fn cfg_with(&mut self, reversed: bool, events: Option<&[Vec<(EventId, MinimalDistance)>]>) -> Cfg {
        self.make(reversed, events, &[])
    }
    /// With names for the terminals.
    pub fn cfg_named(&mut self, reversed: bool, names: &[&'static str]) -> Cfg {
        self.make(reversed, None, names)
    }
    fn make(&mut self, reversed: bool, events: Option<&[Vec<(EventId, MinimalDistance)>]>, names: &[&'static str]) -> Cfg {
        let mut cfg = Cfg::new();
        let n = self.num();
        self.syms = vec![Symbol::default(); n];
        for i in 0..n {
            let at = if reversed { n - 1 - i } else { i };
            let name = at.checked_sub(self.nts).and_then(|t| names.get(t));
            self.syms[at] = cfg.next_sym(name.map(|&n| n.into()));
        }
        for (i, (l, r)) in self.rules.iter().chain(&self.useless).enumerate() {
            let rhs: Vec<Symbol> = r.iter().map(|&s| self.syms[s]).collect();
            match events {
                Some(e) => cfg.rule(self.syms[*l]).rhs_with_events(rhs, &e[i]),
                None => cfg.rule(self.syms[*l]).rhs(rhs),
            };
        }
        cfg.set_roots([self.syms[0]]);
        cfg
    }
    pub fn build(&mut self, reversed: bool) -> DefaultGrammar {
        DefaultGrammar::from_grammar(self.cfg(reversed))
    }
    /// Which terminals occur in the grammar.
    pub fn used(&self) -> Vec<usize> {
        (self.nts..self.num()).filter(|t| self.rules.iter().any(|(_, r)| r.contains(t))).collect()
    }
    /// One of the terminals, left symbolic: paths split only where the code looks at it.
    pub fn sym_token(&self, used: &[usize]) -> usize {
        vs::table_loads(true);
        let t = used[vs::range(0, used.len() as u64 - 1) as usize];
        vs::table_loads(false);
        t
    }
    pub fn internal(&self, g: &impl Grammar, s: usize) -> Symbol {
        g.to_internal(self.syms[s]).unwrap()
    }
}

/// Earley sets over the user's rules: for each end position and rule position, the set of origins.
pub struct Ref<'g> {
    pub g: &'g Gram,
    /// Start of each rule's positions.
    base: Vec<usize>,
    total: usize,
    pub sets: Vec<Vec<u32>>,
    /// The terminals read at each position.
    pub tokens: Vec<u64>,
    /// (position, symbol, origin) of a completion that is left out.
    pub skip: Vec<(usize, usize, usize)>,
}
impl<'g> Ref<'g> {
    pub fn new(g: &'g Gram) -> Self {
        let mut base = Vec::new();
        let mut total = 0;
        for (_, r) in &g.rules {
            base.push(total);
            total += r.len() + 1;
        }
        let mut s = Ref { g, base, total, sets: Vec::new(), tokens: Vec::new(), skip: Vec::new() };
        let mut first = vec![0; total];
        for (i, (l, _)) in g.rules.iter().enumerate() {
            if *l == 0 {
                first[s.base[i]] |= 1;
            }
        }
        s.close(first);
        s
    }
    fn close(&mut self, set: Vec<u32>) {
        self.sets.push(set);
        let j = self.sets.len() - 1;
        loop {
            let mut changed = false;
            for (i, (l, r)) in self.g.rules.iter().enumerate() {
                for d in 0..r.len() {
                    if self.sets[j][self.base[i] + d] != 0 && self.g.is_nt(r[d]) {
                        for (k, (l2, _)) in self.g.rules.iter().enumerate() {
                            if *l2 == r[d] && self.sets[j][self.base[k]] >> j & 1 == 0 {
                                self.sets[j][self.base[k]] |= 1 << j;
                                changed = true;
                            }
                        }
                    }
                }
                let done = self.sets[j][self.base[i] + r.len()];
                for o in 0..=j {
                    if done >> o & 1 != 0 && !self.skip.contains(&(j, *l, o)) {
                        for (k, (_, r2)) in self.g.rules.iter().enumerate() {
                            for d in 0..r2.len() {
                                if r2[d] == *l {
                                    let add = self.sets[o][self.base[k] + d];
                                    let to = &mut self.sets[j][self.base[k] + d + 1];
                                    if *to | add != *to {
                                        *to |= add;
                                        changed = true;
                                    }
                                }
                            }
                        }
                    }
                }
            }
            if !changed {
                break;
            }
        }
    }
    /// Reads a token; false if no sentence begins like this.
    pub fn token(&mut self, t: usize) -> bool {
        self.token_set(1 << t)
    }
    /// Reads a token that may be any of some terminals.
    pub fn token_set(&mut self, t: u64) -> bool {
        let last = self.sets.last().unwrap();
        let mut next = vec![0; self.total];
        let mut any = false;
        for (i, (_, r)) in self.g.rules.iter().enumerate() {
            for d in 0..r.len() {
                if t >> r[d] & 1 != 0 && last[self.base[i] + d] != 0 {
                    next[self.base[i] + d + 1] = last[self.base[i] + d];
                    any = true;
                }
            }
        }
        self.tokens.push(t);
        if any {
            self.close(next);
        }
        any
    }
    /// Is what was read so far a sentence?
    pub fn accepts(&self) -> bool {
        let last = self.sets.last().unwrap();
        !self.skip.contains(&(self.sets.len() - 1, 0, 0)) && self.g.rules.iter().enumerate().any(|(i, (l, r))| *l == 0 && last[self.base[i] + r.len()] & 1 != 0)
    }
    /// Symbols right after a dot: those some sentence continues with here.
    pub fn next_syms(&self) -> u64 {
        let last = self.sets.last().unwrap();
        let mut m = if self.sets.len() == 1 { 1u64 } else { 0 };
        for (i, (_, r)) in self.g.rules.iter().enumerate() {
            for d in 0..r.len() {
                if last[self.base[i] + d] != 0 {
                    m |= 1 << r[d];
                }
            }
        }
        m
    }
    /// Positions inside rules (not at their ends) that are live here: (rule, dot, origin).
    pub fn inside(&self) -> Vec<(usize, usize, usize)> {
        let last = self.sets.last().unwrap();
        let mut v = Vec::new();
        for (i, (_, r)) in self.g.rules.iter().enumerate() {
            for d in 1..r.len() {
                for o in 0..self.sets.len() {
                    if last[self.base[i] + d] >> o & 1 != 0 {
                        v.push((i, d, o));
                    }
                }
            }
        }
        v
    }
    /// Completed spans that end here: (symbol, origin), non-empty ones.
    pub fn completed(&self) -> Vec<(usize, usize)> {
        let j = self.sets.len() - 1;
        let mut v = Vec::new();
        for (i, (l, r)) in self.g.rules.iter().enumerate() {
            for o in 0..j {
                if self.sets[j][self.base[i] + r.len()] >> o & 1 != 0 && !v.contains(&(*l, o)) {
                    v.push((*l, o));
                }
            }
        }
        v
    }
    /// Does the rule span these positions?
    pub fn rule_spans(&self, i: usize, from: usize, to: usize) -> bool {
        self.sets[to][self.base[i] + self.g.rules[i].1.len()] >> from & 1 != 0
    }
}

/// A grammar with more symbols than fit into one word of a bit set: a chain of nonterminals with a terminal each,
/// and some ways to go back and skip.
pub fn wide() -> Gram {
    let (nts, ts) = (20, 20);
    let mut g = Gram { nts, ts, rules: Vec::new(), useless: Vec::new(), syms: Vec::new() };
    let skip = any_bool();
    for i in 0..nts {
        let t = nts + i;
        if i + 1 < nts {
            g.rules.push((i, vec![i + 1, t]));
            if i % 3 != 1 || i > 6 && skip {
                g.rules.push((i, vec![i + 1]));
            }
        }
        if i % 4 != 2 {
            g.rules.push((i, vec![t]));
        }
    }
    g.rules.push((nts - 1, vec![nts + 5]));
    if any_bool() {
        g.rules.push((nts - 1, vec![nts + 3, 2]));
    }
    if any_bool() {
        g.rules.push((10, vec![1, nts + 7]));
    }
    assume(g.is_proper() && !g.is_cyclic());
    g
}
