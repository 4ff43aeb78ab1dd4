//! Values of parses: the derivation itself, with the leaf values left symbolic.
use crate::gram::{Gram, Ref};
use gearley_default_grammar::DefaultGrammar;
use gearley_forest::Evaluate;
use gearley_grammar::Grammar;
use vs::assert;

/// `shape` spells out rules, arities and symbols (concrete), `leaves` the leaf values in order (symbolic).
#[derive(Clone, Default, Debug)]
pub struct Tree {
    pub shape: Vec<u32>,
    pub leaves: Vec<u32>,
}
const LEAF: u32 = 1 << 16;
const NULL: u32 = 2 << 16;
const RULE: u32 = 3 << 16;
const END: u32 = 4 << 16;

impl Tree {
    pub fn leaf(sym: usize, value: u32) -> Tree {
        Tree { shape: vec![LEAF | sym as u32], leaves: vec![value] }
    }
    pub fn null(sym: usize) -> Tree {
        Tree { shape: vec![NULL | sym as u32], leaves: vec![] }
    }
    /// One of several values of nothing.
    pub fn nothing(sym: usize, which: usize) -> Tree {
        Tree { shape: vec![NULL | (which as u32) << 8 | sym as u32], leaves: vec![] }
    }
    /// How many parts derive nothing.
    pub fn nulls(&self) -> usize {
        self.shape.iter().filter(|&&x| x & !0xffff == NULL).count()
    }
    pub fn rule<'a>(rule: u32, args: impl Iterator<Item = &'a Tree>) -> Tree {
        let mut t = Tree { shape: vec![RULE | rule], leaves: vec![] };
        for a in args {
            t.shape.extend_from_slice(&a.shape);
            t.leaves.extend_from_slice(&a.leaves);
        }
        t.shape.push(END);
        t
    }
}

/// Evaluates a forest to the derivations it stands for.
pub struct Eval<'a> {
    pub gr: &'a DefaultGrammar,
    pub g: &'a Gram,
}
impl Eval<'_> {
    fn user(&self, s: cfg::Symbol) -> usize {
        let e = self.gr.to_external(s);
        self.g.syms.iter().position(|&x| x == e).unwrap_or(0x7fff)
    }
}
impl Evaluate for Eval<'_> {
    type Elem = Tree;
    fn leaf(&self, terminal: cfg::Symbol, value: u32) -> Tree {
        Tree::leaf(self.user(terminal), value)
    }
    fn product<'a>(&self, action: u32, args: impl Iterator<Item = &'a Tree>) -> Tree {
        Tree::rule(action, args)
    }
    fn nulling(&self, symbol: cfg::Symbol, results: &mut Vec<Tree>) {
        results.push(Tree::null(self.user(symbol)));
    }
}

/// The same with as many values for a symbol that derived nothing as its place in `nothing` says.
pub struct EvalNothing<'a> {
    pub eval: Eval<'a>,
    pub nothing: &'a [usize],
}
impl Evaluate for EvalNothing<'_> {
    type Elem = Tree;
    fn leaf(&self, terminal: cfg::Symbol, value: u32) -> Tree {
        self.eval.leaf(terminal, value)
    }
    fn product<'a>(&self, action: u32, args: impl Iterator<Item = &'a Tree>) -> Tree {
        Tree::rule(action, args)
    }
    fn nulling(&self, symbol: cfg::Symbol, results: &mut Vec<Tree>) {
        let sym = self.eval.user(symbol);
        assert(sym < self.nothing.len(), "a helper symbol is evaluated");
        results.extend((0..self.nothing[sym]).map(|k| Tree::nothing(sym, k)));
    }
}

/// Which symbols derive the tokens between two positions: `[from][to]`, a bit per symbol.
pub struct Spans(Vec<Vec<u64>>, Vec<usize>);
impl Spans {
    pub fn new(re: &Ref) -> Spans {
        let n = re.tokens.len();
        let mut s = Spans(vec![vec![0; n + 1]; n + 1], vec![]);
        for to in 0..=n {
            for from in (0..=to).rev() {
                s.0[from][to] = if from == to { re.g.nullable() } else { 0 };
                if to == from + 1 {
                    s.0[from][to] |= re.tokens[from];
                }
                // Until nothing changes: a rule may have the whole span in one symbol.
                loop {
                    let old = s.0[from][to];
                    for (l, r) in &re.g.rules {
                        if s.seq(r, from, to) {
                            s.0[from][to] |= 1 << l;
                        }
                    }
                    if s.0[from][to] == old {
                        break;
                    }
                }
            }
        }
        s
    }
    pub fn has(&self, sym: usize, from: usize, to: usize) -> bool {
        self.0[from][to] >> sym & 1 != 0
    }
    /// Does the sequence derive what is between the positions?
    pub fn seq(&self, rhs: &[usize], from: usize, to: usize) -> bool {
        let mut reach = 1u32 << from;
        for &x in rhs {
            let mut next = 0;
            for mid in from..=to {
                if reach >> mid & 1 != 0 {
                    for end in mid..=to {
                        if self.has(x, mid, end) {
                            next |= 1 << end;
                        }
                    }
                }
            }
            reach = next;
        }
        reach >> to & 1 != 0
    }
}

/// Every derivation of a symbol over the tokens between two positions (a part deriving nothing is one leaf).
pub fn trees(re: &Ref, values: &[u32], sym: usize, from: usize, to: usize) -> Vec<Tree> {
    derive(re, &Spans::new(re), values, sym, from, to)
}
/// The same; a symbol that derives nothing has as many values as its place in `nothing` says.
pub fn trees_nothing(re: &Ref, values: &[u32], nothing: &[usize]) -> Vec<Tree> {
    let mut sp = Spans::new(re);
    sp.1 = nothing.to_vec();
    derive(re, &sp, values, 0, 0, values.len())
}
fn derive(re: &Ref, sp: &Spans, values: &[u32], sym: usize, from: usize, to: usize) -> Vec<Tree> {
    if !sp.has(sym, from, to) {
        return vec![];
    }
    if from == to {
        return (0..sp.1.get(sym).map_or(1, |&n| n)).map(|k| Tree::nothing(sym, k)).collect();
    }
    if !re.g.is_nt(sym) {
        return vec![Tree::leaf(sym, values[from])];
    }
    let mut out = Vec::new();
    for (i, (l, r)) in re.g.rules.iter().enumerate() {
        if *l == sym && sp.seq(r, from, to) {
            for s in seqs(re, sp, values, r, from, to) {
                out.push(Tree::rule(i as u32, s.iter()));
            }
        }
    }
    out
}
fn seqs(re: &Ref, sp: &Spans, values: &[u32], rhs: &[usize], from: usize, to: usize) -> Vec<Vec<Tree>> {
    let Some((&first, rest)) = rhs.split_first() else {
        return if from == to { vec![vec![]] } else { vec![] };
    };
    let mut out = Vec::new();
    for mid in from..=to {
        if !sp.has(first, from, mid) || !sp.seq(rest, mid, to) {
            continue;
        }
        let heads = derive(re, sp, values, first, from, mid);
        for tail in seqs(re, sp, values, rest, mid, to) {
            for h in &heads {
                let mut v = vec![h.clone()];
                v.extend(tail.iter().cloned());
                out.push(v);
            }
        }
    }
    out
}

/// The same derivations, each as often, with the same leaf values.
pub fn same(mut got: Vec<Tree>, mut want: Vec<Tree>) {
    assert(got.len() >= want.len(), "evaluation lost a derivation");
    assert(got.len() <= want.len(), "evaluation produced too many results");
    got.sort_by(|a, b| a.shape.cmp(&b.shape));
    want.sort_by(|a, b| a.shape.cmp(&b.shape));
    for (g, w) in got.iter().zip(&want) {
        assert(g.shape == w.shape, "evaluation mixed up rules, arguments or symbols");
        same_leaves(g, w);
    }
}
pub fn same_leaves(g: &Tree, w: &Tree) {
    assert(g.leaves.len() == w.leaves.len(), "evaluation has the wrong number of leaves");
    let mut eq = true;
    for (a, b) in g.leaves.iter().zip(&w.leaves) {
        eq &= a == b;
    }
    assert(eq, "evaluation changed a leaf value");
}
