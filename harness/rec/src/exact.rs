//! Parts on their own, over their whole value ranges: items, node handles, capacity hints, node codecs.
use crate::gram::{Pool, Ref};
use crate::{start, step};
use cfg::history::earley::{EventAndDistance, ExternalDottedRule, ExternalOrigin, NullingEliminated};
use cfg::Symbol;
use gearley_forest::item::Item;
use gearley_forest::node_handle::{NodeHandle, NULL_HANDLE};
use gearley_forest::{Evaluate, Forest, NullForest};
use gearley_grammar::{ForestInfo, Grammar, NullingIntermediateRule, PredictionTransition};
use gearley_recognizer::perf_hint::{DefaultPerfHint, PerfHint};
use gearley_recognizer::Recognizer;
use gearley_vec2d::Vec2dCapacity;
use std::cmp::Ordering;
use vs::{any_bool, any_u32, any_u64, assert, assume, cover, out, pick, range};

// Items.

fn item() -> Item<u32> {
    Item { origin: any_u32(), dot: any_u32(), node: any_u32() }
}
fn lex(a: &Item<u32>, b: &Item<u32>) -> Ordering {
    if a.origin < b.origin || (a.origin == b.origin && a.dot < b.dot) {
        Ordering::Less
    } else if a.origin == b.origin && a.dot == b.dot {
        Ordering::Equal
    } else {
        Ordering::Greater
    }
}
pub fn item_order() {
    let (a, b) = (item(), item());
    let want = lex(&a, &b);
    assert(a.cmp(&b) == want, "items are not ordered by origin, then dot");
    assert(a.partial_cmp(&b) == Some(want), "partial_cmp() and cmp() disagree");
    assert((a == b) == (want == Ordering::Equal), "equality and order disagree");
    assert((a != b) != (a == b), "an item is both equal and not");
    assert((a < b) == (want == Ordering::Less) && (a <= b) == (want != Ordering::Greater), "< disagrees with the order");
    assert((a > b) == (want == Ordering::Greater) && (a >= b) == (want != Ordering::Less), "> disagrees with the order");
    let m = std::cmp::max(a, b);
    assert((m.origin, m.dot) == if want == Ordering::Greater { (a.origin, a.dot) } else { (b.origin, b.dot) }, "max() is not the later item");
    cover(match want {
        Ordering::Less => "less",
        Ordering::Equal => "equal",
        Ordering::Greater => "greater",
    });
}
pub fn item_order_total() {
    let (a, b, c) = (item(), item(), item());
    assert(a.cmp(&b) == b.cmp(&a).reverse(), "the order is not antisymmetric");
    if a.cmp(&b) != Ordering::Greater && b.cmp(&c) != Ordering::Greater {
        assert(a.cmp(&c) != Ordering::Greater, "the order is not transitive");
        cover("chain");
    }
}
pub fn item_order_node() {
    // Whatever the nodes are, of whatever type.
    let (o, d) = (any_u32(), any_u32());
    let (p, e) = (any_u32(), any_u32());
    let (x, y) = (any_u64(), any_u64());
    let a = Item { origin: o, dot: d, node: (x, NodeHandle(x as u32)) };
    let b = Item { origin: p, dot: e, node: (y, NodeHandle(y as u32)) };
    let c = Item { origin: p, dot: e, node: () };
    let f = Item { origin: o, dot: d, node: () };
    assert(a.cmp(&b) == f.cmp(&c) && (a == b) == (f == c), "an item's node changes its order");
    let mut v = vec![a, b];
    v.sort();
    assert((v[0].origin, v[0].dot) <= (v[1].origin, v[1].dot), "sorting does not order by origin, then dot");
    cover("sorted");
}

// Node handles.

pub fn handles() {
    let (a, b) = (any_u32(), any_u32());
    assume(a < 1 << 20 && b < 1 << 20);
    let (x, y) = (NodeHandle::nulling(Symbol::from(a)), NodeHandle::nulling(Symbol::from(b)));
    assert((x == y) == (a == b), "handles of different empty symbols are the same, or those of one are not");
    assert((x.mul() == y.mul()) == (a == b), "handles of different empty symbols are the same when scaled");
    assert(x.to_option() == Some(x) && x.mul().to_option() == Some(x.mul()), "the handle of an empty symbol is none");
    assert(x.usize() == a as usize, "a handle is another number");
    assert(NULL_HANDLE.to_option().is_none(), "the null handle is some node");
    let h = any_u32();
    assert(NodeHandle(h).to_option().is_none() == (NodeHandle(h) == NULL_HANDLE), "to_option() loses a node");
    assert(NodeHandle(h).usize() == h as usize, "a handle is another number");
    out(x.mul().usize() as u64);
    cover("handles");
}

// Capacity hints.

fn check(hint: &DefaultPerfHint, memory: usize, num_syms: Option<usize>, tokens: Option<usize>) {
    let c = hint.medial_capacity();
    let done = hint.completion_capacity();
    assert(done >= 16 && done <= 128, "the capacity for completions is out of its range");
    assert(c.indices_capacity >= 32, "room for less sets than the least");
    assert(c.chart_capacity >= 32, "room for less items than sets");
    if c.indices_capacity > 32 {
        // Everything together is within the limit: per set, a bit per symbol and its items.
        let bits = (num_syms.unwrap_or(128) as u128 + 31) / 32 * 4;
        let item = std::mem::size_of::<Item<()>>() as u128;
        let recognizer = c.indices_capacity as u128 * bits + c.chart_capacity as u128 * item + done as u128 * std::mem::size_of::<Item<usize>>() as u128;
        assert(recognizer <= memory as u128, "the capacities take more memory than the limit");
        // A word for each token and the one after; twice as much is left for the forest.
        let used = recognizer as usize + (tokens.unwrap_or(64) + 1) * 8;
        assert(used <= (memory + 2) / 3, "the capacities leave the forest less than its share");
        cover("above the floor");
    } else {
        cover("floor");
    }
    let _ = tokens;
    out(c.indices_capacity as u64);
}
const SYMS: [usize; 9] = [0, 1, 32, 33, 64, 1000, 65536, 1 << 30, 1 << 50];
/// Any memory and tokens of `bits` bits above a base.
pub fn hint_memory(bits: u32, bases: &[u64]) {
    let base = bases[pick(0, bases.len() as u64 - 1)];
    let memory = base + range(0, (1 << bits) - 1);
    let tokens = range(0, (1 << bits) - 1);
    match pick(0, SYMS.len() as u64) {
        0 => check(&DefaultPerfHint::new(memory as usize), memory as usize, None, None),
        k => {
            let n = SYMS[k - 1];
            let h = DefaultPerfHint::with_token_count_and_num_syms(memory as usize, tokens as usize, n);
            check(&h, memory as usize, Some(n), Some(tokens as usize));
        }
    }
}
/// More memory never gives less room, for completions.
pub fn hint_monotone() {
    let (a, b) = (any_u64(), any_u64());
    assume(a <= b && b <= 1 << 60);
    let (x, y) = (DefaultPerfHint::new(a as usize), DefaultPerfHint::new(b as usize));
    assert(x.completion_capacity() <= y.completion_capacity(), "more memory gives less room for completions");
    cover("monotone");
}
/// Any number of symbols.
pub fn hint_syms() {
    let n = any_u64();
    assume(n < 1 << 60);
    let memory = [0, 999, 1000, 1024, 499_999, 500_000, 2_000_001, 1 << 40][pick(0, 7)];
    let h = DefaultPerfHint::with_token_count_and_num_syms(memory, 64, n as usize);
    let c = h.medial_capacity();
    assert(c.indices_capacity >= 32 && c.chart_capacity >= 32, "room for less than the least");
    cover("syms");
}
pub fn hint_default() {
    let (h, t): (DefaultPerfHint, &dyn Fn()) = (Default::default(), &|| ());
    t();
    check(&h, 1 << 20, None, None);
    assert(<DefaultPerfHint as PerfHint>::LOOKAHEAD && !<DefaultPerfHint as PerfHint>::LEO, "the default hint's switches");
}
struct Any<const LOOKAHEAD: bool>([usize; 3]);
impl<const L: bool> PerfHint for Any<L> {
    const LOOKAHEAD: bool = L;
    const LEO: bool = false;
    type Symbol = Symbol;
    fn completion_capacity(&self) -> usize {
        self.0[0]
    }
    fn medial_capacity(&self) -> Vec2dCapacity {
        Vec2dCapacity { chart_capacity: self.0[1], indices_capacity: self.0[2] }
    }
}
/// Only the default capacities.
struct Bare;
impl PerfHint for Bare {
    const LOOKAHEAD: bool = false;
    const LEO: bool = false;
    type Symbol = Symbol;
}
/// Recognition with any hint is that of the language.
pub fn hint_recognize(pool: &Pool, max: usize) {
    let mut g = pool.any();
    let gr = g.build(false);
    let caps = || [0, 1, 7][pick(0, 2)];
    macro_rules! run {
        ($p:expr) => {{
            let mut rec = Recognizer::with_forest_and_policy(&gr, NullForest, $p);
            let mut re = Ref::new(&g);
            let used = g.used();
            start(&mut rec);
            let mut ok = true;
            for _ in 0..max {
                let t = g.sym_token(&used);
                ok = re.token(t);
                assert(step(&mut rec, &g, t, 0) == ok, "a hint about capacities changes where a parse fails");
                if !ok {
                    break;
                }
                assert(rec.is_finished() == re.accepts(), "a hint about capacities changes acceptance");
            }
            cover(if ok { "full length" } else { "failed" });
        }};
    }
    match pick(0, 4) {
        0 => run!(Any::<true>([caps(), caps(), caps()])),
        1 => run!(Any::<false>([caps(), caps(), caps()])),
        2 => run!(Bare),
        3 => run!(DefaultPerfHint::new(pick(0, 1) * 100_000)),
        _ => run!(DefaultPerfHint::with_token_count_and_num_syms(2048, pick(0, 3), pick(0, 1) * 40)),
    }
}

// Nodes stored in forests.

/// A grammar of which a forest needs only this.
pub struct Info(pub ForestInfo);
macro_rules! not_needed {
    ($(fn $f:ident(&self $(, $a:ident: $t:ty)?) -> $r:ty;)*) => {
        $(fn $f(&self $(, $a: $t)?) -> $r { $(let _ = $a;)? panic!("a forest asks the grammar for more than forest_info()") })*
    };
}
impl Grammar for Info {
    fn forest_info(&self) -> ForestInfo {
        self.0.clone()
    }
    fn sof(&self) -> Symbol {
        self.0.sof
    }
    fn eof(&self) -> Symbol {
        self.0.eof
    }
    fn external_origin(&self, dot: u32) -> ExternalOrigin {
        self.0.eval[dot as usize]
    }
    fn nulling(&self, dot: u32) -> NullingEliminated {
        self.0.nulling_eliminated[dot as usize]
    }
    fn eliminated_nulling_intermediate(&self) -> &[NullingIntermediateRule] {
        &self.0.nulling_intermediate_rules
    }
    fn num_rules(&self) -> usize {
        self.0.eval.len()
    }
    fn to_internal(&self, s: Symbol) -> Option<Symbol> {
        Some(s)
    }
    fn to_external(&self, s: Symbol) -> Symbol {
        s
    }
    fn num_syms(&self) -> usize {
        64
    }
    fn num_gensyms(&self) -> usize {
        0
    }
    fn start_sym(&self) -> Symbol {
        self.0.start
    }
    fn externalized_start_sym(&self) -> Symbol {
        self.0.start
    }
    fn has_trivial_derivation(&self) -> bool {
        false
    }
    not_needed! {
        fn lhs_lr_set(&self, s: Symbol) -> &bit_matrix::row::BitSlice;
        fn lookahead_set(&self, d: u32) -> &bit_matrix::row::BitSlice;
        fn rhs1_or_lhs(&self, d: u32) -> Symbol;
        fn prediction_row(&self, s: Symbol) -> &bit_matrix::row::BitSlice;
        fn events(&self) -> (&[EventAndDistance], &[EventAndDistance]);
        fn trace(&self) -> [&[ExternalDottedRule]; 3];
        fn get_rhs1(&self, d: u32) -> Option<Symbol>;
        fn rhs1(&self) -> &[Option<Symbol>];
        fn get_lhs(&self, d: u32) -> Symbol;
        fn completions(&self, s: Symbol) -> &[PredictionTransition];
        fn gen_completion(&self, s: Symbol) -> [Option<PredictionTransition>; 2];
        fn dot_before_eof(&self) -> u32;
        fn useless_symbol(&self) -> Symbol;
    }
}

/// What a node evaluates to: structure is concrete, symbols and values of leaves may be symbolic.
#[derive(Clone, Default, Debug)]
pub struct Val {
    shape: Vec<u32>,
    data: Vec<u32>,
}
#[derive(Clone)]
enum Node {
    Leaf(u32, u32),
    Null(u32),
    Pair(usize, usize),
    Sum(Vec<(u32, usize)>),
}
const LEAF: u32 = u32::MAX;
const NULL: u32 = u32::MAX - 1;
const RULE: u32 = u32::MAX - 2;
const END: u32 = u32::MAX - 3;
struct Spell;
impl Evaluate for Spell {
    type Elem = Val;
    fn leaf(&self, s: Symbol, v: u32) -> Val {
        Val { shape: vec![LEAF], data: vec![s.usize() as u32, v] }
    }
    fn product<'a>(&self, action: u32, args: impl Iterator<Item = &'a Val>) -> Val {
        let mut r = Val { shape: vec![RULE, action], data: vec![] };
        for a in args {
            r.shape.extend_from_slice(&a.shape);
            r.data.extend_from_slice(&a.data);
        }
        r.shape.push(END);
        r
    }
    fn nulling(&self, s: Symbol, results: &mut Vec<Val>) {
        results.push(Val { shape: vec![NULL, s.usize() as u32], data: vec![] });
    }
}
/// Builds nodes in a forest and remembers what they are.
struct Build<F: Forest<NodeRef = NodeHandle>> {
    f: F,
    info: ForestInfo,
    nodes: Vec<(Node, NodeHandle)>,
}
impl<F: Forest<NodeRef = NodeHandle>> Build<F> {
    fn leaf(&mut self, s: u32, v: u32) -> usize {
        let h = self.f.leaf(Symbol::from(s), 0, v);
        self.add(Node::Leaf(s, v), h)
    }
    fn null(&mut self, s: u32) -> usize {
        let h = self.f.nulling(Symbol::from(s));
        self.add(Node::Null(s), h)
    }
    fn pair(&mut self, a: usize, b: usize) -> usize {
        let h = self.f.product(self.nodes[a].1, self.nodes[b].1);
        self.add(Node::Pair(a, b), h)
    }
    fn sum(&mut self, parts: Vec<(u32, usize)>) -> usize {
        self.f.begin_sum();
        for &(dot, n) in &parts {
            self.f.push_summand(Item { dot, origin: 0, node: self.nodes[n].1 });
        }
        let h = self.f.sum(Symbol::from(1), 0);
        self.add(Node::Sum(parts), h)
    }
    fn add(&mut self, n: Node, h: NodeHandle) -> usize {
        self.nodes.push((n, h));
        self.nodes.len() - 1
    }
    /// Alternatives, each of them a sequence of values.
    fn want(&self, n: usize) -> Vec<Vec<Val>> {
        match &self.nodes[n].0 {
            Node::Leaf(s, v) => vec![vec![Val { shape: vec![LEAF], data: vec![*s, *v] }]],
            Node::Null(s) => self.empty(*s),
            Node::Pair(a, b) => cross(self.want(*a), self.want(*b)),
            Node::Sum(parts) => {
                let mut all = Vec::new();
                for &(dot, n) in parts {
                    let mut seqs = self.want(n);
                    if !matches!(self.nodes[n].0, Node::Pair(..)) {
                        match self.info.nulling_eliminated[dot as usize] {
                            Some((s, true)) => seqs = cross(seqs, self.empty(s.usize() as u32)),
                            Some((s, false)) => seqs = cross(self.empty(s.usize() as u32), seqs),
                            None => {}
                        }
                    }
                    let id = self.info.eval[dot as usize].id;
                    for s in seqs {
                        if id == !0 {
                            all.push(s);
                        } else {
                            all.push(vec![Spell.product(id, s.iter())]);
                        }
                    }
                }
                all
            }
        }
    }
    /// An eliminated symbol: itself, or the parts of an intermediate one.
    fn empty(&self, s: u32) -> Vec<Vec<Val>> {
        match self.info.nulling_intermediate_rules.iter().find(|r| r[0].usize() == s as usize) {
            Some(r) => cross(self.empty(r[1].usize() as u32), self.empty(r[2].usize() as u32)),
            None => vec![vec![Val { shape: vec![NULL, s], data: vec![] }]],
        }
    }
    fn root(&mut self, n: usize) -> NodeHandle {
        let sof = self.leaf(0, 0);
        let p = self.pair(sof, n);
        let r = self.sum(vec![(self.info.eval.len() as u32 - 1, p)]);
        self.nodes[r].1
    }
}
fn cross(a: Vec<Vec<Val>>, b: Vec<Vec<Val>>) -> Vec<Vec<Val>> {
    let mut v = Vec::new();
    for x in &a {
        for y in &b {
            let mut s = x.clone();
            s.extend_from_slice(y);
            v.push(s);
        }
    }
    v
}
fn compare(got: Vec<Val>, want: Vec<Vec<Val>>) {
    let mut want: Vec<Val> = want.into_iter().flatten().collect();
    let mut got = got;
    assert(got.len() == want.len(), "a stored node evaluates to another number of results");
    got.sort_by(|a, b| a.shape.cmp(&b.shape));
    want.sort_by(|a, b| a.shape.cmp(&b.shape));
    let mut same = true;
    for (g, w) in got.iter().zip(&want) {
        assert(g.shape == w.shape && g.data.len() == w.data.len(), "a stored node reads back as another node");
        for (x, y) in g.data.iter().zip(&w.data) {
            out(*x as u64);
            same &= x == y;
        }
    }
    assert(same, "a stored leaf reads back with another symbol or value");
}
/// `n` positions; of every four, the first has no action, the second and third lack an empty symbol.
fn info(n: usize, empty: u32) -> ForestInfo {
    let mut i = ForestInfo { sof: Symbol::from(0), eof: Symbol::from(1), start: Symbol::from(2), ..Default::default() };
    for k in 0..n {
        i.eval.push(if k % 4 == 0 { ExternalOrigin::null() } else { ExternalOrigin { id: k as u32 * 3 + 1 } });
        i.nulling_eliminated.push(match k % 4 {
            1 => Some((Symbol::from(empty), true)),
            2 => Some((Symbol::from(5), false)),
            _ => None,
        });
    }
    i.nulling_intermediate_rules.push([Symbol::from(5), Symbol::from(6), Symbol::from(7)]);
    i.nulling_intermediate_rules.push([Symbol::from(8), Symbol::from(5), Symbol::from(6)]);
    i
}
/// Sums of one or two summands over some nodes: everything the recognizer may write.
fn any_sum<F: Forest<NodeRef = NodeHandle>>(b: &mut Build<F>, from: &[usize], dots: &[u32]) -> usize {
    let count = pick(1, 2);
    sum_of(b, from, dots, count)
}
fn sum_of<F: Forest<NodeRef = NodeHandle>>(b: &mut Build<F>, from: &[usize], dots: &[u32], count: usize) -> usize {
    let mut parts = Vec::new();
    for k in 0..count {
        let n = from.len() as u64;
        let (last, first) = (from[from.len() - 1], from[0]);
        // Different nodes make four pairs, one makes one.
        let at = if k == 1 { (n * pick(0, 1) as u64) as usize } else { pick(0, if n > 1 { n + 3 } else { n }) };
        let node = match at.checked_sub(from.len()) {
            None => from[at],
            Some(0) => b.pair(last, first),
            Some(1) => b.pair(first, last),
            Some(2) => b.pair(last, last),
            _ => b.pair(first, first),
        };
        // One position per summand, as in a recognizer: different rules.
        let d = if k == 0 { pick(0, dots.len() as u64 - 1) } else { 0 };
        let dot = match parts.first() {
            None => dots[d],
            Some(&(first, _)) => *dots.iter().find(|&&x| x != first).unwrap(),
        };
        parts.push((dot, node));
    }
    if count > 1 {
        cover("ambiguous");
    }
    b.sum(parts)
}
macro_rules! with_forest {
    ($compact:expr, $info:expr, |$b:ident| $body:block) => {
        if $compact {
            let i = $info;
            #[allow(unused_mut)]
            let mut $b = Build { f: compact_bocage::Bocage::new(Info(i.clone())), info: i, nodes: Vec::new() };
            let (n, root) = $body;
            let want = $b.want(n);
            compare($b.f.evaluate(Spell, root), want);
            cover("evaluated");
        } else {
            let i = $info;
            #[allow(unused_mut)]
            let mut $b = Build { f: simple_bocage::Bocage::new(Info(i.clone())), info: i, nodes: Vec::new() };
            let (n, root) = $body;
            let want = $b.want(n);
            compare($b.f.evaluate(Spell, root), want);
            cover("evaluated");
        }
    };
}
/// Any symbol and value in leaves.
pub fn codec_values(compact: bool, leaves: usize) {
    with_forest!(compact, info(6, 4), |b| {
        let mut from = Vec::new();
        for _ in 0..leaves {
            let (s, v) = (any_u32(), any_u32());
            assume(s != u32::MAX);
            from.push(b.leaf(s, v));
        }
        let dots: &[u32] = &[3, 1, 2, 5];
        let s = match leaves {
            1 => any_sum(&mut b, &from, dots),
            2 => sum_of(&mut b, &from, &[3], 1),
            _ => b.sum(vec![(3, from[0]), (1, from[2])]),
        };
        let s = if leaves > 2 { let p = b.pair(s, from[1]); b.sum(vec![(3, p)]) } else { s };
        let r = b.root(s);
        (s, r)
    });
}
/// Sums of sums.
pub fn codec_shapes(compact: bool, all: bool) {
    with_forest!(compact, info(6, 4), |b| {
        let l = b.leaf(9, 77);
        let z = b.null([5, 6, 8][pick(0, 2)]);
        let count = pick(1, 2);
        let s = sum_of(&mut b, &[l, z], &[3, 0, 1, 2], count);
        // A parse's value is that of a rule with an action.
        let s2 = sum_of(&mut b, &[s, l], &[3, 2, 1], if all { pick(1, 2) } else { 3 - count });
        let r = b.root(s2);
        (s2, r)
    });
}
/// Handles around a boundary: `fill` is how many bytes there are before it.
pub fn codec_handles(compact: bool, boundary: usize, empty: u32, all: bool) {
    with_forest!(compact, info(8, empty), |b| {
        let start = (empty as usize + 1 + 4) * 9;
        // Leaves of nine, four and three bytes.
        let space = boundary.saturating_sub(start + 45);
        for _ in 0..space / 9 {
            b.leaf(1 << 24, 1 << 24);
        }
        b.nodes.clear();
        for _ in 0..pick(0, 12) {
            b.leaf(9, 3);
        }
        for _ in 0..if boundary < 1 << 24 { pick(0, 2) } else { 0 } {
            b.leaf(300, 3);
        }
        let l = b.leaf(9, any_u32() & 0xff);
        let s = sum_of(&mut b, &[l], &[3, 1], if all { pick(1, 2) } else { 1 });
        let s2 = sum_of(&mut b, &[s, l], &[7, 5], if all { pick(1, 2) } else { 2 });
        let r = b.root(s2);
        (s2, r)
    });
}
/// Positions around the boundaries of the encoding.
pub fn codec_actions(compact: bool) {
    with_forest!(compact, info(66_000, 300), |b| {
        const DOTS: [u32; 12] = [1, 2, 253, 254, 255, 256, 257, 65533, 65534, 65535, 65536, 65999];
        const TOP: [u32; 6] = [1, 254, 255, 257, 65534, 65535];
        let l = b.leaf(9, 77);
        let s = any_sum(&mut b, &[l], &DOTS);
        let s2 = any_sum(&mut b, &[s], &TOP);
        let r = b.root(s2);
        (s2, r)
    });
}
/// Empty symbols with numbers around boundaries.
pub fn codec_empty(compact: bool, max: u32) {
    with_forest!(compact, info(8, max), |b| {
        let near = max.saturating_sub(60);
        let z = b.null(if any_bool() { pick(9, 40) as u32 } else { near + pick(0, 60) as u32 });
        let l = b.leaf(9, 77);
        let p = if any_bool() { b.pair(z, l) } else { b.pair(l, z) };
        let s = b.sum(vec![(3, p)]);
        let t = b.sum(vec![(1, s), (7, z)]);
        let r = b.root(t);
        (t, r)
    });
}
