//! Hash-consed bit-vector expression DAG with on-the-fly simplification.
//! Width-1 vectors double as booleans.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Zext,
    Sext,
    Extract,
    Concat,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for &b in bytes {
            self.write_u64(b as u64);
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_isize(&mut self, i: isize) {
        self.write_u64(i as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub const MANY: E = E::MAX;

pub struct Pool {
    pub n: Vec<Node>,
    /// unsigned upper bound of every node
    pub hi: Vec<u128>,
    /// the only variable a node depends on (0: none), if that has at most 64 values; otherwise MANY
    pub sup: Vec<E>,
    truths: FxMap<E, u64>,
    scratch: Vec<u128>,
    map: FxMap<Node, E>,
    vars: FxMap<(u16, usize, u128), E>,
    memo: Vec<(u32, u128)>,
    epoch: u32,
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}
fn bits(v: u128) -> u32 {
    128 - v.leading_zeros()
}
fn ones(nb: u32) -> u128 {
    if nb >= 128 {
        !0
    } else {
        (1u128 << nb) - 1
    }
}

/// Concrete semantics of every operator (None: undefined, e.g. division by zero).
pub fn fold(op: Op, w: u16, aw: u16, bw: u16, a: u128, b: u128, c: u128, k: u128) -> Option<u128> {
    let m = mask(w);
    Some(match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            if b == 0 {
                return None;
            }
            (sext(a, w).wrapping_div(sext(b, w)) as u128) & m
        }
        Op::SRem => {
            if b == 0 {
                return None;
            }
            (sext(a, w).wrapping_rem(sext(b, w)) as u128) & m
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 { w as u32 - 1 } else { b as u32 };
            ((sext(a, w) >> s) as u128) & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext(a, aw) < sext(b, aw)) as u128,
        Op::Sle => (sext(a, aw) <= sext(b, aw)) as u128,
        Op::Ite => {
            if a != 0 {
                b
            } else {
                c
            }
        }
        Op::Zext => a,
        Op::Sext => (sext(a, aw) as u128) & m,
        Op::Extract => (a >> k) & m,
        Op::Concat => (a << bw) | b,
        Op::Const | Op::Var => unreachable!(),
    })
}

impl Pool {
    pub fn new() -> Pool {
        let mut p = Pool { n: vec![], hi: vec![], sup: vec![], truths: Default::default(), scratch: vec![], map: Default::default(), vars: Default::default(), memo: vec![], epoch: 1 };
        // id 0 is reserved (used as "no expression" in memory)
        p.raw(Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0, k: 0 }, 0);
        p
    }
    fn raw(&mut self, n: Node, hi: u128) -> E {
        let id = self.n.len() as E;
        self.n.push(n);
        self.hi.push(hi.min(mask(n.w)));
        let mut sup = 0;
        if n.op != Op::Const {
            for x in [n.a, n.b, n.c] {
                let s = self.sup[x as usize];
                if s != 0 {
                    sup = if sup == 0 || sup == s { s } else { MANY };
                }
            }
        }
        self.sup.push(sup);
        self.map.insert(n, id);
        id
    }
    pub fn w(&self, e: E) -> u16 {
        self.n[e as usize].w
    }
    pub fn node(&self, e: E) -> Node {
        self.n[e as usize]
    }
    pub fn kc(&self, e: E) -> Option<u128> {
        let n = &self.n[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn con(&mut self, w: u16, k: u128) -> E {
        let k = k & mask(w);
        let n = Node { op: Op::Const, w, a: 0, b: 0, c: 0, k };
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        self.raw(n, k)
    }
    pub fn var(&mut self, w: u16, idx: usize, hi: u128) -> E {
        // paths may differ in the range of their n-th input
        if let Some(&e) = self.vars.get(&(w, idx, hi)) {
            return e;
        }
        let e = self.n.len() as E;
        self.n.push(Node { op: Op::Var, w, a: 0, b: 0, c: 0, k: idx as u128 });
        self.hi.push(hi.min(mask(w)));
        self.sup.push(if hi < 64 { e } else { MANY });
        self.vars.insert((w, idx, hi), e);
        e
    }
    fn nbits(&self, e: E) -> u32 {
        bits(self.hi[e as usize])
    }
    fn mk(&mut self, op: Op, w: u16, a: E, b: E, c: E, k: u128) -> E {
        let n = Node { op, w, a, b, c, k };
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let m = mask(w);
        let h = |e: E| self.hi[e as usize];
        let hi = match op {
            Op::And => h(a).min(h(b)),
            Op::Or | Op::Xor => ones(bits(h(a)).max(bits(h(b)))),
            Op::Add => h(a).checked_add(h(b)).unwrap_or(m),
            Op::Mul => h(a).checked_mul(h(b)).unwrap_or(m),
            Op::UDiv => match self.kc(b) {
                Some(k) if k > 0 => h(a) / k,
                Some(_) => m,
                None => m,
            },
            Op::URem => match self.kc(b) {
                Some(k) if k > 0 => h(a).min(k - 1),
                _ => h(a),
            },
            Op::LShr => match self.kc(b) {
                Some(k) if k < 128 => h(a) >> k,
                Some(_) => 0,
                None => h(a),
            },
            Op::Shl => match self.kc(b) {
                Some(k) if (k as u32) + bits(h(a)) <= w as u32 => h(a) << k,
                _ => m,
            },
            Op::Ite => h(b).max(h(c)),
            Op::Zext => h(a),
            Op::Extract => {
                if bits(h(a)) <= k as u32 + w as u32 {
                    h(a) >> k
                } else {
                    m
                }
            }
            Op::Concat => {
                let lw = self.w(b);
                if h(a) == 0 {
                    h(b)
                } else {
                    (h(a) << lw) | mask(lw)
                }
            }
            _ => m,
        };
        self.raw(n, if hi > m { m } else { hi })
    }
    pub fn not(&mut self, a: E) -> E {
        debug_assert_eq!(self.w(a), 1);
        let t = self.con(1, 1);
        self.bin(Op::Xor, a, t)
    }
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let aw = self.w(a);
        let w = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            _ => aw,
        };
        debug_assert_eq!(aw, self.w(b), "{:?}", op);
        let (ka, kb) = (self.kc(a), self.kc(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            if let Some(v) = fold(op, w, aw, aw, x, y, 0, 0) {
                return self.con(w, v);
            }
        }
        let m = mask(aw);
        // commutative: constant to the right, otherwise smaller id first
        match op {
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq => {
                if ka.is_some() || (kb.is_none() && a > b) {
                    if !(ka.is_some() && kb.is_some()) {
                        return self.bin2(op, w, aw, m, b, a);
                    }
                }
            }
            _ => {}
        }
        self.bin2(op, w, aw, m, a, b)
    }
    fn bin2(&mut self, op: Op, w: u16, aw: u16, m: u128, a: E, b: E) -> E {
        let (ka, kb) = (self.kc(a), self.kc(b));
        let na = self.node(a);
        let nb = self.node(b);
        match op {
            Op::Add => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    if na.op == Op::Add {
                        if let Some(k2) = self.kc(na.b) {
                            let c = self.con(aw, k.wrapping_add(k2));
                            return self.bin(Op::Add, na.a, c);
                        }
                    }
                    // (c ? k1 : k2) + k
                    if let Some(r) = self.ite_const(op, a, b) {
                        return r;
                    }
                }
            }
            Op::Sub => {
                if kb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.con(w, 0);
                }
                if let Some(k) = kb {
                    let c = self.con(aw, (!k).wrapping_add(1));
                    return self.bin(Op::Add, a, c);
                }
                // (x + k) - x
                if na.op == Op::Add && na.a == b {
                    return na.b;
                }
                if na.op == Op::Add && na.b == b {
                    return na.a;
                }
                if na.op == Op::Add && nb.op == Op::Add && na.a == nb.a {
                    return self.bin(Op::Sub, na.b, nb.b);
                }
            }
            Op::Mul => {
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(1) {
                    return a;
                }
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let c = self.con(aw, k.trailing_zeros() as u128);
                        return self.bin(Op::Shl, a, c);
                    }
                    if let Some(r) = self.ite_const(op, a, b) {
                        return r;
                    }
                }
            }
            Op::UDiv => {
                if kb == Some(1) {
                    return a;
                }
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let c = self.con(aw, k.trailing_zeros() as u128);
                        return self.bin(Op::LShr, a, c);
                    }
                    if k > self.hi[a as usize] {
                        return self.con(w, 0);
                    }
                }
            }
            Op::URem => {
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let c = self.con(aw, k - 1);
                        return self.bin(Op::And, a, c);
                    }
                    if k > self.hi[a as usize] {
                        return a;
                    }
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return b;
                    }
                    if k == m {
                        return a;
                    }
                    // mask covers every possibly-set bit
                    let nb_ = self.nbits(a);
                    if ones(nb_) & !k == 0 {
                        return a;
                    }
                    if na.op == Op::And {
                        if let Some(k2) = self.kc(na.b) {
                            let c = self.con(aw, k & k2);
                            return self.bin(Op::And, na.a, c);
                        }
                    }
                    // low mask -> zext(extract)
                    if k & (k + 1) == 0 {
                        let ew = bits(k) as u16;
                        let x = self.extract(a, 0, ew);
                        return self.zext(x, aw);
                    }
                    if let Some(r) = self.ite_const(op, a, b) {
                        return r;
                    }
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k == m {
                        return b;
                    }
                    if let Some(r) = self.ite_const(op, a, b) {
                        return r;
                    }
                }
                // (zext lo) | (x << lowbits)  -> concat
                if kb.is_none() {
                    for (x, y) in [(a, b), (b, a)] {
                        let ny = self.node(y);
                        if ny.op == Op::Shl {
                            if let Some(s) = self.kc(ny.b) {
                                if s > 0 && s < aw as u128 && self.nbits(x) <= s as u32 {
                                    let lo = self.extract(x, 0, s as u16);
                                    let hi = self.extract(ny.a, 0, aw - s as u16);
                                    return self.concat(hi, lo);
                                }
                            }
                        }
                        if ny.op == Op::Concat {
                            let s = self.w(ny.b);
                            if self.kc(ny.b) == Some(0) && self.nbits(x) <= s as u32 {
                                let lo = self.extract(x, 0, s);
                                return self.concat(ny.a, lo);
                            }
                        }
                    }
                }
            }
            Op::Xor => {
                if a == b {
                    return self.con(w, 0);
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if na.op == Op::Xor {
                        if let Some(k2) = self.kc(na.b) {
                            let c = self.con(aw, k ^ k2);
                            return self.bin(Op::Xor, na.a, c);
                        }
                    }
                    if let Some(r) = self.ite_const(op, a, b) {
                        return r;
                    }
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if ka == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k >= aw as u128 {
                        if op != Op::AShr {
                            return self.con(w, 0);
                        }
                    } else {
                        match op {
                            Op::LShr => {
                                let x = self.extract(a, k as u16, aw - k as u16);
                                return self.zext(x, aw);
                            }
                            Op::Shl => {
                                if let Some(r) = self.ite_const(op, a, b) {
                                    return r;
                                }
                                let x = self.extract(a, 0, aw - k as u16);
                                let z = self.con(k as u16, 0);
                                return self.concat(x, z);
                            }
                            _ => {}
                        }
                    }
                }
                if op == Op::AShr && self.nbits(a) < aw as u32 {
                    return self.bin(Op::LShr, a, b);
                }
            }
            Op::Eq => {
                if a == b {
                    return self.con(1, 1);
                }
                if let Some(k) = kb {
                    if k > self.hi[a as usize] {
                        return self.con(1, 0);
                    }
                    if aw == 1 {
                        return if k == 1 { a } else { self.not(a) };
                    }
                    match na.op {
                        Op::Zext => {
                            let iw = self.w(na.a);
                            if k > mask(iw) {
                                return self.con(1, 0);
                            }
                            let c = self.con(iw, k);
                            return self.bin(Op::Eq, na.a, c);
                        }
                        Op::Add => {
                            if let Some(k2) = self.kc(na.b) {
                                let c = self.con(aw, k.wrapping_sub(k2));
                                return self.bin(Op::Eq, na.a, c);
                            }
                        }
                        Op::Xor => {
                            if let Some(k2) = self.kc(na.b) {
                                let c = self.con(aw, k ^ k2);
                                return self.bin(Op::Eq, na.a, c);
                            }
                        }
                        Op::Ite => {
                            let (x, y) = (self.kc(na.b), self.kc(na.c));
                            if x.is_some() || y.is_some() {
                                let l = self.bin(Op::Eq, na.b, b);
                                let r = self.bin(Op::Eq, na.c, b);
                                return self.ite(na.a, l, r);
                            }
                        }
                        Op::Concat => {
                            let lw = self.w(na.b);
                            if self.kc(na.b).is_some() || self.kc(na.a).is_some() {
                                let kh = self.con(aw - lw, k >> lw);
                                let kl = self.con(lw, k);
                                let l = self.bin(Op::Eq, na.a, kh);
                                let r = self.bin(Op::Eq, na.b, kl);
                                return self.bin(Op::And, l, r);
                            }
                        }
                        _ => {}
                    }
                } else if na.op == Op::Zext && nb.op == Op::Zext && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Eq, na.a, nb.a);
                }
            }
            Op::Ult => {
                if a == b {
                    return self.con(1, 0);
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return self.con(1, 0);
                    }
                    if self.hi[a as usize] < k {
                        return self.con(1, 1);
                    }
                    if k == 1 {
                        let z = self.con(aw, 0);
                        return self.bin(Op::Eq, a, z);
                    }
                    if na.op == Op::Zext {
                        let iw = self.w(na.a);
                        let c = self.con(iw, k);
                        return self.bin(Op::Ult, na.a, c);
                    }
                    if na.op == Op::Ite && self.kc(na.b).is_some() && self.kc(na.c).is_some() {
                        let l = self.bin(op, na.b, b);
                        let r = self.bin(op, na.c, b);
                        return self.ite(na.a, l, r);
                    }
                }
                if let Some(k) = ka {
                    if self.hi[b as usize] <= k {
                        return self.con(1, 0);
                    }
                    if nb.op == Op::Zext {
                        let iw = self.w(nb.a);
                        let c = self.con(iw, k);
                        return self.bin(Op::Ult, c, nb.a);
                    }
                    if nb.op == Op::Ite && self.kc(nb.b).is_some() && self.kc(nb.c).is_some() {
                        let l = self.bin(op, a, nb.b);
                        let r = self.bin(op, a, nb.c);
                        return self.ite(nb.a, l, r);
                    }
                }
                if na.op == Op::Zext && nb.op == Op::Zext && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Ult, na.a, nb.a);
                }
                // (x & low-mask style) x >= x.hi never below
                if kb.is_none() && ka.is_none() && na.op == Op::And && (na.a == b || na.b == b) {
                    // nothing: x&y < x undecided
                }
            }
            Op::Ule => {
                // a <= b  ==  !(b < a)
                let x = self.bin(Op::Ult, b, a);
                return self.not(x);
            }
            Op::Slt => {
                if a == b {
                    return self.con(1, 0);
                }
                let top = 1u128 << (aw - 1);
                if self.hi[a as usize] < top && self.hi[b as usize] < top {
                    return self.bin(Op::Ult, a, b);
                }
                if let Some(k) = kb {
                    if k == 0 {
                        // sign bit
                        return self.extract(a, aw - 1, 1);
                    }
                    if k >= top && self.hi[a as usize] < top {
                        return self.con(1, 0);
                    }
                }
                if let Some(k) = ka {
                    if k >= top && self.hi[b as usize] < top {
                        return self.con(1, 1);
                    }
                    if k == mask(aw) {
                        // -1 < b
                        let s = self.extract(b, aw - 1, 1);
                        return self.not(s);
                    }
                }
            }
            Op::Sle => {
                let x = self.bin(Op::Slt, b, a);
                return self.not(x);
            }
            _ => {}
        }
        self.mk(op, w, a, b, 0, 0)
    }
    /// op(ite(c, k1, k2), k) with constant leaves -> ite(c, k1', k2')
    fn ite_const(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let na = self.node(a);
        if na.op == Op::Ite && self.kc(na.b).is_some() && self.kc(na.c).is_some() {
            let l = self.bin(op, na.b, b);
            let r = self.bin(op, na.c, b);
            return Some(self.ite(na.a, l, r));
        }
        None
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        match self.kc(c) {
            Some(0) => return b,
            Some(_) => return a,
            None => {}
        }
        let w = self.w(a);
        let nc = self.node(c);
        if nc.op == Op::Xor && self.kc(nc.b) == Some(1) {
            return self.ite(nc.a, b, a);
        }
        if w == 1 {
            match (self.kc(a), self.kc(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(Op::And, n, b);
                }
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, n, a);
                }
                _ => {}
            }
        }
        let nb = self.node(b);
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        let na = self.node(a);
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        self.mk(Op::Ite, w, c, a, b, 0)
    }
    pub fn zext(&mut self, a: E, w: u16) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(k) = self.kc(a) {
            return self.con(w, k);
        }
        let n = self.node(a);
        if n.op == Op::Zext {
            return self.zext(n.a, w);
        }
        if n.op == Op::Ite && self.kc(n.b).is_some() && self.kc(n.c).is_some() && aw > 1 {
            let l = self.zext(n.b, w);
            let r = self.zext(n.c, w);
            return self.ite(n.a, l, r);
        }
        self.mk(Op::Zext, w, a, 0, 0, 0)
    }
    pub fn sext(&mut self, a: E, w: u16) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(k) = self.kc(a) {
            return self.con(w, sext(k, aw) as u128);
        }
        if self.nbits(a) < aw as u32 {
            return self.zext(a, w);
        }
        self.mk(Op::Sext, w, a, 0, 0, 0)
    }
    pub fn extract(&mut self, a: E, lo: u16, w: u16) -> E {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw);
        if lo == 0 && w == aw {
            return a;
        }
        if let Some(k) = self.kc(a) {
            return self.con(w, k >> lo);
        }
        if self.nbits(a) <= lo as u32 {
            return self.con(w, 0);
        }
        let n = self.node(a);
        match n.op {
            Op::Extract => return self.extract(n.a, lo + n.k as u16, w),
            Op::Zext => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.con(w, 0);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::Sext => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                let h = self.extract(n.a, 0, lo + w - lw);
                let l = self.extract(n.b, lo, lw - lo);
                return self.concat(h, l);
            }
            Op::And | Op::Or | Op::Xor => {
                if self.kc(n.b).is_some() {
                    let x = self.extract(n.a, lo, w);
                    let y = self.extract(n.b, lo, w);
                    return self.bin(n.op, x, y);
                }
            }
            Op::Add | Op::Mul | Op::Sub if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            Op::Ite => {
                if self.kc(n.b).is_some() || self.kc(n.c).is_some() {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        self.mk(Op::Extract, w, a, 0, 0, lo as u128)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        if let (Some(x), Some(y)) = (self.kc(h), self.kc(l)) {
            return self.con(w, (x << lw) | y);
        }
        if self.kc(h) == Some(0) {
            return self.zext(l, w);
        }
        let (nh, nl) = (self.node(h), self.node(l));
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k == nl.k + lw as u128 {
            return self.extract(nh.a, nl.k as u16, w);
        }
        // extract(x) joined with x's own low part when x was fully narrowed
        if nh.op == Op::Extract && nh.a == l && false {
            return l;
        }
        // zext(extract(x, lo..)) : extract(x, 0..lo) -> extract of zext x
        if nh.op == Op::Zext {
            let inner = nh.a;
            let iw = self.w(inner);
            let j = self.concat(inner, l);
            let nj = self.node(j);
            if nj.op != Op::Concat || nj.a != inner {
                let _ = iw;
                return self.zext(j, w);
            }
        }
        if nh.op == Op::Ite && nl.op == Op::Ite && nh.a == nl.a {
            let x = self.concat(nh.b, nl.b);
            let y = self.concat(nh.c, nl.c);
            return self.ite(nh.a, x, y);
        }
        // right-assoc: concat(concat(a,b),c) with mergeable b,c
        if nh.op == Op::Concat {
            let j = self.concat(nh.b, l);
            let nj = self.node(j);
            if nj.op != Op::Concat || nj.a != nh.b {
                return self.concat(nh.a, j);
            }
        }
        self.mk(Op::Concat, w, h, l, 0, 0)
    }
    /// Evaluate under an assignment of the variables.
    /// Which values of its only variable make `e` true.
    pub fn truth(&mut self, e: E) -> u64 {
        if let Some(&t) = self.truths.get(&e) {
            return t;
        }
        let v = self.sup[e as usize];
        let (idx, hi) = (self.n[v as usize].k as usize, self.hi[v as usize]);
        let mut model = std::mem::take(&mut self.scratch);
        if model.len() <= idx {
            model.resize(idx + 1, 0);
        }
        let mut t = 0;
        for x in 0..=hi as u64 {
            model[idx] = x as u128;
            if self.eval(e, &model) == 1 {
                t |= 1 << x;
            }
        }
        self.scratch = model;
        self.truths.insert(e, t);
        t
    }
    pub fn eval(&mut self, e: E, model: &[u128]) -> u128 {
        self.epoch += 1;
        if self.memo.len() < self.n.len() {
            self.memo.resize(self.n.len() * 2, (0, 0));
        }
        self.ev(e, model)
    }
    fn ev(&mut self, e: E, model: &[u128]) -> u128 {
        let n = self.n[e as usize];
        if n.op == Op::Const {
            return n.k;
        }
        if n.op == Op::Var {
            return model[n.k as usize] & mask(n.w);
        }
        let (ep, v) = self.memo[e as usize];
        if ep == self.epoch {
            return v;
        }
        let r = match n.op {
            Op::Ite => {
                if self.ev(n.a, model) != 0 {
                    self.ev(n.b, model)
                } else {
                    self.ev(n.c, model)
                }
            }
            Op::Zext | Op::Sext | Op::Extract => {
                let a = self.ev(n.a, model);
                fold(n.op, n.w, self.w(n.a), 0, a, 0, 0, n.k).unwrap()
            }
            _ => {
                let a = self.ev(n.a, model);
                let b = self.ev(n.b, model);
                let (aw, bw) = (self.w(n.a), self.w(n.b));
                match fold(n.op, n.w, aw, bw, a, b, 0, n.k) {
                    Some(v) => v,
                    // SMT-LIB semantics of division by zero
                    None => match n.op {
                        Op::SDiv => {
                            if sext(a, aw) < 0 {
                                1
                            } else {
                                mask(n.w)
                            }
                        }
                        _ => a,
                    },
                }
            }
        };
        self.memo[e as usize] = (self.epoch, r);
        r
    }
}
