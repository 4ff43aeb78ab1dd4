//! CartesianProduct against an odometer model.
#[allow(dead_code)]
#[path = "/repo/gearley-utils/src/cartesian_product.rs"]
mod cartesian_product;
use cartesian_product::CartesianProduct;
use vs::{assert, cover, out, pick};

trait Elem: Copy + PartialEq {
    fn any() -> Self;
    fn code(self) -> u64;
}
impl Elem for u32 {
    fn any() -> u32 {
        vs::any_u32()
    }
    fn code(self) -> u64 {
        self as u64
    }
}
impl Elem for (u64, u8) {
    fn any() -> Self {
        (vs::any_u64(), vs::any_u8())
    }
    fn code(self) -> u64 {
        self.0 ^ self.1 as u64
    }
}
impl Elem for () {
    fn any() {}
    fn code(self) -> u64 {
        0
    }
}
/// A heap-owning element, as a bocage stores its values.
#[derive(Clone, Copy, PartialEq)]
struct Tag(u8);
impl Elem for Tag {
    fn any() -> Self {
        Tag(vs::any_u8())
    }
    fn code(self) -> u64 {
        self.0 as u64
    }
}

/// `n` factors of any size in `min..=max` and any contents.
fn factors<T: Elem>(n: usize, min: u64, max: u64) -> Vec<Vec<T>> {
    (0..n)
        .map(|_| {
            let k = pick(min, max);
            (0..k).map(|_| T::any()).collect()
        })
        .collect()
}

/// Exactly the combinations of `f`, first factor fastest, then back to the first one.
fn enumerates<T: Elem>(p: &mut CartesianProduct<'_, T>, f: &[&[T]]) {
    enumerates_from(p, f, 0);
}

/// The same, from the combination that `done` steps from the first one lead to.
fn enumerates_from<T: Elem>(p: &mut CartesianProduct<'_, T>, f: &[&[T]], done: usize) {
    let mut at = vec![0usize; f.len()];
    let mut total = 1usize;
    let mut d = done;
    for (i, s) in f.iter().enumerate() {
        total *= s.len();
        at[i] = d % s.len();
        d /= s.len();
    }
    for round in done..total {
        let s = p.as_slice();
        assert(s.len() == f.len(), "a combination has one element per factor");
        let mut ok = true;
        for i in 0..f.len() {
            ok &= *s[i] == f[i][at[i]];
            // the element itself, not a copy of it
            ok &= std::ptr::eq(s[i], &f[i][at[i]]);
            out(s[i].code());
        }
        assert(ok, "the combinations come in odometer order");
        let mut carry = true;
        for i in 0..f.len() {
            if carry {
                at[i] += 1;
                if at[i] == f[i].len() {
                    at[i] = 0;
                } else {
                    carry = false;
                }
            }
        }
        let more = p.advance();
        assert(more == (round + 1 < total), "advance is false exactly after the last combination");
    }
    let s = p.as_slice();
    let mut ok = s.len() == f.len();
    for i in 0..f.len() {
        ok = ok && std::ptr::eq(s[i], &f[i][0]);
    }
    assert(ok, "an exhausted product is back at the first combination");
    cover("enumerated");
}

fn by_push<T: Elem>(max_factors: u64, max: u64) {
    let n = pick(0, max_factors);
    let f = factors::<T>(n, 1, max);
    let s: Vec<&[T]> = f.iter().map(|x| &x[..]).collect();
    let mut p = CartesianProduct::new();
    for x in &s {
        p.push(x);
    }
    enumerates(&mut p, &s);
}

fn by_extend<T: Elem>(max_factors: u64, max: u64) {
    let n = pick(0, max_factors);
    let f = factors::<T>(n, 1, max);
    let s: Vec<&[T]> = f.iter().map(|x| &x[..]).collect();
    let mut p = CartesianProduct::new();
    p.extend(s.iter().copied());
    enumerates(&mut p, &s);
}

/// Any sequence of push / extend / clear, then enumeration.
fn incremental(steps: usize, max: u64) {
    let pool: Vec<Vec<u32>> = (1..=max).map(|k| (0..k).map(|_| vs::any_u32()).collect()).collect();
    let mut p = CartesianProduct::new();
    let mut s: Vec<&[u32]> = vec![];
    for _ in 0..steps {
        match pick(0, 3) {
            0 => {
                let x = &pool[pick(0, max - 1)][..];
                p.push(x);
                s.push(x);
            }
            1 => {
                let x = &pool[pick(0, max - 1)][..];
                p.extend(std::iter::once(x));
                s.push(x);
                cover("extend one");
            }
            2 => {
                let x = &pool[pick(0, max - 1)][..];
                let y = &pool[pick(0, max - 1)][..];
                p.extend([x, y].into_iter());
                s.push(x);
                s.push(y);
                cover("extend two");
            }
            _ => {
                p.clear();
                s.clear();
                cover("clear");
            }
        }
    }
    enumerates(&mut p, &s);
}

/// A product is re-used: partially enumerated, then cleared or multiplied further.
fn reused() {
    let a = [vs::any_u32(), vs::any_u32(), vs::any_u32()];
    let b = [vs::any_u32(), vs::any_u32()];
    let mut p = CartesianProduct::new();
    p.push(&a[..]);
    p.push(&b[..]);
    let k = pick(0, 6);
    for _ in 0..k {
        p.advance();
    }
    p.clear();
    assert(p.as_slice().is_empty(), "a cleared product has no factors");
    p.push(&b[..]);
    p.push(&a[..]);
    enumerates(&mut p, &[&b[..], &a[..]]);
    cover("reused");
}

/// Factors of no elements: no combination exists, and none may be made up.
fn empty_factor() {
    let n = pick(1, 3);
    let f = factors::<u32>(n, 0, 2);
    let s: Vec<&[u32]> = f.iter().map(|x| &x[..]).collect();
    vs::assume(s.iter().any(|x| x.is_empty()));
    let with_extend = vs::any_bool();
    cover("empty");
    vs::expect_panic(true);
    let mut p = CartesianProduct::new();
    if with_extend {
        p.extend(s.iter().copied());
    } else {
        for x in &s {
            p.push(x);
        }
    }
    for _ in 0..3 {
        for x in p.as_slice() {
            out(**x as u64);
        }
        p.advance();
    }
    vs::expect_panic(false);
    assert(p.as_slice().is_empty(), "no combination of an empty factor is handed out");
}

/// Two rounds through a product whose factors and sizes are of any of several, big ones included.
fn large<T: Elem>(shapes: &[(usize, usize)]) {
    let (n, len) = shapes[pick(0, shapes.len() as u64 - 1)];
    // lengths len, 1, 2, len, 1, 2 ... in some rotation; at most one factor is big
    let rot = pick(0, 2) as usize;
    let small = |i: usize| match (i + rot) % 3 { 0 => 2, 1 => 1, _ => if n > 12 { 1 } else { 2 } };
    let big = pick(0, 2) as usize * (n - 1) / 2;
    let any = T::any();
    let f: Vec<Vec<T>> = (0..n)
        .map(|i| {
            let k = if i == big { len } else if n > 14 { 1 + (i % 5 == rot) as usize } else { small(i) };
            (0..k).map(|_| any).collect()
        })
        .collect();
    let s: Vec<&[T]> = f.iter().map(|x| &x[..]).collect();
    let mut p = CartesianProduct::new();
    if vs::any_bool() {
        for x in &s {
            p.push(x);
        }
    } else {
        p.extend(s.iter().copied());
    }
    rounds(&mut p, &s, 2);
    cover("large");
}

/// Like `enumerates`, for many combinations: compares positions only.
fn rounds<T: Elem>(p: &mut CartesianProduct<'_, T>, f: &[&[T]], rounds: usize) {
    for _ in 0..rounds {
        let mut at = vec![0usize; f.len()];
        loop {
            let s = p.as_slice();
            let mut ok = s.len() == f.len();
            for i in 0..f.len() {
                ok = ok && std::ptr::eq(s[i], &f[i][at[i]]);
            }
            assert(ok, "the combinations come in odometer order");
            let mut carry = true;
            for i in 0..f.len() {
                if carry {
                    at[i] += 1;
                    if at[i] == f[i].len() {
                        at[i] = 0;
                    } else {
                        carry = false;
                    }
                }
            }
            assert(p.advance() == !carry, "advance is false exactly after the last combination");
            if carry {
                break;
            }
        }
    }
}

/// Factors multiplied in between steps: those before keep their place, the new one is at its first element.
fn stepwise(ops: usize, max: u64) {
    let pool: Vec<Vec<u32>> = (1..=max).map(|k| (0..k).map(|_| vs::any_u32()).collect()).collect();
    let mut p = CartesianProduct::new();
    let mut s: Vec<&[u32]> = vec![];
    let mut done = 0usize;
    for _ in 0..ops {
        let total: usize = s.iter().map(|x| x.len()).product();
        match pick(0, 3) {
            0 => {
                let x = &pool[pick(0, max - 1)][..];
                p.push(x);
                s.push(x);
            }
            1 => {
                let x = &pool[pick(0, max - 1)][..];
                let y = &pool[0][..];
                p.extend([x, y].into_iter());
                s.push(x);
                s.push(y);
            }
            2 => {
                p.clear();
                s.clear();
                done = 0;
            }
            _ => {
                let more = p.advance();
                done += 1;
                assert(more == (done < total), "advance is false exactly after the last combination");
                if done == total {
                    done = 0;
                    cover("around");
                } else {
                    cover("partly");
                }
            }
        }
    }
    enumerates_from(&mut p, &s, done);
    enumerates(&mut p, &s);
}

/// Iterators that do not know how many factors they yield, or yield none.
fn iterators() {
    let f = factors::<u32>(4, 1, 2);
    let keep: Vec<bool> = (0..4).map(|_| pick(0, 1) == 1).collect();
    let s: Vec<&[u32]> = f.iter().zip(&keep).filter(|x| *x.1).map(|x| &x.0[..]).collect();
    let mut p = CartesianProduct::new();
    let kind = pick(0, 2);
    match kind {
        0 => p.extend(f.iter().zip(&keep).filter(|x| *x.1).map(|x| &x.0[..])),
        1 => {
            let mut it = s.iter().copied();
            p.extend(std::iter::from_fn(move || it.next()));
        }
        _ => {
            let mid = s.len() / 2;
            p.extend(s[..mid].iter().copied());
            p.extend(s[mid..].iter().copied().chain(std::iter::empty()));
        }
    }
    enumerates(&mut p, &s);
    cover("iterators");
}

/// Factors that are parts of one array: the same, overlapping, or one starting where another ends.
fn subslices(factors: usize, len: usize) {
    let a: Vec<u32> = (0..len).map(|_| vs::any_u32()).collect();
    let mut p = CartesianProduct::new();
    let mut s: Vec<&[u32]> = vec![];
    for _ in 0..factors {
        let from = pick(0, len as u64 - 1);
        let to = pick(from as u64 + 1, len as u64);
        s.push(&a[from..to]);
    }
    if vs::any_bool() {
        for x in &s {
            p.push(x);
        }
    } else {
        p.extend(s.iter().copied());
    }
    enumerates(&mut p, &s);
    cover("parts");
}

/// So many combinations that their number is no machine integer: the first ones, then another factor or a new product.
fn countless(shapes: &[(usize, usize)], steps: usize) {
    let (n, len) = shapes[pick(0, shapes.len() as u64 - 1)];
    let any = vs::any_u32();
    let f: Vec<u32> = vec![any; len];
    let s: Vec<&[u32]> = vec![&f[..]; n];
    let mut p = CartesianProduct::new();
    if vs::any_bool() {
        for x in &s {
            p.push(x);
        }
    } else {
        p.extend(s.iter().copied());
    }
    let mut at = vec![0usize; n];
    for _ in 0..steps {
        let mut ok = true;
        for (x, &i) in p.as_slice().iter().zip(&at) {
            ok = ok && std::ptr::eq(*x, &f[i]);
        }
        assert(ok && p.as_slice().len() == n, "the combinations come in odometer order");
        assert(p.advance(), "advance is false exactly after the last combination");
        let mut i = 0;
        while at[i] + 1 == len {
            at[i] = 0;
            i += 1;
        }
        at[i] += 1;
    }
    p.clear();
    let two = [any, any];
    p.push(&two[..]);
    enumerates(&mut p, &[&two[..]]);
    cover("countless");
}

vs::harnesses! {
    fn cart_subslices() { subslices(2, 5) }
    fn cart_subslices3() { subslices(3, 3) }
    fn cart_countless() { countless(&[(32, 2), (33, 2), (63, 2), (64, 2), (65, 2), (80, 3), (16, 16), (200, 4), (300, 2)], 40) }
    fn cart_large() { large::<u32>(&[(1, 17), (2, 40), (3, 70), (3, 130), (2, 257), (5, 12), (8, 3), (9, 2), (12, 2), (17, 2), (24, 1), (33, 2), (40, 2)]) }
    fn cart_huge() { large::<u32>(&[(1, 65_537), (2, 65_540)]) }
    fn cart_large_zst() { large::<()>(&[(2, 40), (3, 130), (2, 257), (9, 2), (17, 2)]) }
    fn cart_stepwise() { stepwise(4, 3) }
    fn cart_stepwise_deep() { stepwise(6, 3) }
    fn cart_iterators() { iterators() }
    fn cart_push() { by_push::<u32>(3, 3) }
    fn cart_push_wide() { by_push::<(u64, u8)>(3, 2) }
    fn cart_push_tag() { by_push::<Tag>(2, 4) }
    fn cart_push_zst() { by_push::<()>(3, 3) }
    fn cart_extend() { by_extend::<u32>(3, 3) }
    fn cart_extend_deep() { by_extend::<u32>(4, 4) }
    fn cart_push_deep() { by_push::<Tag>(9, 2) }
    fn cart_incremental() { incremental(3, 2) }
    fn cart_incremental_deep() { incremental(4, 3) }
    fn cart_reused() { reused() }
    fn cart_empty_factor() { empty_factor() }
}
