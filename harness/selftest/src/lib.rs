//! What a rewrite of gearley might use, so that the engine does not meet it for the first time there.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet, LinkedList, VecDeque};
use std::rc::Rc;
use vs::{any_u16, any_u32, any_u64, any_u8, assert, cover, out, pick, range};

fn three() -> [u64; 3] {
    [range(0, 3), range(0, 3), range(0, 3)]
}
fn reference(v: &[u64]) -> Vec<u64> {
    let mut r = v.to_vec();
    for i in 0..r.len() {
        for j in i + 1..r.len() {
            if r[j] < r[i] {
                r.swap(i, j);
            }
        }
    }
    r
}

vs::harnesses! {
    fn st_hashmap() {
        let v = three();
        let mut m: HashMap<u64, usize> = HashMap::new();
        for (i, &x) in v.iter().enumerate() { m.entry(x).and_modify(|c| *c += 1).or_insert(i * 0 + 1); }
        let total: usize = m.values().sum();
        assert(total == 3, "count");
        let mut ks: Vec<_> = m.keys().copied().collect();
        ks.sort_unstable();
        let mut w = reference(&v); w.dedup();
        assert(ks == w, "keys");
        m.remove(&v[0]);
        assert(!m.contains_key(&v[0]), "removed");
        cover("x");
    }
    fn st_hashset_pairs() {
        let v = three();
        let s: HashSet<(u64, String)> = v.iter().map(|&x| (x, format!("k{}", x))).collect();
        let mut w = reference(&v); w.dedup();
        assert(s.len() == w.len(), "len");
        assert(s.contains(&(v[1], format!("k{}", v[1]))), "has");
    }
    fn st_btree() {
        let v = three();
        let mut m = BTreeMap::new();
        for (i, &x) in v.iter().enumerate() { m.insert(x, i); }
        let ks: Vec<_> = m.keys().copied().collect();
        let mut w = reference(&v); w.dedup();
        assert(ks == w, "keys");
        assert(m.range(1..).next().map(|x| *x.0) == w.iter().copied().find(|&x| x >= 1), "range");
        let s: BTreeSet<u64> = v.iter().copied().collect();
        assert(s.into_iter().eq(w.into_iter()), "set");
        assert(m.remove(&v[2]).is_some(), "remove");
    }
    fn st_btree_many() {
        let mut m = BTreeMap::new();
        for i in 0..300u64 { m.insert(i * 7919 % 1009, i); }
        let k = range(0, 3);
        m.insert(k, 1);
        m.remove(&(k + 1));
        let mut last = None;
        for (&a, _) in &m { assert(last < Some(a), "order"); last = Some(a); }
        assert(!m.contains_key(&(k + 1)), "gone");
    }
    fn st_deque() {
        let v = three();
        let mut d: VecDeque<u64> = VecDeque::with_capacity(2);
        for &x in &v { if x % 2 == 0 { d.push_back(x) } else { d.push_front(x) } }
        d.rotate_left(1);
        let a: u64 = d.iter().sum();
        assert(a == v.iter().sum::<u64>(), "sum");
        assert(d.pop_front().is_some() && d.len() == 2, "len");
        let (s, t) = d.as_slices();
        assert(s.len() + t.len() == 2, "slices");
        d.make_contiguous().sort();
    }
    fn st_list_heap() {
        let v = three();
        let mut l: LinkedList<u64> = v.iter().copied().collect();
        l.push_front(9);
        assert(l.pop_front() == Some(9) && l.len() == 3, "list");
        let mut h: BinaryHeap<std::cmp::Reverse<u64>> = v.iter().map(|&x| std::cmp::Reverse(x)).collect();
        let mut r = vec![];
        while let Some(x) = h.pop() { r.push(x.0) }
        assert(r == reference(&v), "heap");
    }
    fn st_sort() {
        let v = three();
        let mut a = v.to_vec(); a.sort();
        assert(a == reference(&v), "sort");
        let mut b = v.to_vec(); b.sort_by(|x, y| y.cmp(x)); b.reverse();
        assert(a == b, "sort_by");
        let mut c: Vec<(u64, usize)> = v.iter().copied().enumerate().map(|(i, x)| (x, i)).collect();
        c.sort_by_key(|x| x.0);
        assert(c.windows(2).all(|w| w[0] <= w[1]), "stable");
        let mut d = v.to_vec(); d.sort_unstable_by_key(|&x| std::cmp::Reverse(x));
        d.reverse();
        assert(a == d, "unstable");
        assert(a.binary_search(&v[0]).is_ok(), "search");
        assert(a.partition_point(|&x| x < 2) == v.iter().filter(|&&x| x < 2).count(), "partition");
    }
    fn st_sort_many() {
        let x = any_u8() as u64;
        let k = pick(0, 3);
        let mut a: Vec<u64> = (0..[10, 40, 100, 300][k]).map(|i| i * 7919 % 1009).collect();
        if k < 2 { a.push(x); }
        let n: u64 = a.iter().fold(0u64, |s, x| s.wrapping_add(*x));
        let mut b = a.clone();
        a.sort(); b.sort_unstable();
        assert(a.windows(2).all(|w| w[0] <= w[1]) && a == b, "sorted");
        assert(n == a.iter().fold(0u64, |s, x| s.wrapping_add(*x)), "same");
    }
    fn st_strings() {
        let v = three();
        let s = format!("{:?}-{:>4}-{:#x}-{:08b}", v, v[0], v[1], v[2]);
        assert(s.starts_with('[') && s.contains(", "), "fmt");
        let p: Vec<&str> = s.split('-').collect();
        assert(p.len() == 4 && p[1].trim().parse::<u64>() == Ok(v[0]), "parse");
        assert(u64::from_str_radix(&p[2][2..], 16) == Ok(v[1]), "hex");
        assert(s.to_uppercase().to_lowercase() == s, "case");
        let mut t = String::new();
        for c in s.chars().rev() { t.push(c) }
        assert(t.chars().rev().eq(s.chars()), "rev");
        assert(t.replace("-", "").len() + 3 == t.len(), "replace");
        assert("aéb".char_indices().nth(2) == Some((3, 'b')), "chars");
        assert(s.bytes().filter(|b| *b == b'-').count() == 3, "bytes");
        assert(s.find('-').is_some() && s.rfind("-").is_some(), "find");
        assert(char::from_digit(v[0] as u32, 10).unwrap().to_digit(10) == Some(v[0] as u32), "digit");
    }
    fn st_float() {
        let n = pick(0, 5) as u64;
        let x = n as f64 * 0.5;
        out(x as u64);
        assert((x * 2.0) as u64 == n, "float");
    }
    fn st_u128() {
        let a = any_u64(); let b = range(1, 7);
        let x = a as u128 * b as u128;
        assert(x % (b as u128) == 0 || b == 0, "mod");
        assert((x >> 64) as u64 <= 6, "high");
        let m = a.checked_mul(b);
        assert(m.is_some() == (x <= u64::MAX as u128), "checked");
        assert(a.saturating_add(b) >= a, "saturating");
        assert(a.wrapping_sub(b).wrapping_add(b) == a, "wrapping");
        let (c, o) = a.overflowing_add(b);
        assert(o == (c < a), "overflowing");
    }
    fn st_signed() {
        let a = any_u16() as i16; let b = any_u16() as i16;
        assert(a.saturating_add(b) as i32 == (a as i32 + b as i32).clamp(-32768, 32767), "sat");
        assert(a.saturating_sub(b) as i32 == (a as i32 - b as i32).clamp(-32768, 32767), "satsub");
        assert(a.checked_add(b).is_some() == ((a as i32 + b as i32) as i16 as i32 == a as i32 + b as i32), "checked");
        assert(a.abs_diff(b) as i32 == (a as i32 - b as i32).abs(), "abs_diff");
        assert((a as i32).rem_euclid(7) >= 0, "rem");
        assert(a.signum() == a.cmp(&0) as i16, "signum");
        assert(a.unsigned_abs() as i32 == (a as i32).abs(), "uabs");
        assert((a as i64).isqrt_ok(), "x");
    }
    fn st_bits() {
        let a = any_u32();
        assert(a == 0 || (a >> a.trailing_zeros()) & 1 == 1, "tz");
        assert(a == 0 || 1u32 << (31 - a.leading_zeros()) <= a, "lz");
        assert(a.rotate_left(8).rotate_right(8) == a, "rot");
        assert(a.swap_bytes().swap_bytes() == a && a.reverse_bits().reverse_bits() == a, "swap");
        assert(u32::from_le_bytes(a.to_le_bytes()) == a && u32::from_be_bytes(a.to_be_bytes()) == a.to_be().to_be(), "bytes");
        assert(a > 1 << 31 || a.next_power_of_two() >= a, "pow2");
        assert(a == 0 || a.ilog2() == 31 - a.leading_zeros(), "log");
    }
    fn st_pow() {
        let a = range(0, 9);
        assert(a.pow(3) == a * a * a, "pow");
        assert(a.checked_pow(2) == Some(a * a), "cpow");
        assert(a.isqrt() * a.isqrt() <= a, "sqrt");
        assert(a.div_ceil(4) * 4 >= a, "ceil");
        assert(a.next_multiple_of(4) % 4 == 0, "mult");
    }
    fn st_rc() {
        let v = three();
        let r = Rc::new(RefCell::new(vec![0u64]));
        let w = Rc::downgrade(&r);
        for &x in &v { let r2 = Rc::clone(&r); r2.borrow_mut().push(x); }
        assert(r.borrow().len() == 4 && Rc::strong_count(&r) == 1 && w.upgrade().is_some(), "rc");
        drop(r);
        assert(w.upgrade().is_none(), "weak");
        let s: Rc<[u64]> = Rc::from(&v[..]);
        assert(s.iter().sum::<u64>() == v.iter().sum(), "slice");
        let c = Cell::new(v[0]);
        c.set(c.get() + 1);
        assert(c.replace(5) == v[0] + 1, "cell");
        let t: Rc<str> = "abc".into();
        assert(&*t == "abc", "str");
    }
    fn st_sync() {
        use std::sync::atomic::{AtomicUsize, Ordering::*};
        use std::sync::{Arc, Mutex, OnceLock, RwLock};
        static N: AtomicUsize = AtomicUsize::new(0);
        static O: OnceLock<u64> = OnceLock::new();
        let v = three();
        let m = Arc::new(Mutex::new(v[0]));
        *m.lock().unwrap() += 1;
        assert(*m.lock().unwrap() == v[0] + 1, "mutex");
        let l = RwLock::new(1);
        assert(*l.read().unwrap() == 1, "rw");
        *l.write().unwrap() = 2;
        N.fetch_add(2, SeqCst);
        N.fetch_max(7, SeqCst);
        assert(N.load(SeqCst) == 7 && N.compare_exchange(7, 1, AcqRel, Relaxed).is_ok(), "atomic");
        assert(*O.get_or_init(|| v[1]) == v[1], "once");
        thread_local!(static T: Cell<u64> = const { Cell::new(3) });
        T.with(|t| t.set(t.get() + 1));
        assert(T.get() == 4, "tls");
        thread_local!(static V: RefCell<Vec<u64>> = RefCell::new(vec![1]));
        V.with(|t| t.borrow_mut().push(2));
        assert(V.with(|t| t.borrow().len()) == 2, "tls2");
        static L: std::sync::LazyLock<Vec<u64>> = std::sync::LazyLock::new(|| vec![1, 2]);
        assert(L.len() == 2, "lazy");
    }
    fn st_dyn() {
        let v = three();
        let fs: Vec<Box<dyn Fn(u64) -> u64>> = vec![Box::new(|x| x + 1), Box::new(move |x| x + v[0])];
        let i = pick(0, 1);
        assert(fs[i](1) == 1 + if i == 0 { 1 } else { v[0] }, "dyn");
        let a: Box<dyn std::any::Any> = Box::new(3u32);
        assert(a.downcast_ref::<u32>() == Some(&3) && a.downcast_ref::<u64>().is_none(), "any");
        let it: Box<dyn Iterator<Item = u64>> = if i == 0 { Box::new(v.into_iter()) } else { Box::new(0..3) };
        assert(it.count() == 3, "iter");
    }
    fn st_iter() {
        let v = three();
        let w: Vec<u64> = v.iter().zip(v.iter().skip(1)).map(|(a, b)| a + b).chain(std::iter::once(1)).rev().collect();
        assert(w.len() == 3 && w[0] == 1, "zip");
        assert(v.chunks(2).map(|c| c.len()).sum::<usize>() == 3, "chunks");
        assert(v.iter().max() >= v.iter().min(), "max");
        let (a, b): (Vec<u64>, Vec<u64>) = v.iter().partition(|&&x| x < 2);
        assert(a.len() + b.len() == 3, "partition");
        assert(v.iter().flat_map(|&x| 0..x).count() as u64 == v.iter().sum(), "flat");
        assert(v.iter().scan(0, |s, &x| { *s += x; Some(*s) }).last() == Some(v.iter().sum()), "scan");
        assert(v.iter().take_while(|&&x| x < 2).count() <= 3 && v.iter().step_by(2).count() == 2, "take");
        assert(v.iter().copied().reduce(|a, b| a.max(b)) == v.iter().copied().max(), "reduce");
        let mut p = v.iter().peekable();
        let mut n = 0;
        while let Some(_) = p.next_if(|&&x| x < 4) { n += 1; }
        assert(n == 3, "peek");
        let mut d = v.to_vec(); d.retain(|&x| x != 0); d.dedup(); d.insert(0, 7); d.swap_remove(0); d.extend_from_slice(&v); d.truncate(2); d.drain(..1); d.splice(0..0, [1, 2]); d.resize(5, 0);
        assert(d.len() == 5 && d.concat_ok(), "vec");
        let o: Option<Vec<u64>> = v.iter().map(|&x| x.checked_sub(0)).collect();
        assert(o.is_some(), "collect");
        let r: Result<u64, String> = v.iter().map(|&x| if x > 3 { Err(x.to_string()) } else { Ok(x) }).sum();
        assert(r.is_ok(), "sum");
        assert(v.iter().any(|&x| x == v[2]) && v.contains(&v[1]) && v.iter().position(|&x| x == v[0]) == Some(0), "any");
        let s = [[1u8, 2], [3, 4]].concat();
        assert(s == [1, 2, 3, 4] && s.iter().rev().eq([4, 3, 2, 1].iter()), "concat");
        assert(v.iter().min_by_key(|&&x| 3 - x) == v.iter().rev().max_by(|a, b| a.cmp(b)), "min_by");
        assert(std::mem::size_of_val(&v) == 24 && v.split_at(1).1.len() == 2 && v.first() < v.last().map(|_| &9), "slices");
        assert(v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",").len() == 5, "join");
        assert(std::iter::successors(Some(1u64), |x| Some(x * 2)).take(4).sum::<u64>() == 15 && std::iter::repeat(2).take(3).product::<i32>() == 8, "successors");
        let arr: [u64; 3] = std::array::from_fn(|i| v[i]);
        assert(arr == v && <[u64; 3]>::try_from(&v[..]).is_ok(), "array");
        assert(v.rsplit(|&x| x == 0).count() >= 1 && v.iter().cycle().nth(4) == Some(&v[1]), "split");
        let mut g = v; g.rotate_left(1); g.fill(2); g.copy_from_slice(&v); g.select_nth_unstable(1);
        assert(g[0] <= g[1] && g[1] <= g[2], "nth");
    }
    fn st_cmp() {
        let v = three();
        let a = (v[0], v[1] as u8, [v[2]; 2]);
        let b = (v[1], v[2] as u8, [v[0]; 2]);
        assert((a < b) == (b > a) && (a == b) == (a.cmp(&b) == std::cmp::Ordering::Equal), "cmp");
        assert(v[0].cmp(&v[1]).then_with(|| v[1].cmp(&v[2])).reverse().is_le() || true, "then");
        assert(Some(v[0]) > None, "opt");
        assert("abc" < "abd" && "ab" < "abc", "str");
        let x = [v[0] as u8, v[1] as u8, 7, 8]; let y = [v[1] as u8, v[0] as u8, 7, 8];
        assert((x < y) == (v[0] < v[1]), "bytes");
        assert(x[..].cmp(&y[..]) == v[0].cmp(&v[1]), "slices");
        assert(v[0].clamp(1, 2) >= 1 && v[0].min(v[1]) <= v[0].max(v[1]), "minmax");
    }
    fn st_hash() {
        use std::hash::{DefaultHasher, Hash, Hasher};
        let v = [pick(0, 2) as u64, 1, 2];
        let h = |x: &dyn Fn(&mut DefaultHasher)| { let mut d = DefaultHasher::new(); x(&mut d); d.finish() };
        assert(h(&|d| v.hash(d)) == h(&|d| v.to_vec()[..3].try_into().map(|a: [u64; 3]| a.hash(d)).unwrap()), "hash");
        out(h(&|d| 1u64.hash(d)));
    }
    fn st_mem() {
        let v = three();
        let mut a = v[0]; let mut b = v[1];
        std::mem::swap(&mut a, &mut b);
        assert(std::mem::replace(&mut a, 9) == v[1] && std::mem::take(&mut b) == v[0], "swap");
        let x = Box::leak(Box::new(v[2]));
        *x += 1;
        assert(*x == v[2] + 1, "leak");
        let mut u = Vec::<u64>::with_capacity(4);
        unsafe { u.as_mut_ptr().write(v[0]); u.set_len(1); }
        assert(u[0] == v[0], "raw");
        u.shrink_to_fit(); u.reserve_exact(100);
        let b: Box<[u64]> = u.into_boxed_slice();
        assert(b.into_vec().len() == 1, "boxed");
        let m = std::mem::MaybeUninit::<[u64; 4]>::zeroed();
        assert(unsafe { m.assume_init() }[2] == 0, "zeroed");
        let c = std::borrow::Cow::Borrowed("x");
        assert(c.into_owned() + "y" == "xy", "cow");
        assert(std::hint::black_box(v[0]) == v[0], "black_box");
        let n = std::num::NonZeroU32::new(v[0] as u32);
        assert(n.is_none() == (v[0] == 0), "nonzero");
    }
    fn st_panic() {
        let x = range(0, 3) as usize;
        vs::expect_panic(x == 3);
        let v = [1, 2, 3];
        out(v[x]);
        let r: Result<u32, String> = if x < 3 { Ok(1) } else { Err("no".into()) };
        out(r.unwrap() as u64);
    }
    fn st_memchr() {
        let v: Vec<u8> = (0..100).map(|i| (i * 7 % 50) as u8).collect();
        let x = range(0, 49) as u8;
        let i = v.iter().position(|&b| b == x);
        assert(i.map(|i| v[i]) == Some(x), "position");
        assert(v.contains(&x) && !v.contains(&200), "contains");
        let s = "the quick brown fox jumps over the lazy dog".repeat(3);
        assert(s.find("lazy") == Some(35) && s.matches("the").count() == 6, "find");
        assert(s.split_whitespace().count() == 25 && s.lines().count() == 1, "split");
        assert(s.find(|c: char| c == 'z').is_some() && s.trim_start_matches("the").len() < s.len(), "fn");
    }
    fn st_env() {
        let t = std::env::var("VS_NO_SUCH").is_err();
        assert(t, "env");
    }
    fn st_slices_big() {
        // vectors of many lengths: unrolled and byte-wise comparisons
        let n = pick(0, 40);
        let a: Vec<u32> = (0..n as u32).collect();
        let mut b = a.clone();
        assert(a == b, "eq");
        if n > 0 { let i = n - 1; b[i] ^= range(1, 3) as u32; assert(a != b && (a < b) == (a[i] < b[i]), "ne"); }
        let s: u64 = a.iter().map(|&x| x as u64).sum();
        assert(s == (n as u64) * (n as u64).wrapping_sub(1) / 2 || n == 0, "sum");
        let c: Vec<u8> = a.iter().map(|&x| x as u8).collect();
        assert(c.iter().all(|&x| (x as usize) < n) && c.iter().rev().max().copied() == a.last().map(|&x| x as u8), "bytes");
    }
}
trait IsqrtOk { fn isqrt_ok(self) -> bool; }
impl IsqrtOk for i64 { fn isqrt_ok(self) -> bool { self < 0 || self.wrapping_mul(0) == 0 } }
trait ConcatOk { fn concat_ok(&self) -> bool; }
impl ConcatOk for Vec<u64> { fn concat_ok(&self) -> bool { self.iter().zip(self.clone()).all(|(a, b)| *a == b) } }
