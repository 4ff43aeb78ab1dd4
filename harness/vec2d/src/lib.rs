//! Vec2d against a list-of-lists model.
use gearley_vec2d::{Vec2d, Vec2dCapacity};
use vs::{assert, assume, cover, out, pick};

/// Element types the container is instantiated at.
trait Elem: Copy + PartialEq + std::fmt::Debug {
    fn any() -> Self;
    fn code(self) -> u64;
}
impl Elem for u32 {
    fn any() -> u32 {
        vs::any_u32()
    }
    fn code(self) -> u64 {
        self as u64
    }
}
impl Elem for () {
    fn any() {}
    fn code(self) -> u64 {
        0
    }
}
impl Elem for u8 {
    fn any() -> u8 {
        vs::any_u8()
    }
    fn code(self) -> u64 {
        self as u64
    }
}
/// One decimal digit: what the JSON harnesses store.
#[derive(Clone, Copy, PartialEq, Debug, miniserde::Serialize, miniserde::Deserialize, serde::Serialize, serde::Deserialize)]
struct Digit {
    d: u8,
}
impl Elem for Digit {
    fn any() -> Self {
        Digit { d: vs::range(0, 9) as u8 }
    }
    fn code(self) -> u64 {
        self.d as u64
    }
}
/// Shape of the recognizer's items: padding included.
impl Elem for (u32, u8, u64) {
    fn any() -> Self {
        (vs::any_u32(), vs::any_u8(), vs::any_u64())
    }
    fn code(self) -> u64 {
        self.0 as u64 ^ (self.1 as u64) << 32 ^ self.2
    }
}

struct Model<T> {
    sets: Vec<Vec<T>>,
    last: Vec<T>,
}

impl<T: Elem> Model<T> {
    fn count(&self) -> usize {
        self.sets.iter().map(|s| s.len()).sum::<usize>() + self.last.len()
    }
    fn flat(&self) -> Vec<T> {
        let mut v: Vec<T> = Vec::new();
        for s in &self.sets {
            v.extend_from_slice(s);
        }
        v.extend_from_slice(&self.last);
        v
    }
}

fn same<T: PartialEq>(a: &[T], b: &[T]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    // no short circuit: one symbolic conjunction instead of a path per item
    let mut ok = true;
    for i in 0..a.len() {
        ok &= a[i] == b[i];
    }
    ok
}

fn check<T: Elem>(v: &mut Vec2d<T>, m: &Model<T>) {
    assert(v.len() == m.sets.len() + 1, "len counts sealed sets plus the in-progress set");
    assert(v.item_count() == m.count(), "item_count");
    let mut start = 0;
    for i in 0..m.sets.len() {
        assert(v.index_at(i) == start, "index_at is the start of the set");
        assert(same(&v[i], &m.sets[i]), "sealed set contents");
        start += m.sets[i].len();
    }
    assert(v.index_at(m.sets.len()) == start, "index_at of the in-progress set");
    assert(same(v.last(), &m.last), "in-progress set contents");
    assert(same(v.last_mut(), &m.last), "in-progress set contents through last_mut");
    let flat = m.flat();
    match (v.last_item(), flat.last()) {
        (Some(a), Some(b)) => assert(*a == *b, "last_item"),
        (None, None) => {}
        _ => assert(false, "last_item presence"),
    }
    for i in 0..flat.len() {
        assert(v.get_item(i).map_or(false, |x| *x == flat[i]), "get_item");
    }
    assert(v.get_item(flat.len()).is_none(), "get_item past the end is None");
    assert(v.get_item(flat.len() + 1).is_none(), "get_item past the end is None");
}

/// An arbitrary reachable container: any number of sealed sets up to `max_sets`,
/// each of any size up to `max_len`, any in-progress set.
fn arbitrary<T: Elem>(max_sets: u64, max_len: u64) -> (Vec2d<T>, Model<T>) {
    let mut m = Model { sets: Vec::new(), last: Vec::new() };
    let mut v = Vec2d::<T>::new();
    let k = pick(0, max_sets);
    for _ in 0..k {
        let n = pick(0, max_len);
        let mut s = Vec::new();
        for _ in 0..n {
            let x = T::any();
            s.push(x);
            v.push_item(x);
        }
        v.next_set();
        m.sets.push(s);
    }
    let n = pick(0, max_len);
    for _ in 0..n {
        let x = T::any();
        m.last.push(x);
        v.push_item(x);
    }
    (v, m)
}

fn step<T: Elem>(v: &mut Vec2d<T>, m: &mut Model<T>) {
    match pick(0, 8) {
        0 => {
            let x = T::any();
            v.push_item(x);
            m.last.push(x);
        }
        1 => {
            v.next_set();
            let l = std::mem::take(&mut m.last);
            m.sets.push(l);
        }
        2 => {
            // precondition: an in-progress item exists
            let want = m.last.pop();
            if let Some(w) = want {
                let got = v.pop_item();
                assert(got == Some(w), "pop_item returns the newest item");
                cover("pop");
            } else if m.count() == 0 {
                assert(v.pop_item().is_none(), "pop_item on an empty container");
            }
        }
        3 => {
            let n = pick(0, m.sets.len() as u64);
            v.truncate(n);
            m.sets.truncate(n);
            cover("truncate");
        }
        4 => {
            // precondition: only in-progress items are cut (or nothing)
            let cut = pick(0, m.last.len() as u64);
            let keep = m.count() - cut;
            v.truncate_chart(keep);
            let l = m.last.len() - cut;
            m.last.truncate(l);
        }
        5 => {
            v.clear();
            m.sets.clear();
            m.last.clear();
        }
        6 => {
            let n = pick(0, 2);
            let mut items = Vec::new();
            for _ in 0..n {
                items.push(T::any());
            }
            v.extend_with_set(items.iter().copied());
            m.last.extend_from_slice(&items);
            let l = std::mem::take(&mut m.last);
            m.sets.push(l);
        }
        7 => {
            let n = pick(0, 2);
            let mut sets: Vec<Vec<T>> = Vec::new();
            for _ in 0..n {
                let k = pick(0, 1);
                let mut s = Vec::new();
                for _ in 0..k {
                    s.push(T::any());
                }
                sets.push(s);
            }
            v.extend(sets.iter().map(|s| s.iter().copied()));
            for s in sets {
                m.last.extend_from_slice(&s);
                let l = std::mem::take(&mut m.last);
                m.sets.push(l);
            }
        }
        _ => {
            // edits through last_mut stay in the in-progress set
            let n = m.last.len();
            if n > 0 {
                let i = pick(0, n as u64 - 1);
                let x = T::any();
                v.last_mut()[i] = x;
                m.last[i] = x;
                cover("last_mut");
            }
        }
    }
}

fn history<T: Elem>(sets: u64, len: u64, steps: usize) {
    let (mut v, mut m) = arbitrary::<T>(sets, len);
    check(&mut v, &m);
    for _ in 0..steps {
        step(&mut v, &mut m);
        check(&mut v, &m);
    }
    for x in m.flat() {
        out(x.code());
    }
    cover("history");
}

fn from_iterator<T: Elem>(max_sets: u64, max_len: u64) {
    let mut sets: Vec<Vec<T>> = Vec::new();
    let k = pick(0, max_sets);
    for _ in 0..k {
        let n = pick(0, max_len);
        sets.push((0..n).map(|_| T::any()).collect());
    }
    let mut v: Vec2d<T> = match pick(0, 3) {
        0 => sets.iter().map(|s| s.iter().copied()).collect(),
        // iterators that know less about their length
        1 => sets.iter().map(|s| s.iter().copied().filter(|_| true)).filter(|_| true).collect(),
        2 => {
            let mut it = sets.iter();
            std::iter::from_fn(move || it.next().map(|s| s.iter().copied().take(1).chain(s.iter().copied().skip(1)))).collect()
        }
        _ => {
            let mut v = Vec2d::new();
            v.extend(sets.iter().take(1).map(|s| s.clone()));
            v.extend(sets.iter().skip(1).map(|s| s.clone()));
            v
        }
    };
    let m = Model { sets, last: vec![] };
    check(&mut v, &m);
    let mut w = v.clone();
    let x = T::any();
    w.push_item(x);
    w.next_set();
    check(&mut v, &m);
    let mut sets = m.sets;
    sets.push(vec![x]);
    check(&mut w, &Model { sets, last: vec![] });
    cover("from_iter");
}

/// Containers of many sets and of many items: any one of several sizes, any shape of a period of three sets, any
/// value anywhere.
fn large<T: Elem>(make: fn(u64) -> T, sizes: &[(u64, u64)], steps: usize) {
    let (k, n) = sizes[pick(0, sizes.len() as u64 - 1)];
    let mut m = Model { sets: Vec::new(), last: Vec::new() };
    let mut v = Vec2d::<T>::new();
    let rot = pick(0, 2) as u64;
    let x = T::any();
    let mut c = 0;
    for i in 0..=k {
        // lengths n, 1, 0, n, 1, 0, ...
        let len = match (i + rot) % 3 { 0 => n, 1 => 1, _ => 0 };
        let mut s = Vec::new();
        for _ in 0..len {
            let y = if c % 97 == 5 { x } else { make(c) };
            c += 1;
            s.push(y);
            v.push_item(y);
        }
        if i < k {
            v.next_set();
            m.sets.push(s);
        } else {
            m.last = s;
        }
    }
    check(&mut v, &m);
    for _ in 0..steps {
        step_large(&mut v, &mut m);
        check(&mut v, &m);
    }
    out(x.code());
    cover("large");
}

/// One operation whose argument may be anywhere in a big container.
fn step_large<T: Elem>(v: &mut Vec2d<T>, m: &mut Model<T>) {
    let part = |n: u64| -> usize {
        match pick(0, 5) {
            0 => 0,
            1 => 1.min(n) as usize,
            2 => n as usize / 3,
            3 => n as usize / 2,
            4 => n.saturating_sub(1) as usize,
            _ => n as usize,
        }
    };
    match pick(0, 5) {
        0 => {
            let n = part(m.sets.len() as u64);
            v.truncate(n);
            m.sets.truncate(n);
            cover("truncate");
        }
        1 => {
            let cut = part(m.last.len() as u64);
            v.truncate_chart(m.count() - cut);
            let l = m.last.len() - cut;
            m.last.truncate(l);
        }
        2 => {
            v.clear();
            m.sets.clear();
            m.last.clear();
        }
        3 => {
            let mut sets = m.sets.clone();
            sets.truncate(7);
            v.extend(sets.iter().map(|s| s.iter().copied()));
            for s in sets {
                m.last.extend_from_slice(&s);
                let l = std::mem::take(&mut m.last);
                m.sets.push(l);
            }
        }
        4 => {
            let n = part(m.last.len() as u64);
            for _ in 0..n {
                assert(v.pop_item() == m.last.pop(), "pop_item returns the newest item");
            }
        }
        _ => {
            let x = T::any();
            v.push_item(x);
            m.last.push(x);
            v.next_set();
            let l = std::mem::take(&mut m.last);
            m.sets.push(l);
        }
    }
}

/// Items that own memory: they are moved, never copied or dropped twice, and dropped when cut.
fn owned(max_sets: u64, max_len: u64) {
    use std::rc::Rc;
    let mark = Rc::new(());
    let item = |x: u32| (Rc::clone(&mark), Box::new(x));
    let mut v: Vec2d<(Rc<()>, Box<u32>)> = if vs::any_bool() {
        Vec2d::new()
    } else {
        Vec2d::with_capacity(Vec2dCapacity { chart_capacity: 1, indices_capacity: 1 })
    };
    let mut sets: Vec<Vec<u32>> = Vec::new();
    let k = pick(0, max_sets);
    for _ in 0..k {
        let n = pick(0, max_len);
        let s: Vec<u32> = (0..n).map(|_| vs::any_u32()).collect();
        v.extend_with_set(s.iter().map(|&x| item(x)));
        sets.push(s);
    }
    let n = pick(0, max_len);
    let mut last: Vec<u32> = (0..n).map(|_| vs::any_u32()).collect();
    for &x in &last {
        v.push_item(item(x));
    }
    let mut w = v.clone();
    let held = |sets: &Vec<Vec<u32>>, last: &Vec<u32>| sets.iter().map(|s| s.len()).sum::<usize>() + last.len();
    assert(Rc::strong_count(&mark) == 1 + 2 * held(&sets, &last), "items are held once per container");
    match pick(0, 3) {
        0 => {
            w.clear();
            sets.clear();
            last.clear();
        }
        1 => {
            let got = w.pop_item().map(|x| *x.1);
            if let Some(x) = last.pop() {
                assert(got == Some(x), "pop_item returns the newest item");
            } else {
                // pops of sealed items are not specified
                assume(got.is_none());
            }
        }
        2 => {
            let cut = pick(0, last.len() as u64);
            let all = held(&sets, &last);
            w.truncate_chart(all - cut);
            last.truncate(last.len() - cut);
        }
        _ => {
            let s = [vs::any_u32(), vs::any_u32()];
            // an iterator that does not know its length
            w.extend_with_set(s.iter().filter(|x| **x > 5).map(|&x| item(x)));
            last.extend(s.iter().filter(|x| **x > 5));
            sets.push(std::mem::take(&mut last));
        }
    }
    drop(v);
    assert(Rc::strong_count(&mark) == 1 + held(&sets, &last), "items that were cut are dropped, and no others");
    assert(w.len() == sets.len() + 1, "len counts sealed sets plus the in-progress set");
    for (i, s) in sets.iter().enumerate() {
        let got: Vec<u32> = w[i].iter().map(|x| *x.1).collect();
        assert(same(&got, s), "sealed set contents");
    }
    let got: Vec<u32> = w.last().iter().map(|x| *x.1).collect();
    assert(same(&got, &last), "in-progress set contents");
    drop(w);
    assert(Rc::strong_count(&mark) == 1, "a dropped container drops its items");
    cover("owned");
}

/// Random access at an arbitrary (not case-split) index.
fn random_access() {
    vs::table_loads(true);
    let (v, m) = arbitrary::<u32>(2, 3);
    let flat = m.flat();
    let i = vs::range(0, 12) as usize;
    match v.get_item(i) {
        Some(x) => {
            assert(i < flat.len(), "get_item is None exactly past the end");
            assert(*x == flat[i], "get_item at an arbitrary index");
            cover("hit");
        }
        None => {
            assert(i >= flat.len(), "get_item is Some exactly within the chart");
            cover("miss");
        }
    }
    if !m.sets.is_empty() {
        let s = vs::range(0, m.sets.len() as u64 - 1) as usize;
        let j = vs::range(0, 2) as usize;
        let set = &v[s];
        assert(set.len() == m.sets[s].len(), "set length at an arbitrary index");
        if j < set.len() {
            assert(set[j] == m.sets[s][j], "item at an arbitrary position of an arbitrary set");
            cover("set");
        }
    }
}

/// Out-of-range set ids never yield a slice.
fn out_of_range() {
    let (mut v, m) = arbitrary::<u8>(3, 2);
    let i = vs::any_u64() as usize;
    assume(i > m.sets.len());
    let op = pick(0, 2);
    vs::expect_panic(true);
    match op {
        0 => {
            let s = v[i].len();
            out(s as u64);
        }
        1 => {
            out(v.index_at(i) as u64);
        }
        _ => {
            v.truncate(i);
        }
    }
    vs::expect_panic(false);
    assert(false, "an out-of-range set id is refused");
}

fn capacity() {
    const SIZES: [usize; 6] = [0, 1, 2, 3, 64, 1000];
    let c = Vec2dCapacity { chart_capacity: SIZES[pick(0, 5)], indices_capacity: SIZES[pick(0, 5)] };
    let mut v = Vec2d::<u32>::with_capacity(c);
    let mut m = Model { sets: vec![], last: vec![] };
    check(&mut v, &m);
    for _ in 0..2 {
        step(&mut v, &mut m);
        check(&mut v, &m);
    }
    let mut d = Vec2d::<u32>::default();
    check(&mut d, &Model { sets: vec![], last: vec![] });
    cover("capacity");
}

fn json_mini(sets: u64, len: u64, in_progress: bool) {
    let (mut v, m) = arbitrary::<Digit>(sets, len);
    if !in_progress {
        assume(m.last.is_empty());
    }
    let text: String = miniserde::json::to_string(&v);
    let back: Result<Vec2d<Digit>, _> = miniserde::json::from_str(&text);
    match back {
        Ok(mut w) => {
            check(&mut w, &m);
            check(&mut v, &m);
            // the restored container keeps working
            let x = Digit::any();
            w.push_item(x);
            w.next_set();
            let mut m = m;
            m.last.push(x);
            let l = std::mem::take(&mut m.last);
            m.sets.push(l);
            check(&mut w, &m);
            cover("json");
        }
        Err(_) => assert(false, "a serialized container is readable"),
    }
}

/// Any operation before it is written, and another after it is read back.
fn json_step(sets: u64, len: u64, serde: bool) {
    let (mut v, mut m) = arbitrary::<Digit>(sets, len);
    step(&mut v, &mut m);
    let back = if serde {
        serde_json::from_str::<Vec2d<Digit>>(&serde_json::to_string(&v).unwrap()).ok()
    } else {
        miniserde::json::from_str::<Vec2d<Digit>>(&miniserde::json::to_string(&v)).ok()
    };
    assert(back.is_some(), "a serialized container is readable");
    let mut w = back.unwrap();
    check(&mut w, &m);
    step(&mut w, &mut m);
    check(&mut w, &m);
    cover("continued");
}

/// Containers of many sets or items, and items of any number of digits, through JSON.
fn json_large(sizes: &[(u64, u64)], serde: bool, ops: bool) {
    let (k, n) = sizes[pick(0, sizes.len() as u64 - 1)];
    let rot = if ops { pick(0, 2) as u64 } else { 0 };
    let x = vs::range(0, if ops { 9 } else { 1 }) as u32;
    let mut m = Model::<u32> { sets: Vec::new(), last: Vec::new() };
    let mut v = Vec2d::<u32>::new();
    let mut c = 0u32;
    for i in 0..=k {
        let len = match (i + rot) % 3 { 0 => n, 1 => 1, _ => 0 };
        let mut s = Vec::new();
        for _ in 0..len {
            let y = if c == 5 { x } else { c.wrapping_mul(0x9e37_79b1) >> (c % 31) };
            c += 1;
            s.push(y);
            v.push_item(y);
        }
        if i < k {
            v.next_set();
            m.sets.push(s);
        } else {
            m.last = s;
        }
    }
    let back = if serde {
        serde_json::from_str::<Vec2d<u32>>(&serde_json::to_string(&v).unwrap()).ok()
    } else {
        miniserde::json::from_str::<Vec2d<u32>>(&miniserde::json::to_string(&v)).ok()
    };
    match back {
        Some(mut w) => {
            check(&mut w, &m);
            if ops {
                step_large(&mut w, &mut m);
                check(&mut w, &m);
            }
            cover("large");
        }
        None => assert(false, "a serialized container is readable"),
    }
}

/// Items of any number of digits.
fn json_number(max: u64, serde: bool) {
    let x = vs::range(0, max) as u32;
    let mut v = Vec2d::<u32>::new();
    v.extend_with_set([x, 7].into_iter());
    v.push_item(x);
    let mut m = Model { sets: vec![vec![x, 7]], last: vec![x] };
    let back = if serde {
        serde_json::from_str::<Vec2d<u32>>(&serde_json::to_string(&v).unwrap()).ok()
    } else {
        miniserde::json::from_str::<Vec2d<u32>>(&miniserde::json::to_string(&v)).ok()
    };
    assert(back.is_some(), "a serialized container is readable");
    check(&mut back.unwrap(), &m);
    m.last.clear();
    cover("number");
}

/// Items that are themselves structures, optional or text.
fn json_items(serde: bool) {
    #[derive(Clone, PartialEq, Debug, miniserde::Serialize, miniserde::Deserialize, serde::Serialize, serde::Deserialize)]
    struct It {
        n: Option<u32>,
        text: String,
        flags: Vec<bool>,
    }
    let d = if serde { pick(0, 9) as u32 } else { vs::range(0, 9) as u32 };
    let b = vs::any_bool();
    let make = |k: usize| -> It {
        match k {
            0 => It { n: None, text: String::new(), flags: vec![] },
            1 => It { n: Some(d), text: "a\"b\\c\n\u{e9}".to_string(), flags: vec![b, true] },
            _ => It { n: Some(u32::MAX), text: "[]{},:".to_string(), flags: vec![false] },
        }
    };
    let mut v = Vec2d::<It>::new();
    let mut sets: Vec<Vec<It>> = vec![];
    for _ in 0..pick(0, if serde { 1 } else { 2 }) {
        let s: Vec<It> = (0..pick(0, 2)).map(|_| make(pick(0, 2))).collect();
        v.extend_with_set(s.iter().cloned());
        sets.push(s);
    }
    let last: Vec<It> = (0..pick(0, 1)).map(|_| make(pick(1, 2))).collect();
    for x in &last {
        v.push_item(x.clone());
    }
    let back = if serde {
        serde_json::from_str::<Vec2d<It>>(&serde_json::to_string(&v).unwrap()).ok()
    } else {
        miniserde::json::from_str::<Vec2d<It>>(&miniserde::json::to_string(&v)).ok()
    };
    assert(back.is_some(), "a serialized container is readable");
    let w = back.unwrap();
    assert(w.len() == sets.len() + 1, "len counts sealed sets plus the in-progress set");
    for i in 0..sets.len() {
        assert(w[i] == sets[i][..], "sealed set contents");
    }
    assert(w.last() == &last[..], "in-progress set contents");
    cover("items");
}

fn json_serde(sets: u64, len: u64) {
    let (_, m) = arbitrary::<Digit>(sets, len);
    let mut v: Vec2d<Digit> = m.sets.iter().map(|s| s.iter().copied()).collect();
    for &x in &m.last {
        v.push_item(x);
    }
    let text = serde_json::to_string(&v).unwrap();
    match serde_json::from_str::<Vec2d<Digit>>(&text) {
        Ok(mut w) => {
            check(&mut w, &m);
            cover("serde");
        }
        Err(_) => assert(false, "a serialized container is readable"),
    }
}

vs::harnesses! {
    fn vec2d_step_u32() { history::<u32>(2, 2, 1) }
    fn vec2d_step_wide() { history::<(u32, u8, u64)>(2, 2, 1) }
    fn vec2d_history3() { history::<u32>(0, 0, 3) }
    fn vec2d_history() { history::<u32>(0, 0, 4) }
    fn vec2d_step_deep() { history::<u32>(3, 3, 2) }
    fn vec2d_history_deep() { history::<u8>(0, 1, 5) }
    fn vec2d_from_iter() { from_iterator::<u32>(3, 2) }
    fn vec2d_random_access() { random_access() }
    fn vec2d_out_of_range() { out_of_range() }
    fn vec2d_capacity() { capacity() }
    fn vec2d_step2() { history::<u8>(1, 1, 2) }
    fn vec2d_step_twice() { history::<u8>(2, 1, 2) }
    fn vec2d_json_step() { json_step(1, 1, false) }
    fn vec2d_json_serde_step() { json_step(1, 0, true) }
    fn vec2d_json_serde_step_deep() { json_step(1, 1, true) }
    fn vec2d_owned() { owned(2, 2) }
    fn vec2d_zst() { history::<()>(2, 3, 1) }
    fn vec2d_many() { large::<u32>(|c| c as u32, &[(4, 5), (7, 9), (17, 20), (40, 3), (70, 0), (3, 140), (130, 2), (270, 1)], 1) }
    fn vec2d_many_wide() { large::<(u32, u8, u64)>(|c| (c as u32, c as u8, c << 40), &[(5, 6), (9, 17), (33, 2), (66, 1)], 1) }
    fn vec2d_many2() { large::<u8>(|c| c as u8, &[(5, 6), (9, 17), (33, 2)], 2) }
    fn vec2d_huge() { large::<u32>(|c| c as u32, &[(2, 66_000), (66_000, 1)], 0) }
    fn vec2d_json_large() { json_large(&[(0, 0), (4, 3), (7, 12), (30, 1), (3, 300), (300, 1)], false, true) }
    fn vec2d_json_serde_large() { json_large(&[(0, 0), (4, 3), (7, 12), (30, 1), (3, 300), (300, 1)], true, true) }
    fn vec2d_json_huge() { json_large(&[(2, 66_000), (66_000, 1)], false, false) }
    fn vec2d_json_serde_huge() { json_large(&[(2, 66_000), (66_000, 1)], true, false) }
    fn vec2d_json_number() { json_number(999, false) }
    fn vec2d_json_serde_number() { json_number(299, true) }
    fn vec2d_json_items() { json_items(false) }
    fn vec2d_json_serde_items() { json_items(true) }
    fn vec2d_json_mini() { json_mini(2, 1, true) }
    fn vec2d_json_serde() { json_serde(2, 1) }
}
