//! Primitives a harness uses. Under the symbolic engine they are interpreted;
//! natively (`native` feature) they read a recorded model.

mod raw {
    extern "C" {
        pub fn vs_u8() -> u8;
        pub fn vs_u16() -> u16;
        pub fn vs_u32() -> u32;
        pub fn vs_u64() -> u64;
        pub fn vs_range(lo: u64, hi: u64) -> u64;
        pub fn vs_out(x: u64);
        pub fn vs_mode(x: u64);
        pub fn vs_fork(x: u64) -> u64;
        pub fn vs_cover_raw(p: *const u8, n: usize);
    }
    extern "C-unwind" {
        pub fn vs_assume(c: bool);
        pub fn vs_assert_raw(c: bool, p: *const u8, n: usize);
        pub fn vs_expect_panic(x: u64);
    }
}

/// An arbitrary 8-bit value.
pub fn any_u8() -> u8 {
    unsafe { raw::vs_u8() }
}
pub fn any_u16() -> u16 {
    unsafe { raw::vs_u16() }
}
pub fn any_u32() -> u32 {
    unsafe { raw::vs_u32() }
}
pub fn any_u64() -> u64 {
    unsafe { raw::vs_u64() }
}
/// An arbitrary value in `lo..=hi` (stays symbolic).
pub fn range(lo: u64, hi: u64) -> u64 {
    unsafe { raw::vs_range(lo, hi) }
}
/// An arbitrary value in `lo..=hi`, case-split: one path per value.
pub fn pick(lo: u64, hi: u64) -> usize {
    unsafe { raw::vs_fork(raw::vs_range(lo, hi)) as usize }
}
/// Case-split a value.
pub fn split(x: u64) -> u64 {
    unsafe { raw::vs_fork(x) }
}
pub fn any_bool() -> bool {
    pick(0, 1) == 1
}
pub fn assume(c: bool) {
    unsafe { raw::vs_assume(c) }
}
pub fn assert(c: bool, what: &str) {
    unsafe { raw::vs_assert_raw(c, what.as_ptr(), what.len()) }
}
/// Reachability witness.
pub fn cover(what: &str) {
    unsafe { raw::vs_cover_raw(what.as_ptr(), what.len()) }
}
/// Observed value: compared between the engine and the native replay.
pub fn out(x: u64) {
    unsafe { raw::vs_out(x) }
}
/// true: a load at a symbolic index yields an ite-table; false: it splits into paths.
pub fn table_loads(on: bool) {
    unsafe { raw::vs_mode(on as u64) }
}
/// From here on a panic ends the path quietly (a documented precondition was violated).
pub fn expect_panic(on: bool) {
    unsafe { raw::vs_expect_panic(on as u64) }
}

#[macro_export]
macro_rules! harnesses {
    ($($(#[$m:meta])* fn $name:ident() $body:block)*) => {
        $($(#[$m])* #[no_mangle] #[inline(never)] pub fn $name() $body)*
        #[cfg(feature = "native")]
        pub static HARNESSES: &[(&str, fn())] = &[$((stringify!($name), $name as fn())),*];
    };
}

#[cfg(feature = "native")]
pub mod native {
    use std::cell::RefCell;
    use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};

    #[derive(Default)]
    struct St {
        ins: Vec<u64>,
        pos: usize,
        outs: Vec<u64>,
        covers: Vec<String>,
        expect_panic: bool,
        failed: Vec<String>,
    }
    thread_local!(static ST: RefCell<St> = RefCell::new(St::default()));
    struct AssumeFail;
    struct AssertFail;

    fn next() -> u64 {
        ST.with(|s| {
            let mut s = s.borrow_mut();
            let v = s.ins.get(s.pos).copied().unwrap_or(0);
            s.pos += 1;
            v
        })
    }
    #[no_mangle]
    extern "C" fn vs_u8() -> u8 {
        next() as u8
    }
    #[no_mangle]
    extern "C" fn vs_u16() -> u16 {
        next() as u16
    }
    #[no_mangle]
    extern "C" fn vs_u32() -> u32 {
        next() as u32
    }
    #[no_mangle]
    extern "C" fn vs_u64() -> u64 {
        next()
    }
    #[no_mangle]
    extern "C" fn vs_range(lo: u64, _hi: u64) -> u64 {
        lo.wrapping_add(next())
    }
    #[no_mangle]
    extern "C" fn vs_out(x: u64) {
        ST.with(|s| s.borrow_mut().outs.push(x))
    }
    #[no_mangle]
    extern "C" fn vs_mode(_: u64) {}
    #[no_mangle]
    extern "C" fn vs_fork(x: u64) -> u64 {
        x
    }
    #[no_mangle]
    extern "C-unwind" fn vs_expect_panic(x: u64) {
        ST.with(|s| s.borrow_mut().expect_panic = x != 0)
    }
    #[no_mangle]
    extern "C-unwind" fn vs_assume(c: bool) {
        if !c {
            panic_any(AssumeFail)
        }
    }
    #[no_mangle]
    unsafe extern "C-unwind" fn vs_assert_raw(c: bool, p: *const u8, n: usize) {
        if !c {
            let m = String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned();
            ST.with(|s| s.borrow_mut().failed.push(m));
            panic_any(AssertFail)
        }
    }
    #[no_mangle]
    unsafe extern "C" fn vs_cover_raw(p: *const u8, n: usize) {
        let m = String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned();
        ST.with(|s| s.borrow_mut().covers.push(m))
    }

    fn esc(s: &str) -> String {
        s.chars()
            .map(|c| match c {
                '"' => '\''.to_string(),
                '\\' => '/'.to_string(),
                c if (c as u32) < 32 => ' '.to_string(),
                c => c.to_string(),
            })
            .collect()
    }

    /// Reads lines `harness in0 in1 ...` from stdin, prints one JSON line per run
    /// (preceded by a `START` line, so that a crash can be attributed).
    pub fn main(tables: &[&[(&'static str, fn())]]) {
        use std::io::{BufRead, Write};
        std::panic::set_hook(Box::new(|_| {}));
        let out = std::io::stdout();
        for line in std::io::stdin().lock().lines() {
            let line = line.unwrap();
            let mut it = line.split_whitespace();
            let Some(name) = it.next() else { continue };
            let ins: Vec<u64> = it.map(|x| x.parse().unwrap()).collect();
            println!("START {}", line);
            out.lock().flush().unwrap();
            let f = tables.iter().flat_map(|t| t.iter()).find(|x| x.0 == name).expect("harness").1;
            ST.with(|s| *s.borrow_mut() = St { ins, ..Default::default() });
            let r = catch_unwind(AssertUnwindSafe(f));
            let (kind, msg) = match &r {
                Ok(()) => ("ok", String::new()),
                Err(e) => {
                    if e.is::<AssumeFail>() {
                        ("assume", String::new())
                    } else if e.is::<AssertFail>() {
                        ("violation", ST.with(|s| s.borrow().failed.join("; ")))
                    } else {
                        let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or_default();
                        if ST.with(|s| s.borrow().expect_panic) {
                            ("panic_ok", m)
                        } else {
                            ("violation", format!("panic: {}", m))
                        }
                    }
                }
            };
            let (outs, covers) = ST.with(|s| (s.borrow().outs.clone(), s.borrow().covers.clone()));
            std::mem::forget(r);
            println!(
                "RESULT {{\"kind\":\"{}\",\"msg\":\"{}\",\"outs\":{:?},\"covers\":{:?}}}",
                kind,
                esc(&msg),
                outs,
                covers
            );
            out.lock().flush().unwrap();
        }
    }
}
