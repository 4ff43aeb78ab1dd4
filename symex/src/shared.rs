//! Counters shared by all exploration processes (anonymous shared mapping).
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};

pub const MAXF: usize = 16384;

#[repr(C)]
pub struct Shared {
    pub active: AtomicI64,
    pub started: AtomicU64,
    pub finished: AtomicU64,
    pub paths_ok: AtomicU64,
    pub paths_assume: AtomicU64,
    pub paths_panic_ok: AtomicU64,
    pub paths_violation: AtomicU64,
    pub paths_incomplete: AtomicU64,
    pub forks: AtomicU64,
    pub q_sat: AtomicU64,
    pub q_unsat: AtomicU64,
    pub q_unknown: AtomicU64,
    pub q_domain: AtomicU64,
    pub q_ns: AtomicU64,
    pub instrs: AtomicU64,
    pub asserts_concrete: AtomicU64,
    pub asserts_solver: AtomicU64,
    pub covers: [AtomicU64; 4],
    pub timeout: AtomicU64,
    pub errors: AtomicU64,
    pub samples: AtomicU64,
    pub viol_written: AtomicU64,
    pub max_steps: AtomicU64,
    pub sym_vars: AtomicU64,
    pub funcs: [AtomicU64; MAXF / 64],
}

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    pub fn fork() -> i32;
    pub fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    pub fn _exit(c: i32) -> !;
    pub fn setpgid(a: i32, b: i32) -> i32;
    pub fn kill(a: i32, b: i32) -> i32;
    pub fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

impl Shared {
    pub fn new() -> &'static Shared {
        unsafe {
            let n = std::mem::size_of::<Shared>();
            let p = mmap(std::ptr::null_mut(), n, 3, 0x21, -1, 0);
            assert!(p as isize != -1);
            &*(p as *const Shared)
        }
    }
    pub fn add(c: &AtomicU64, n: u64) {
        c.fetch_add(n, SeqCst);
    }
}
