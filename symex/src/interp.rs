//! The symbolic interpreter: executes LLVM IR, one path per process; feasible branches fork(2).
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::shared::*;
use crate::z3::{Res, Z3};
use std::io::Write;
use std::rc::Rc;
use std::sync::atomic::Ordering::SeqCst;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FK {
    Body,
    Nop,
    Memcpy,
    Memset,
    UMin,
    UMax,
    SMin,
    SMax,
    AddOv(bool),
    SubOv(bool),
    MulOv(bool),
    UAddSat,
    USubSat,
    SAddSat,
    SSubSat,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitrev,
    Fshl,
    Fshr,
    UCmp,
    SCmp,
    Abs,
    IsConst,
    TlsAddr,
    Trap,
    Expect,
    Alloc,
    AllocZeroed,
    Dealloc,
    Realloc,
    Malloc,
    Calloc,
    Free,
    CRealloc,
    Memcmp,
    Strlen,
    Panic,
    Print,
    VsSym(u16),
    VsRange,
    VsAssume,
    VsAssert,
    VsCover,
    VsOut,
    VsMode,
    VsFork,
    VsExpectPanic,
    ErrnoLoc,
    Ret0,
    LoadRelative,
    VecReduce,
    Fp(&'static str),
    Syscall,
    KeyCreate,
    Unknown,
}

#[derive(Clone)]
pub struct Frame {
    f: usize,
    body: Rc<Body>,
    regs: Vec<Val>,
    block: u32,
    pc: usize,
    prev: u32,
    ret: Option<u32>,
    normal: Option<u32>,
    mark: (usize, u64),
}

/// The state before an instruction whose other outcome is still to be explored.
struct Snap {
    mem: Mem,
    frames: Vec<Frame>,
    model: Vec<u128>,
    widths: Vec<u16>,
    known: FxMap<E, bool>,
    fixed: FxMap<E, u128>,
    dom: Vec<u64>,
    outs: Vec<Val>,
    steps: u64,
    ite_mode: bool,
    expect_panic: bool,
    level: usize,
    cond: E,
    val: bool,
}

pub enum Stop {
    /// go on with `next`
    Switch,
    Ok,
    Assume,
    PanicOk,
    Violation(String),
    Incomplete(String),
    Error(String),
}
type RR<T> = Result<T, Stop>;

pub struct Config {
    pub max_steps: u64,
    pub max_procs: i64,
    pub deadline: Instant,
    pub out: String,
    pub rlimit: u32,
    pub max_samples: u64,
    pub max_viol: u64,
    pub dump_smt: Option<String>,
}

pub struct Exec {
    pub m: Module,
    pub mem: Mem,
    pub p: Pool,
    pub z: Z3,
    pub kinds: Vec<FK>,
    pub sh: &'static Shared,
    pub cfg: Config,
    pub harness: String,
    frames: Vec<Frame>,
    spare: Vec<Vec<Val>>,
    model: Vec<u128>,
    widths: Vec<u16>,
    known: FxMap<E, bool>,
    fixed: FxMap<E, u128>,
    dom: Vec<u64>,
    outs: Vec<Val>,
    steps: u64,
    ite_mode: bool,
    expect_panic: bool,
    pub covers: Vec<String>,
    cover_map: FxMap<u64, usize>,
    queries: u64,
    snaps: Vec<Snap>,
    next: Option<Snap>,
    counted: u64,
}

fn classify(name: &str, has_body: bool) -> FK {
    if let Some(r) = name.strip_prefix("llvm.") {
        let base = r;
        let st = |p: &str| base.starts_with(p);
        return if st("memcpy") || st("memmove") {
            FK::Memcpy
        } else if st("memset") {
            FK::Memset
        } else if st("lifetime") || st("assume") || st("experimental.noalias") || st("dbg") || st("x86.sse2.pause") || st("donothing") || st("prefetch") || st("invariant") {
            FK::Nop
        } else if st("umin.i") {
            FK::UMin
        } else if st("umax.i") {
            FK::UMax
        } else if st("smin.i") {
            FK::SMin
        } else if st("smax.i") {
            FK::SMax
        } else if st("uadd.with.overflow.i") {
            FK::AddOv(false)
        } else if st("sadd.with.overflow.i") {
            FK::AddOv(true)
        } else if st("usub.with.overflow.i") {
            FK::SubOv(false)
        } else if st("ssub.with.overflow.i") {
            FK::SubOv(true)
        } else if st("umul.with.overflow.i") {
            FK::MulOv(false)
        } else if st("smul.with.overflow.i") {
            FK::MulOv(true)
        } else if st("uadd.sat.i") {
            FK::UAddSat
        } else if st("usub.sat.i") {
            FK::USubSat
        } else if st("sadd.sat.i") {
            FK::SAddSat
        } else if st("ssub.sat.i") {
            FK::SSubSat
        } else if st("ctlz.i") {
            FK::Ctlz
        } else if st("cttz.i") {
            FK::Cttz
        } else if st("ctpop.i") {
            FK::Ctpop
        } else if st("bswap.i") {
            FK::Bswap
        } else if st("bitreverse.i") {
            FK::Bitrev
        } else if st("fshl.i") {
            FK::Fshl
        } else if st("fshr.i") {
            FK::Fshr
        } else if st("ucmp.i") {
            FK::UCmp
        } else if st("scmp.i") {
            FK::SCmp
        } else if st("abs.i") {
            FK::Abs
        } else if st("is.constant") {
            FK::IsConst
        } else if st("threadlocal.address") {
            FK::TlsAddr
        } else if st("trap") || st("debugtrap") || st("ubsantrap") {
            FK::Trap
        } else if st("expect") {
            FK::Expect
        } else if st("load.relative") {
            FK::LoadRelative
        } else if let Some(f) = FP.iter().find(|f| base.starts_with(**f) && base[f.len()..].starts_with('.')) {
            FK::Fp(f)
        } else if st("sshl.sat.i") {
            FK::Unknown
        } else if st("vector.reduce") {
            FK::VecReduce
        } else {
            FK::Unknown
        };
    }
    match name {
        "vs_u8" => return FK::VsSym(8),
        "vs_u16" => return FK::VsSym(16),
        "vs_u32" => return FK::VsSym(32),
        "vs_u64" => return FK::VsSym(64),
        "vs_range" => return FK::VsRange,
        "vs_assume" => return FK::VsAssume,
        "vs_assert_raw" => return FK::VsAssert,
        "vs_cover_raw" => return FK::VsCover,
        "vs_out" => return FK::VsOut,
        "vs_mode" => return FK::VsMode,
        "vs_fork" => return FK::VsFork,
        "vs_expect_panic" => return FK::VsExpectPanic,
        "malloc" => return FK::Malloc,
        "calloc" => return FK::Calloc,
        "free" => return FK::Free,
        "realloc" => return FK::CRealloc,
        "memcmp" | "bcmp" => return FK::Memcmp,
        "memcpy" | "memmove" => return FK::Memcpy,
        "memset" => return FK::Memset,
        "strlen" => return FK::Strlen,
        "abort" => return FK::Trap,
        "syscall" => return FK::Syscall,
        "getrandom" => return FK::Syscall,
        "floor" | "ceil" | "trunc" | "round" | "rint" | "sqrt" | "pow" | "log2" | "log10" | "log" => return FK::Fp(FP.iter().find(|f| **f == name).unwrap()),
        "__errno_location" => return FK::ErrnoLoc,
        "getenv" | "pthread_setspecific" | "pthread_getspecific" | "pthread_key_delete" | "sched_yield" => return FK::Ret0,
        "pthread_key_create" => return FK::KeyCreate,
        _ => {}
    }
    if name.ends_with("___rust_alloc") {
        return FK::Alloc;
    }
    if name.ends_with("___rust_alloc_zeroed") {
        return FK::AllocZeroed;
    }
    if name.ends_with("___rust_dealloc") {
        return FK::Dealloc;
    }
    if name.ends_with("___rust_realloc") {
        return FK::Realloc;
    }
    if name.contains("___rust_no_alloc_shim_is_unstable") {
        return FK::Nop;
    }
    if name.contains("_4core9panicking") || name.contains("handle_alloc_error") || name.contains("17rust_begin_unwind") {
        return FK::Panic;
    }
    if name.contains("5stdio6__print") || name.contains("5stdio7__eprint") {
        return FK::Print;
    }
    if has_body {
        FK::Body
    } else {
        FK::Unknown
    }
}

fn c64(v: u128, w: u16) -> Val {
    if w <= 64 {
        Val::C(v as u64)
    } else {
        Val::W(Box::new(v))
    }
}

fn fp_in(w: u16, x: u128) -> Option<f64> {
    match w {
        32 => Some(f32::from_bits(x as u32) as f64),
        64 => Some(f64::from_bits(x as u64)),
        _ => None,
    }
}
fn fp_out(w: u16, x: f64) -> Option<u128> {
    match w {
        32 => Some((x as f32).to_bits() as u128),
        64 => Some(x.to_bits() as u128),
        _ => None,
    }
}
/// Floating-point arithmetic on concrete values. (Rounding a result of two singles computed in double is exact.)
fn fp_op(op: &str, fw: u16, tw: u16, x: u128, y: Option<u128>) -> Option<u128> {
    match op {
        "uitofp" => return if tw == 32 { Some((x as f32).to_bits() as u128) } else { fp_out(tw, x as f64) },
        "sitofp" => {
            let s = sext(x, fw);
            return if tw == 32 { Some((s as f32).to_bits() as u128) } else { fp_out(tw, s as f64) };
        }
        _ => {}
    }
    let a = fp_in(fw, x)?;
    let b = match y {
        Some(y) => fp_in(fw, y)?,
        None => 0.0,
    };
    let un = a.is_nan() || b.is_nan();
    let bool_ = |v: bool| Some(v as u128);
    match op {
        "fptrunc" | "fpext" => fp_out(tw, a),
        "fptoui" => Some(a as u128 & mask(tw)),
        "fptosi" => Some(a as i128 as u128 & mask(tw)),
        "fneg" => fp_out(tw, -a),
        "fadd" => fp_out(tw, a + b),
        "fsub" => fp_out(tw, a - b),
        "fmul" => fp_out(tw, a * b),
        "fdiv" => fp_out(tw, a / b),
        "frem" => fp_out(tw, a % b),
        "oeq" => bool_(a == b),
        "ogt" => bool_(a > b),
        "oge" => bool_(a >= b),
        "olt" => bool_(a < b),
        "ole" => bool_(a <= b),
        "one" => bool_(!un && a != b),
        "ord" => bool_(!un),
        "ueq" => bool_(un || a == b),
        "ugt" => bool_(un || a > b),
        "uge" => bool_(un || a >= b),
        "ult" => bool_(un || a < b),
        "ule" => bool_(un || a <= b),
        "une" => bool_(a != b),
        "uno" => bool_(un),
        // intrinsics and the mathematical library
        "fptoui.sat" => Some(if tw < 64 { (a as u64).min(mask(tw) as u64) as u128 } else if tw == 64 { a as u64 as u128 } else { a as u128 }),
        "fptosi.sat" => Some(
            match tw {
                8 => a as i8 as u128,
                16 => a as i16 as u128,
                32 => a as i32 as u128,
                64 => a as i64 as u128,
                _ => return None,
            } & mask(tw),
        ),
        "floor" => fp_out(tw, a.floor()),
        "ceil" => fp_out(tw, a.ceil()),
        "trunc" => fp_out(tw, a.trunc()),
        "round" => fp_out(tw, a.round()),
        "rint" | "nearbyint" | "roundeven" => fp_out(tw, a.round_ties_even()),
        "sqrt" => fp_out(tw, a.sqrt()),
        "fabs" => fp_out(tw, a.abs()),
        "copysign" => fp_out(tw, a.copysign(b)),
        "minnum" | "minimumnum" => fp_out(tw, a.min(b)),
        "maxnum" | "maximumnum" => fp_out(tw, a.max(b)),
        "pow" if fw == 64 => fp_out(tw, a.powf(b)),
        "log2" if fw == 64 => fp_out(tw, a.log2()),
        "log10" if fw == 64 => fp_out(tw, a.log10()),
        "log" if fw == 64 => fp_out(tw, a.ln()),
        "exp" if fw == 64 => fp_out(tw, a.exp()),
        _ => None,
    }
}
const FP: [&str; 18] = ["fptoui.sat", "fptosi.sat", "floor", "ceil", "trunc", "round", "roundeven", "rint", "nearbyint", "sqrt", "fabs", "copysign", "minnum", "maxnum", "pow", "log2", "log10", "log"];

impl Exec {
    pub fn new(mut m: Module, sh: &'static Shared, cfg: Config, harness: String) -> Exec {
        let kinds = m.funcs.iter().map(|f| classify(&f.name, f.text.is_some())).collect();
        let mem = Mem::new(&mut m);
        let z = Z3::new(cfg.rlimit);
        Exec {
            m,
            mem,
            p: Pool::new(),
            z,
            kinds,
            sh,
            cfg,
            harness,
            frames: vec![],
            spare: vec![],
            model: vec![],
            widths: vec![],
            known: Default::default(),
            fixed: Default::default(),
            dom: vec![],
            outs: vec![],
            steps: 0,
            ite_mode: true,
            expect_panic: false,
            covers: vec![],
            cover_map: Default::default(),
            queries: 0,
            snaps: vec![],
            next: None,
            counted: 0,
        }
    }

    // ---------- values ----------
    fn to_e(&mut self, v: &Val, w: u16) -> RR<E> {
        Ok(match v {
            Val::C(x) => self.p.con(w, *x as u128),
            Val::W(x) => self.p.con(w, **x),
            Val::S(e) => {
                debug_assert_eq!(self.p.w(*e), w);
                *e
            }
            Val::U => self.p.con(w, 0),
            Val::A(_) => return Err(Stop::Error("aggregate used as scalar".into())),
        })
    }
    fn of_e(&mut self, e: E) -> Val {
        match self.p.kc(e) {
            Some(k) => c64(k, self.p.w(e)),
            None => {
                let v = self.p.sup[e as usize];
                if v != 0 && v != MANY && self.dom[self.p.node(v).k as usize].is_power_of_two() {
                    // the path leaves its only variable one value
                    let k = self.p.eval(e, &self.model);
                    return c64(k, self.p.w(e));
                }
                if !self.fixed.is_empty() {
                    let mut left = 48;
                    if let Some(k) = self.settle_quick(e, &mut left) {
                        return c64(k, self.p.w(e));
                    }
                }
                Val::S(e)
            }
        }
    }
    fn conc(v: &Val) -> Option<u128> {
        match v {
            Val::C(x) => Some(*x as u128),
            Val::W(x) => Some(**x),
            Val::U => Some(0),
            _ => None,
        }
    }
    #[inline]
    fn get(&self, o: &O) -> Val {
        match o {
            O::R(r) => self.frames.last().unwrap().regs[*r as usize].clone(),
            O::C(v) => v.clone(),
        }
    }
    #[inline]
    fn set(&mut self, d: u32, v: Val) {
        self.frames.last_mut().unwrap().regs[d as usize] = v;
    }

    // ---------- solver ----------
    fn query(&mut self, e: E) -> (Res, Vec<u128>) {
        let t = Instant::now();
        self.queries += 1;
        if let Some(dir) = &self.cfg.dump_smt {
            if self.queries % 37 == 1 {
                let s = self.z.dump(&self.p, e);
                let f = format!("{}/{}-{}-{}.smt2", dir, self.harness, std::process::id(), self.queries);
                let _ = std::fs::write(&f, s);
                let r = self.z.check(&self.p, e, &self.widths);
                let _ = std::fs::write(format!("{}.res", f), format!("{:?}", r.0));
            }
        }
        let mut r = self.z.check(&self.p, e, &self.widths);
        if r.0 == Res::Unknown || (r.0 == Res::Sat && self.p.eval(e, &r.1) != 1) {
            r = self.z.check_alone(&self.p, e, &self.widths);
        }
        Shared::add(&self.sh.q_ns, t.elapsed().as_nanos() as u64);
        match r.0 {
            Res::Sat => Shared::add(&self.sh.q_sat, 1),
            Res::Unsat => Shared::add(&self.sh.q_unsat, 1),
            Res::Unknown => Shared::add(&self.sh.q_unknown, 1),
        }
        if r.0 == Res::Sat {
            // guards against an encoding mismatch between the evaluator and the solver
            if self.p.eval(e, &r.1) != 1 {
                eprintln!("symex: model does not satisfy the query");
                self.fail_process();
            }
        }
        r
    }
    fn fail_process(&mut self) -> ! {
        Shared::add(&self.sh.errors, 1);
        unsafe { _exit(3) }
    }
    fn assume_e(&mut self, c: E, val: bool) {
        let e = if val { c } else { self.p.not(c) };
        self.z.assert(e);
        self.know(c, val);
        let v = self.p.sup[c as usize];
        if v != MANY && v != 0 {
            let t = self.p.truth(c);
            self.dom[self.p.node(v).k as usize] &= if val { t } else { !t };
        }
    }
    fn know(&mut self, c: E, val: bool) {
        let n = self.p.not(c);
        self.known.insert(c, val);
        self.known.insert(n, !val);
        let (eq, val) = if self.p.node(c).op == Op::Eq { (c, val) } else { (n, !val) };
        let n = self.p.node(eq);
        if val && n.op == Op::Eq {
            if let Some(k) = self.p.kc(n.b) {
                self.fix(n.a, k);
            } else if let Some(k) = self.p.kc(n.a) {
                self.fix(n.b, k);
            }
        }
    }
    /// On this path `e` is `k`.
    fn fix(&mut self, e: E, k: u128) {
        if self.p.kc(e).is_some() || self.fixed.insert(e, k).is_some() {
            return;
        }
        let n = self.p.node(e);
        match n.op {
            Op::Zext => self.fix(n.a, k),
            Op::Concat => {
                let l = self.p.w(n.b);
                self.fix(n.a, k >> l);
                self.fix(n.b, k & mask(l));
            }
            _ => {}
        }
    }
    /// The value of `e` where what the path has fixed leaves it only one.
    fn settled(&mut self, e: E) -> Option<u128> {
        if self.fixed.is_empty() {
            return None;
        }
        let mut memo = FxMap::default();
        let mut left = 400;
        self.settle(e, &mut memo, &mut left)
    }
    fn settle_quick(&self, e: E, left: &mut u32) -> Option<u128> {
        if let Some(k) = self.p.kc(e) {
            return Some(k);
        }
        if *left == 0 {
            return None;
        }
        *left -= 1;
        if let Some(&k) = self.fixed.get(&e) {
            return Some(k);
        }
        let n = self.p.node(e);
        match n.op {
            Op::Var => None,
            Op::Ite => {
                let c = match self.known.get(&n.a) {
                    Some(&v) => v as u128,
                    None => self.settle_quick(n.a, left)?,
                };
                self.settle_quick(if c == 0 { n.c } else { n.b }, left)
            }
            Op::Zext | Op::Sext | Op::Extract => {
                let a = self.settle_quick(n.a, left)?;
                fold(n.op, n.w, self.p.w(n.a), 0, a, 0, 0, n.k)
            }
            _ => {
                let a = self.settle_quick(n.a, left)?;
                let b = self.settle_quick(n.b, left)?;
                fold(n.op, n.w, self.p.w(n.a), self.p.w(n.b), a, b, 0, n.k)
            }
        }
    }
    fn settle(&self, e: E, memo: &mut FxMap<E, Option<u128>>, left: &mut u32) -> Option<u128> {
        if let Some(k) = self.p.kc(e) {
            return Some(k);
        }
        if let Some(&k) = self.fixed.get(&e) {
            return Some(k);
        }
        let n = self.p.node(e);
        if n.w == 1 {
            if let Some(&v) = self.known.get(&e) {
                return Some(v as u128);
            }
        }
        if n.op == Op::Var {
            let d = self.dom[n.k as usize];
            return if d.is_power_of_two() { Some(d.trailing_zeros() as u128) } else { None };
        }
        if let Some(&r) = memo.get(&e) {
            return r;
        }
        if *left == 0 {
            return None;
        }
        *left -= 1;
        let r = match n.op {
            Op::Ite => match self.settle(n.a, memo, left) {
                Some(0) => self.settle(n.c, memo, left),
                Some(_) => self.settle(n.b, memo, left),
                None => None,
            },
            Op::Zext | Op::Sext | Op::Extract => {
                self.settle(n.a, memo, left).and_then(|a| fold(n.op, n.w, self.p.w(n.a), 0, a, 0, 0, n.k))
            }
            _ => match self.settle(n.a, memo, left) {
                None => None,
                Some(a) => self.settle(n.b, memo, left).and_then(|b| fold(n.op, n.w, self.p.w(n.a), self.p.w(n.b), a, b, 0, n.k)),
            },
        };
        memo.insert(e, r);
        r
    }
    /// Decide a branch condition; forks when both outcomes are feasible.
    fn branch(&mut self, c: E) -> RR<bool> {
        if let Some(k) = self.p.kc(c) {
            return Ok(k == 1);
        }
        if let Some(&v) = self.known.get(&c) {
            return Ok(v);
        }
        if let Some(k) = self.settled(c) {
            Shared::add(&self.sh.q_domain, 1);
            self.know(c, k == 1);
            return Ok(k == 1);
        }
        let cur = self.p.eval(c, &self.model) == 1;
        let v = self.p.sup[c as usize];
        if v != 0 && v != MANY {
            let t = self.p.truth(c);
            let d = self.dom[self.p.node(v).k as usize];
            if (if cur { d & !t } else { d & t }) == 0 {
                // what the path says about this variable alone decides it
                Shared::add(&self.sh.q_domain, 1);
                return Ok(cur);
            }
        }
        let other = if cur { self.p.not(c) } else { c };
        let (r, m) = self.query(other);
        match r {
            Res::Unsat => {
                self.know(c, cur);
                Ok(cur)
            }
            Res::Unknown => Err(Stop::Incomplete("solver resource limit".into())),
            Res::Sat => {
                Shared::add(&self.sh.forks, 1);
                self.check_deadline();
                Shared::add(&self.sh.started, 1);
                // Instructions decide every branch before they have an effect, so the other side
                // can start over with this one.
                let mut frames = self.frames.clone();
                frames.last_mut().unwrap().pc -= 1;
                let level = self.z.mark();
                self.snaps.push(Snap {
                    mem: self.mem.clone(),
                    frames,
                    model: m,
                    widths: self.widths.clone(),
                    known: self.known.clone(),
                    fixed: self.fixed.clone(),
                    dom: self.dom.clone(),
                    outs: self.outs.clone(),
                    steps: self.steps,
                    ite_mode: self.ite_mode,
                    expect_panic: self.expect_panic,
                    level,
                    cond: c,
                    val: !cur,
                });
                self.assume_e(c, cur);
                if self.share() {
                    return Err(Stop::Switch);
                }
                Ok(cur)
            }
        }
    }
    /// Hands the oldest open alternative to a new process when fewer than the limit are running.
    /// True in that process.
    fn share(&mut self) -> bool {
        while !self.snaps.is_empty() {
            let a = self.sh.active.fetch_add(1, SeqCst);
            if a >= self.cfg.max_procs {
                self.sh.active.fetch_sub(1, SeqCst);
                return false;
            }
            self.reap();
            let pid = unsafe { fork() };
            if pid < 0 {
                eprintln!("symex: fork failed");
                self.fail_process();
            }
            if pid == 0 {
                // the process it comes from has counted these
                self.counted = self.steps;
                self.next = Some(self.snaps.remove(0));
                std::mem::forget(std::mem::take(&mut self.snaps));
                return true;
            }
            std::mem::forget(self.snaps.remove(0));
        }
        false
    }
    fn reap(&self) {
        unsafe {
            let mut st = 0;
            while waitpid(-1, &mut st, 1) > 0 {
                if st != 0 {
                    Shared::add(&self.sh.errors, 1);
                }
            }
        }
    }
    fn restore(&mut self, s: Snap) {
        self.mem = s.mem;
        self.frames = s.frames;
        self.model = s.model;
        self.widths = s.widths;
        self.known = s.known;
        self.fixed = s.fixed;
        self.dom = s.dom;
        self.outs = s.outs;
        self.steps = s.steps;
        self.counted = s.steps;
        self.ite_mode = s.ite_mode;
        self.expect_panic = s.expect_panic;
        self.z.back_to(s.level);
        self.assume_e(s.cond, s.val);
    }
    fn check_deadline(&mut self) {
        if Instant::now() > self.cfg.deadline {
            self.sh.timeout.store(1, SeqCst);
        }
        if self.sh.timeout.load(SeqCst) != 0 || self.sh.viol_written.load(SeqCst) >= self.cfg.max_viol {
            Shared::add(&self.sh.paths_incomplete, 1 + self.snaps.len() as u64);
            Shared::add(&self.sh.finished, 1 + self.snaps.len() as u64);
            self.count_steps();
            self.end_process();
        }
    }
    fn count_steps(&mut self) {
        Shared::add(&self.sh.instrs, self.steps - self.counted);
        self.counted = self.steps;
        self.sh.max_steps.fetch_max(self.steps, SeqCst);
    }
    fn end_process(&mut self) -> ! {
        self.sh.active.fetch_sub(1, SeqCst);
        self.reap();
        unsafe { _exit(0) }
    }
    /// Pick a concrete value for `v`, exploring every feasible one.
    fn fork_value(&mut self, v: &Val, w: u16) -> RR<u128> {
        if let Some(k) = Self::conc(v) {
            return Ok(k);
        }
        let e = self.to_e(v, w)?;
        loop {
            let k = self.p.eval(e, &self.model);
            let kc = self.p.con(w, k);
            let c = self.p.bin(Op::Eq, e, kc);
            if self.branch(c)? {
                return Ok(k);
            }
        }
    }
    fn new_var(&mut self, w: u16, hi: u128) -> E {
        let idx = self.widths.len();
        self.widths.push(w);
        self.model.push(0);
        self.dom.push(if hi < 64 { u64::MAX >> (63 - hi as u32) } else { 0 });
        let e = self.p.var(w, idx, hi);
        Shared::add(&self.sh.sym_vars, 1);
        if hi < mask(w) {
            let k = self.p.con(w, hi);
            // assert directly: the simplifier already knows the bound
            let a = self.raw_ule(e, k);
            self.z.assert(a);
        }
        e
    }
    fn raw_ule(&mut self, a: E, k: E) -> E {
        // !(k < a) without bound-based folding: build through a fresh unconstrained twin
        let w = self.p.w(a);
        let saved = self.p.hi[a as usize];
        self.p.hi[a as usize] = mask(w);
        let r = self.p.bin(Op::Ule, a, k);
        self.p.hi[a as usize] = saved;
        r
    }

    // ---------- memory ----------
    fn viol<T>(&self, s: String) -> RR<T> {
        Err(Stop::Violation(s))
    }
    fn access(&mut self, addr: u64, size: u64, write: bool) -> RR<(Ref, usize)> {
        if let Some(r) = self.mem.find(addr) {
            let o = self.mem.obj(r);
            if o.freed {
                return self.viol(format!("use after free: {} of {} bytes at offset {} of a freed {}-byte heap block", if write { "write" } else { "read" }, size, addr - o.base, o.size));
            }
            if addr + size > o.base + o.size {
                return self.viol(format!("out-of-bounds {} of {} bytes at offset {} of a {}-byte {:?} object", if write { "write" } else { "read" }, size, addr - o.base, o.size, o.kind));
            }
            if write && o.ro {
                return self.viol("write to constant memory".into());
            }
            return Ok((r, (addr - o.base) as usize));
        }
        self.viol(format!("invalid {} of {} bytes at address {:#x}", if write { "write" } else { "read" }, size, addr))
    }
    fn read_bytes_val(&mut self, r: Ref, off: usize, n: usize) -> RR<Val> {
        let o = self.mem.obj(r);
        if o.sym.is_empty() || o.sym[off..off + n].iter().all(|&s| s == 0) {
            if n <= 8 {
                let mut x = 0u64;
                for i in (0..n).rev() {
                    x = (x << 8) | o.data[off + i] as u64;
                }
                return Ok(Val::C(x));
            }
            let mut x = 0u128;
            for i in (0..n).rev() {
                x = (x << 8) | o.data[off + i] as u128;
            }
            return Ok(Val::W(Box::new(x)));
        }
        let parts: Vec<(u32, u8)> = (0..n).map(|i| (o.sym[off + i], o.data[off + i])).collect();
        let mut acc: Option<E> = None;
        for (s, b) in parts {
            let e = if s != 0 { s } else { self.p.con(8, b as u128) };
            acc = Some(match acc {
                None => e,
                Some(lo) => self.p.concat(e, lo),
            });
        }
        Ok(self.of_e(acc.unwrap()))
    }
    fn write_bytes_val(&mut self, r: Ref, off: usize, n: usize, v: &Val) -> RR<()> {
        match v {
            Val::C(x) => {
                let o = self.mem.obj_mut(r);
                for i in 0..n {
                    o.data[off + i] = if i < 8 { (x >> (8 * i)) as u8 } else { 0 };
                }
                if !o.sym.is_empty() {
                    for s in &mut o.sym[off..off + n] {
                        *s = 0;
                    }
                }
            }
            Val::W(x) => {
                let x = **x;
                let o = self.mem.obj_mut(r);
                for i in 0..n {
                    o.data[off + i] = (x >> (8 * i)) as u8;
                }
                if !o.sym.is_empty() {
                    for s in &mut o.sym[off..off + n] {
                        *s = 0;
                    }
                }
            }
            Val::U => {
                let o = self.mem.obj_mut(r);
                for i in 0..n {
                    o.data[off + i] = 0;
                }
                if !o.sym.is_empty() {
                    for s in &mut o.sym[off..off + n] {
                        *s = 0;
                    }
                }
            }
            Val::S(e) => {
                let w = self.p.w(*e);
                let full = if (w as usize) < 8 * n { self.p.zext(*e, 8 * n as u16) } else { *e };
                let mut bs = vec![];
                for i in 0..n {
                    let b = self.p.extract(full, 8 * i as u16, 8);
                    bs.push((b, self.p.kc(b)));
                }
                let o = self.mem.obj_mut(r);
                if o.sym.is_empty() {
                    o.sym = vec![0; o.size as usize];
                }
                for (i, (b, k)) in bs.into_iter().enumerate() {
                    match k {
                        Some(k) => {
                            o.data[off + i] = k as u8;
                            o.sym[off + i] = 0;
                        }
                        None => o.sym[off + i] = b,
                    }
                }
            }
            Val::A(_) => return Err(Stop::Error("aggregate store".into())),
        }
        Ok(())
    }
    fn scalar_bytes(&self, t: Ty) -> Option<(usize, u16)> {
        match self.m.t(t) {
            T::Int(w) | T::Float(w) => Some(((*w as usize + 7) / 8, *w)),
            T::Ptr => Some((8, 64)),
            _ => None,
        }
    }
    fn load_at(&mut self, t: Ty, addr: u64) -> RR<Val> {
        if let Some((n, w)) = self.scalar_bytes(t) {
            let (r, off) = self.access(addr, n as u64, false)?;
            let v = self.read_bytes_val(r, off, n)?;
            if n * 8 != w as usize {
                return self.trunc_val(v, (n * 8) as u16, w);
            }
            return Ok(v);
        }
        match self.m.t(t).clone() {
            T::Struct(es, _) => {
                let mut v = vec![];
                for i in 0..es.len() {
                    let (o, e) = self.m.field_off(t, i);
                    v.push(self.load_at(e, addr + o)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            T::Array(n, e) | T::Vector(n, e) => {
                if matches!(self.m.t(t), T::Vector(..)) && self.m.bitw(e) % 8 != 0 {
                    return Err(Stop::Error("bit-vector load".into()));
                }
                let s = self.m.size_align(e).0;
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.load_at(e, addr + s * i)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            x => Err(Stop::Error(format!("load of {:?}", x))),
        }
    }
    fn store_at(&mut self, t: Ty, addr: u64, v: &Val) -> RR<()> {
        if let Some((n, _)) = self.scalar_bytes(t) {
            let (r, off) = self.access(addr, n as u64, true)?;
            return self.write_bytes_val(r, off, n, v);
        }
        match self.m.t(t).clone() {
            T::Struct(es, _) => {
                for i in 0..es.len() {
                    let (o, e) = self.m.field_off(t, i);
                    let x = match v {
                        Val::A(vs) => vs[i].clone(),
                        _ => Val::U,
                    };
                    self.store_at(e, addr + o, &x)?;
                }
                Ok(())
            }
            T::Array(n, e) | T::Vector(n, e) => {
                if matches!(self.m.t(t), T::Vector(..)) && self.m.bitw(e) % 8 != 0 {
                    return Err(Stop::Error("bit-vector store".into()));
                }
                let s = self.m.size_align(e).0;
                for i in 0..n {
                    let x = match v {
                        Val::A(vs) => vs[i as usize].clone(),
                        _ => Val::U,
                    };
                    self.store_at(e, addr + s * i, &x)?;
                }
                Ok(())
            }
            x => Err(Stop::Error(format!("store of {:?}", x))),
        }
    }
    /// Resolve a pointer operand: Ok(Left addr) concrete, or symbolic within one object.
    fn sym_target(&mut self, e: E, size: u64) -> RR<(Ref, u64, u64)> {
        loop {
            let a = self.p.eval(e, &self.model) as u64;
            let r = match self.mem.find(a) {
                Some(r) => r,
                None => return self.viol(format!("symbolic pointer can reach invalid address {:#x}", a)),
            };
            let (base, osz) = {
                let o = self.mem.obj(r);
                (o.base, o.size)
            };
            if a + size > base + osz {
                // confirm through the ordinary path for the message
                self.access(a, size, false)?;
            }
            let b = self.p.con(64, base as u128);
            let off = self.p.bin(Op::Sub, e, b);
            let lim = self.p.con(64, (osz - size) as u128);
            let c = self.p.bin(Op::Ule, off, lim);
            if self.branch(c)? {
                return Ok((r, base, osz));
            }
        }
    }
    fn load(&mut self, t: Ty, ptr: &Val, align: u64) -> RR<Val> {
        match ptr {
            Val::C(a) => {
                if align > 1 && a % align != 0 {
                    return self.viol(format!("misaligned read (needs {}-byte alignment)", align));
                }
                self.load_at(t, *a)
            }
            Val::S(e) => {
                let e = *e;
                let size = self.m.size_align(t).0;
                if align > 1 {
                    self.check_align(e, align)?;
                }
                let (r, base, osz) = self.sym_target(e, size)?;
                let n = (osz - size) / align.max(1) + 1;
                if !self.ite_mode || n > 128 || self.scalar_bytes(t).is_none() {
                    let a = self.fork_value(ptr, 64)? as u64;
                    return self.load_at(t, a);
                }
                let _ = r;
                let w = self.scalar_bytes(t).unwrap().1;
                // group equal values
                let mut groups: Vec<(E, E)> = vec![]; // (value, condition)
                let mut counts: Vec<u32> = vec![];
                for i in 0..n {
                    let a = base + i * align.max(1);
                    let k = self.p.con(64, a as u128);
                    let c = self.p.bin(Op::Eq, e, k);
                    if self.p.kc(c) == Some(0) {
                        continue;
                    }
                    let v = self.load_at(t, a)?;
                    let ve = self.to_e(&v, w)?;
                    if let Some(g) = groups.iter().position(|g| g.0 == ve) {
                        let o = self.p.bin(Op::Or, groups[g].1, c);
                        groups[g].1 = o;
                        counts[g] += 1;
                    } else {
                        groups.push((ve, c));
                        counts.push(1);
                    }
                }
                let d = (0..groups.len()).max_by_key(|&i| counts[i]).unwrap();
                let mut acc = groups[d].0;
                for (i, (v, c)) in groups.iter().enumerate() {
                    if i != d {
                        acc = self.p.ite(*c, *v, acc);
                    }
                }
                Ok(self.of_e(acc))
            }
            Val::U => self.viol("load through an undefined pointer".into()),
            _ => Err(Stop::Error("load pointer".into())),
        }
    }
    fn check_align(&mut self, e: E, align: u64) -> RR<()> {
        let l = self.p.extract(e, 0, align.trailing_zeros() as u16);
        let z = self.p.con(align.trailing_zeros() as u16, 0);
        let c = self.p.bin(Op::Eq, l, z);
        if !self.branch(c)? {
            return self.viol(format!("misaligned access (needs {}-byte alignment)", align));
        }
        Ok(())
    }
    fn store(&mut self, t: Ty, ptr: &Val, v: &Val, align: u64) -> RR<()> {
        match ptr {
            Val::C(a) => {
                if align > 1 && a % align != 0 {
                    return self.viol(format!("misaligned write (needs {}-byte alignment)", align));
                }
                self.store_at(t, *a, v)
            }
            Val::S(e) => {
                let e = *e;
                let size = self.m.size_align(t).0;
                if align > 1 {
                    self.check_align(e, align)?;
                }
                let (_, base, osz) = self.sym_target(e, size)?;
                let n = (osz - size) / align.max(1) + 1;
                let aligned_cells = align.max(1) >= size;
                if !self.ite_mode || n > 64 || self.scalar_bytes(t).is_none() || !aligned_cells {
                    let a = self.fork_value(ptr, 64)? as u64;
                    return self.store_at(t, a, v);
                }
                let w = self.scalar_bytes(t).unwrap().1;
                let ve = self.to_e(v, w)?;
                for i in 0..n {
                    let a = base + i * align.max(1);
                    let k = self.p.con(64, a as u128);
                    let c = self.p.bin(Op::Eq, e, k);
                    if self.p.kc(c) == Some(0) {
                        continue;
                    }
                    let old = self.load_at(t, a)?;
                    let oe = self.to_e(&old, w)?;
                    let ne = self.p.ite(c, ve, oe);
                    let nv = self.of_e(ne);
                    self.store_at(t, a, &nv)?;
                }
                Ok(())
            }
            Val::U => self.viol("store through an undefined pointer".into()),
            _ => Err(Stop::Error("store pointer".into())),
        }
    }
    fn memcpy(&mut self, d: &Val, s: &Val, n: &Val) -> RR<()> {
        let n = self.fork_value(n, 64)? as u64;
        if n == 0 {
            return Ok(());
        }
        let d = self.fork_value(d, 64)? as u64;
        let s = self.fork_value(s, 64)? as u64;
        let (sr, so) = self.access(s, n, false)?;
        let (dr, dof) = self.access(d, n, true)?;
        let n = n as usize;
        if sr == dr {
            let o = self.mem.obj_mut(dr);
            o.data.copy_within(so..so + n, dof);
            if !o.sym.is_empty() {
                o.sym.copy_within(so..so + n, dof);
            }
            return Ok(());
        }
        let (src_sym, any) = {
            let o = self.mem.obj(sr);
            if o.sym.is_empty() {
                (vec![], false)
            } else {
                let v = o.sym[so..so + n].to_vec();
                let a = v.iter().any(|&x| x != 0);
                (v, a)
            }
        };
        let data = self.mem.obj(sr).data[so..so + n].to_vec();
        let o = self.mem.obj_mut(dr);
        o.data[dof..dof + n].copy_from_slice(&data);
        if any {
            if o.sym.is_empty() {
                o.sym = vec![0; o.size as usize];
            }
            o.sym[dof..dof + n].copy_from_slice(&src_sym);
        } else if !o.sym.is_empty() {
            for x in &mut o.sym[dof..dof + n] {
                *x = 0;
            }
        }
        Ok(())
    }
    fn heap_alloc(&mut self, size: u64, align: u64) -> RR<Val> {
        if size > 1 << 30 {
            return self.viol(format!("allocation of {} bytes", size));
        }
        if self.mem.heap_live > 1 << 30 {
            return Err(Stop::Incomplete("heap limit".into()));
        }
        Ok(Val::C(self.mem.alloc_heap(size, align)))
    }
    fn heap_free(&mut self, a: u64) -> RR<()> {
        if let Some(r) = self.mem.find(a) {
            let o = self.mem.obj_mut(r);
            if o.kind == Kind::Heap && o.base == a {
                if o.freed {
                    return self.viol("double free".into());
                }
                o.freed = true;
                o.data = vec![];
                o.sym = vec![];
                let s = o.size;
                self.mem.heap_live -= s;
                return Ok(());
            }
        }
        self.viol(format!("free of an invalid pointer {:#x}", a))
    }

    // ---------- scalar operations ----------
    fn trunc_val(&mut self, v: Val, from: u16, to: u16) -> RR<Val> {
        Ok(match v {
            Val::C(x) => Val::C((x as u128 & mask(to)) as u64),
            Val::W(x) => c64(*x & mask(to), to),
            Val::S(e) => {
                debug_assert_eq!(self.p.w(e), from);
                let r = self.p.extract(e, 0, to);
                self.of_e(r)
            }
            Val::U => Val::U,
            Val::A(_) => return Err(Stop::Error("trunc aggregate".into())),
        })
    }
    fn binop(&mut self, op: BinOp, w: u16, a: &Val, b: &Val) -> RR<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = mask(w) as u64;
            let sx = |v: u64| sext(v as u128, w) as i64;
            let r = match op {
                BinOp::Add => x.wrapping_add(y),
                BinOp::Sub => x.wrapping_sub(y),
                BinOp::Mul => x.wrapping_mul(y),
                BinOp::And => x & y,
                BinOp::Or => x | y,
                BinOp::Xor => x ^ y,
                BinOp::Shl => {
                    if y >= w as u64 {
                        return Ok(Val::U);
                    }
                    x << y
                }
                BinOp::LShr => {
                    if y >= w as u64 {
                        return Ok(Val::U);
                    }
                    x >> y
                }
                BinOp::AShr => {
                    if y >= w as u64 {
                        return Ok(Val::U);
                    }
                    (sx(x) >> y) as u64
                }
                BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem => {
                    if y == 0 {
                        return self.viol("division by zero".into());
                    }
                    match op {
                        BinOp::UDiv => x / y,
                        BinOp::URem => x % y,
                        BinOp::SDiv => sx(x).wrapping_div(sx(y)) as u64,
                        _ => sx(x).wrapping_rem(sx(y)) as u64,
                    }
                }
            };
            return Ok(Val::C(r & m));
        }
        if let (Val::U, _) | (_, Val::U) = (a, b) {
            if !matches!(op, BinOp::And | BinOp::Or | BinOp::Mul) {
                // undefined input: result undefined
            }
            if let (Val::U, Val::U) = (a, b) {
                return Ok(Val::U);
            }
        }
        let x = self.to_e(a, w)?;
        let y = self.to_e(b, w)?;
        let o = match op {
            BinOp::Add => Op::Add,
            BinOp::Sub => Op::Sub,
            BinOp::Mul => Op::Mul,
            BinOp::And => Op::And,
            BinOp::Or => Op::Or,
            BinOp::Xor => Op::Xor,
            BinOp::Shl => Op::Shl,
            BinOp::LShr => Op::LShr,
            BinOp::AShr => Op::AShr,
            BinOp::UDiv => Op::UDiv,
            BinOp::URem => Op::URem,
            BinOp::SDiv => Op::SDiv,
            BinOp::SRem => Op::SRem,
        };
        if matches!(op, BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem) {
            let z = self.p.con(w, 0);
            let c = self.p.bin(Op::Eq, y, z);
            if self.branch(c)? {
                return self.viol("division by zero".into());
            }
        }
        let r = self.p.bin(o, x, y);
        Ok(self.of_e(r))
    }
    fn icmp(&mut self, p: Pred, w: u16, a: &Val, b: &Val) -> RR<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let sx = |v: u64| sext(v as u128, w) as i64;
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sx(x) < sx(y),
                Pred::Sle => sx(x) <= sx(y),
                Pred::Sgt => sx(x) > sx(y),
                Pred::Sge => sx(x) >= sx(y),
            };
            return Ok(Val::C(r as u64));
        }
        if let (Val::U, Val::U) = (a, b) {
            return Ok(Val::U);
        }
        let x = self.to_e(a, w)?;
        let y = self.to_e(b, w)?;
        let r = match p {
            Pred::Eq => self.p.bin(Op::Eq, x, y),
            Pred::Ne => {
                let e = self.p.bin(Op::Eq, x, y);
                self.p.not(e)
            }
            Pred::Ult => self.p.bin(Op::Ult, x, y),
            Pred::Ule => self.p.bin(Op::Ule, x, y),
            Pred::Ugt => self.p.bin(Op::Ult, y, x),
            Pred::Uge => self.p.bin(Op::Ule, y, x),
            Pred::Slt => self.p.bin(Op::Slt, x, y),
            Pred::Sle => self.p.bin(Op::Sle, x, y),
            Pred::Sgt => self.p.bin(Op::Slt, y, x),
            Pred::Sge => self.p.bin(Op::Sle, y, x),
        };
        Ok(self.of_e(r))
    }
    fn cast(&mut self, k: Cast, from: u16, to: u16, a: Val) -> RR<Val> {
        match k {
            Cast::Bitcast => Ok(a),
            Cast::Trunc => self.trunc_val(a, from, to),
            Cast::PtrInt => {
                if to < from {
                    self.trunc_val(a, from, to)
                } else if to > from {
                    self.cast(Cast::Zext, from, to, a)
                } else {
                    Ok(a)
                }
            }
            Cast::Zext => Ok(match a {
                Val::C(x) => c64(x as u128, to),
                Val::W(x) => c64(*x, to),
                Val::S(e) => {
                    let r = self.p.zext(e, to);
                    self.of_e(r)
                }
                Val::U => c64(0, to),
                _ => return Err(Stop::Error("zext".into())),
            }),
            Cast::Sext => Ok(match a {
                Val::C(x) => c64(sext(x as u128, from) as u128 & mask(to), to),
                Val::W(x) => c64(sext(*x, from) as u128 & mask(to), to),
                Val::S(e) => {
                    let r = self.p.sext(e, to);
                    self.of_e(r)
                }
                Val::U => c64(0, to),
                _ => return Err(Stop::Error("sext".into())),
            }),
        }
    }
    fn cond(&mut self, c: &Val) -> RR<bool> {
        match c {
            Val::C(x) => Ok(*x != 0),
            Val::S(e) => self.branch(*e),
            Val::U => self.viol("branch on an undefined value".into()),
            _ => Err(Stop::Error("condition".into())),
        }
    }
    fn lanes(&self, t: Ty) -> Option<(u64, Ty)> {
        match self.m.t(t) {
            T::Vector(n, e) => Some((*n, *e)),
            _ => None,
        }
    }
    fn lane(v: &Val, i: usize) -> Val {
        match v {
            Val::A(x) => x[i].clone(),
            _ => Val::U,
        }
    }

    // ---------- control ----------
    fn push_frame(&mut self, f: usize, args: Vec<Val>, ret: Option<u32>, normal: Option<u32>) -> RR<()> {
        if self.frames.len() > 4000 {
            return self.viol("stack overflow: call depth above 4000".into());
        }
        let body = match self.m.body(f) {
            Ok(b) => b,
            Err(e) => return Err(Stop::Error(e)),
        };
        if f < MAXF {
            let w = &self.sh.funcs[f / 64];
            let bit = 1u64 << (f % 64);
            if w.load(SeqCst) & bit == 0 {
                w.fetch_or(bit, SeqCst);
            }
        }
        let mut regs = self.spare.pop().unwrap_or_default();
        regs.clear();
        regs.resize(body.nregs, Val::U);
        for (i, a) in args.into_iter().enumerate() {
            if i < body.params.len() {
                regs[body.params[i] as usize] = a;
            }
        }
        let mark = self.mem.stack_mark();
        self.frames.push(Frame { f, body, regs, block: 0, pc: 0, prev: u32::MAX, ret, normal, mark });
        Ok(())
    }
    fn goto(&mut self, b: u32) -> RR<()> {
        let body;
        let prev;
        {
            let fr = self.frames.last_mut().unwrap();
            prev = fr.block;
            fr.prev = prev;
            fr.block = b;
            fr.pc = 0;
            if fr.body.blocks[b as usize].phis.is_empty() {
                return Ok(());
            }
            body = fr.body.clone();
        }
        let phis = &body.blocks[b as usize].phis;
        if phis.len() == 1 {
            let ph = &phis[0];
            let o = match ph.inc.iter().find(|x| x.0 == prev) {
                Some(o) => &o.1,
                None => return Err(Stop::Error("phi without predecessor".into())),
            };
            let v = self.get(o);
            self.set(ph.d, v);
            return Ok(());
        }
        let mut vals = Vec::with_capacity(phis.len());
        for ph in phis {
            let o = match ph.inc.iter().find(|x| x.0 == prev) {
                Some(o) => &o.1,
                None => return Err(Stop::Error("phi without predecessor".into())),
            };
            vals.push(self.get(o));
        }
        for (ph, v) in phis.iter().zip(vals) {
            self.set(ph.d, v);
        }
        Ok(())
    }

    pub fn run(&mut self, f: usize) -> ! {
        let mut r = self.push_frame(f, vec![], None, None);
        loop {
            if r.is_ok() {
                r = self.exec();
            }
            match r {
                Err(Stop::Switch) => {}
                Ok(()) => self.finish(Stop::Ok),
                Err(s) => self.finish(s),
            }
            if self.next.is_none() && self.snaps.len() > 1 {
                self.share();
            }
            let s = match self.next.take().or_else(|| self.snaps.pop()) {
                Some(s) => s,
                None => self.end_process(),
            };
            self.restore(s);
            r = Ok(());
        }
    }
    fn stack_names(&self) -> Vec<String> {
        self.frames.iter().rev().take(24).map(|f| self.m.funcs[f.f].name.clone()).collect()
    }
    fn finish(&mut self, stop: Stop) {
        match stop {
            Stop::Switch => unreachable!(),
            Stop::Ok => {
                let n = self.sh.paths_ok.fetch_add(1, SeqCst);
                // deterministic thinning of the recorded sample
                let keep = n < 40 || (n < 400 && n % 8 == 0) || n % 64 == 0;
                if keep && self.sh.samples.load(SeqCst) < self.cfg.max_samples {
                    self.sh.samples.fetch_add(1, SeqCst);
                    self.record("ok", "");
                }
            }
            Stop::PanicOk => {
                let n = self.sh.paths_panic_ok.fetch_add(1, SeqCst);
                if n < 10 {
                    self.record("panic_ok", "");
                }
            }
            Stop::Assume => {
                Shared::add(&self.sh.paths_assume, 1);
            }
            Stop::Violation(s) => {
                Shared::add(&self.sh.paths_violation, 1);
                let n = self.sh.viol_written.fetch_add(1, SeqCst);
                if n < self.cfg.max_viol {
                    self.record("violation", &s);
                }
            }
            Stop::Incomplete(s) => {
                Shared::add(&self.sh.paths_incomplete, 1);
                self.record("incomplete", &s);
            }
            Stop::Error(s) => {
                Shared::add(&self.sh.errors, 1);
                self.record("error", &s);
            }
        }
        self.count_steps();
        Shared::add(&self.sh.finished, 1);
    }
    fn record(&mut self, kind: &str, msg: &str) {
        let mut outs = vec![];
        for v in self.outs.clone() {
            let x = match v {
                Val::S(e) => self.p.eval(e, &self.model),
                v => Self::conc(&v).unwrap_or(0),
            };
            outs.push(x.to_string());
        }
        let ins: Vec<String> = self.model.iter().map(|x| x.to_string()).collect();
        let st: Vec<String> = if kind == "ok" { vec![] } else { self.stack_names().into_iter().map(|s| format!("\"{}\"", s)).collect() };
        let line = format!(
            "{{\"h\":\"{}\",\"kind\":\"{}\",\"msg\":\"{}\",\"inputs\":[{}],\"outs\":[{}],\"steps\":{},\"stack\":[{}]}}\n",
            self.harness,
            kind,
            msg.replace('\\', "\\\\").replace('"', "'").replace('\n', " "),
            ins.join(","),
            outs.join(","),
            self.steps,
            st.join(",")
        );
        if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(&self.cfg.out) {
            let _ = f.write_all(line.as_bytes());
        }
    }

    fn exec(&mut self) -> RR<()> {
        loop {
            self.steps += 1;
            if self.steps & 0xffff == 0 {
                self.check_deadline();
                if self.steps > self.cfg.max_steps {
                    return self.viol(format!("does not terminate within {} interpreter steps", self.cfg.max_steps));
                }
            }
            let body;
            let (b, pc);
            {
                let fr = self.frames.last_mut().unwrap();
                b = fr.block as usize;
                pc = fr.pc;
                fr.pc += 1;
                // SAFETY: `body` is kept alive by the frame's Rc for the duration of this step
                body = Rc::as_ptr(&fr.body);
            }
            let ins: &I = unsafe { let bd: &Body = &*body; &bd.blocks[b].ins[pc] };
            match ins {
                I::Bin { op, ty, d, a, b } => {
                    let x = self.get(a);
                    let y = self.get(b);
                    let v = if let Some((n, e)) = self.lanes(*ty) {
                        let w = self.m.bitw(e);
                        let mut r = vec![];
                        for i in 0..n as usize {
                            r.push(self.binop(*op, w, &Self::lane(&x, i), &Self::lane(&y, i))?);
                        }
                        Val::A(Rc::new(r))
                    } else {
                        let w = self.m.bitw(*ty);
                        self.binop(*op, w, &x, &y)?
                    };
                    self.set(*d, v);
                }
                I::Icmp { p, ty, d, a, b } => {
                    let x = self.get(a);
                    let y = self.get(b);
                    let v = if let Some((n, e)) = self.lanes(*ty) {
                        let w = self.m.bitw(e);
                        let mut r = vec![];
                        for i in 0..n as usize {
                            r.push(self.icmp(*p, w, &Self::lane(&x, i), &Self::lane(&y, i))?);
                        }
                        Val::A(Rc::new(r))
                    } else {
                        let w = self.m.bitw(*ty);
                        self.icmp(*p, w, &x, &y)?
                    };
                    self.set(*d, v);
                }
                I::Cast { k, from, to, d, a } => {
                    let x = self.get(a);
                    let v = match (self.lanes(*from), self.lanes(*to)) {
                        (Some((n, fe)), Some((n2, te))) if n == n2 => {
                            let (fw, tw) = (self.m.bitw(fe), self.m.bitw(te));
                            let mut r = vec![];
                            for i in 0..n as usize {
                                r.push(self.cast(*k, fw, tw, Self::lane(&x, i))?);
                            }
                            Val::A(Rc::new(r))
                        }
                        (Some((n, fe)), None) => {
                            // bitcast vector -> integer
                            let fw = self.m.bitw(fe);
                            let mut acc: Option<E> = None;
                            for i in 0..n as usize {
                                let e = self.to_e(&Self::lane(&x, i), fw)?;
                                acc = Some(match acc {
                                    None => e,
                                    Some(lo) => self.p.concat(e, lo),
                                });
                            }
                            self.of_e(acc.unwrap())
                        }
                        (None, Some((n, te))) => {
                            let tw = self.m.bitw(te);
                            let fw = self.m.bitw(*from);
                            let e = self.to_e(&x, fw)?;
                            let mut r = vec![];
                            for i in 0..n as u16 {
                                let l = self.p.extract(e, i * tw, tw);
                                r.push(self.of_e(l));
                            }
                            Val::A(Rc::new(r))
                        }
                        (Some((n, fe)), Some((n2, te))) => {
                            let fw = self.m.bitw(fe);
                            let tw = self.m.bitw(te);
                            let mut acc: Option<E> = None;
                            for i in 0..n as usize {
                                let e = self.to_e(&Self::lane(&x, i), fw)?;
                                acc = Some(match acc {
                                    None => e,
                                    Some(lo) => self.p.concat(e, lo),
                                });
                            }
                            let e = acc.unwrap();
                            let mut r = vec![];
                            for i in 0..n2 as u16 {
                                let l = self.p.extract(e, i * tw, tw);
                                r.push(self.of_e(l));
                            }
                            Val::A(Rc::new(r))
                        }
                        _ => {
                            let (fw, tw) = (self.m.bitw(*from), self.m.bitw(*to));
                            self.cast(*k, fw, tw, x)?
                        }
                    };
                    self.set(*d, v);
                }
                I::Select { d, cty, ty, c, a, b } => {
                    let cv = self.get(c);
                    if self.lanes(*cty).is_some() {
                        let (x, y) = (self.get(a), self.get(b));
                        let (n, _) = self.lanes(*ty).unwrap();
                        let mut r = vec![];
                        for i in 0..n as usize {
                            let l = Self::lane(&cv, i);
                            r.push(if self.cond(&l)? { Self::lane(&x, i) } else { Self::lane(&y, i) });
                        }
                        self.set(*d, Val::A(Rc::new(r)));
                        continue;
                    }
                    let v = match cv {
                        Val::C(x) => {
                            if x != 0 {
                                self.get(a)
                            } else {
                                self.get(b)
                            }
                        }
                        Val::U => self.get(b),
                        Val::S(e) => {
                            let scalar_int = matches!(self.m.t(*ty), T::Int(_));
                            let (x, y) = (self.get(a), self.get(b));
                            if scalar_int {
                                let w = self.m.bitw(*ty);
                                let xe = self.to_e(&x, w)?;
                                let ye = self.to_e(&y, w)?;
                                let r = self.p.ite(e, xe, ye);
                                self.of_e(r)
                            } else if self.branch(e)? {
                                x
                            } else {
                                y
                            }
                        }
                        _ => return Err(Stop::Error("select".into())),
                    };
                    self.set(*d, v);
                }
                I::Load { d, ty, p, align } => {
                    let a = self.get(p);
                    let v = self.load(*ty, &a, *align)?;
                    self.set(*d, v);
                }
                I::Store { ty, v, p, align } => {
                    let a = self.get(p);
                    let x = self.get(v);
                    self.store(*ty, &a, &x, *align)?;
                }
                I::Gep { d, base, off, terms } => {
                    let b = self.get(base);
                    let mut acc = b;
                    if *off != 0 {
                        acc = self.binop(BinOp::Add, 64, &acc, &Val::C(*off))?;
                    }
                    for (o, sz, w) in terms {
                        let i = self.get(o);
                        let i = if *w < 64 { self.cast(Cast::Sext, *w, 64, i)? } else { i };
                        let t = if *sz == 1 { i } else { self.binop(BinOp::Mul, 64, &i, &Val::C(*sz))? };
                        acc = self.binop(BinOp::Add, 64, &acc, &t)?;
                    }
                    self.set(*d, acc);
                }
                I::Alloca { d, size, align } => {
                    let a = self.mem.alloc_stack(*size, *align);
                    self.set(*d, Val::C(a));
                }
                I::Br(t) => self.goto(*t)?,
                I::CondBr { c, t, f } => {
                    let v = self.get(c);
                    let r = self.cond(&v)?;
                    self.goto(if r { *t } else { *f })?;
                }
                I::Switch { ty, v, def, cases } => {
                    let x = self.get(v);
                    let w = self.m.bitw(*ty);
                    let target = match &x {
                        Val::U => return self.viol("switch on an undefined value".into()),
                        Val::S(e) => {
                            let e = *e;
                            let mut t = None;
                            // start with the case the current model takes
                            let cur = self.p.eval(e, &self.model);
                            let mut order: Vec<(u128, u32)> = cases.clone();
                            order.sort_by_key(|c| (c.0 != cur) as u8);
                            for (k, l) in order {
                                let kc = self.p.con(w, k);
                                let c = self.p.bin(Op::Eq, e, kc);
                                if self.branch(c)? {
                                    t = Some(l);
                                    break;
                                }
                            }
                            t.unwrap_or(*def)
                        }
                        v => {
                            let k = Self::conc(v).unwrap();
                            cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def)
                        }
                    };
                    self.goto(target)?;
                }
                I::Ret(v) => {
                    let val = match v {
                        Some((_, o)) => Some(self.get(o)),
                        None => None,
                    };
                    let fr = self.frames.pop().unwrap();
                    self.mem.stack_release(fr.mark);
                    let Frame { regs, ret, normal, .. } = fr;
                    self.spare.push(regs);
                    if self.frames.is_empty() {
                        return Ok(());
                    }
                    if let (Some(d), Some(v)) = (ret, val) {
                        self.set(d, v);
                    }
                    if let Some(n) = normal {
                        self.goto(n)?;
                    }
                }
                I::Call { d, f, args, tys, ret, normal } => {
                    let fi = match f {
                        Callee::F(i) => *i,
                        Callee::Ind(o) => {
                            let v = self.get(o);
                            let a = self.fork_value(&v, 64)? as u64;
                            if !Mem::is_func(a) || (a - FUNC_BASE) % 16 != 0 || (a - FUNC_BASE) / 16 >= self.m.funcs.len() as u64 {
                                return self.viol(format!("call through an invalid function pointer {:#x}", a));
                            }
                            ((a - FUNC_BASE) / 16) as usize
                        }
                    };
                    let av: Vec<Val> = args.iter().map(|a| self.get(a)).collect();
                    if self.kinds[fi] == FK::Body {
                        self.push_frame(fi, av, *d, *normal)?;
                    } else {
                        let r = self.intrinsic(fi, &av, tys, *ret)?;
                        if let Some(d) = d {
                            self.set(*d, r);
                        }
                        if let Some(n) = normal {
                            self.goto(*n)?;
                        }
                    }
                }
                I::Unreachable => return self.viol("reached code the compiler was promised is unreachable (undefined behaviour)".into()),
                I::ExtractValue { d, a, path } => {
                    let mut v = self.get(a);
                    for &i in path {
                        v = match v {
                            Val::A(x) => x[i as usize].clone(),
                            _ => Val::U,
                        };
                    }
                    self.set(*d, v);
                }
                I::InsertValue { d, ty, a, v, path } => {
                    let agg = self.get(a);
                    let x = self.get(v);
                    let r = self.insert(*ty, agg, x, path);
                    self.set(*d, r);
                }
                I::ExtractElement { d, a, i } => {
                    let v = self.get(a);
                    let iv = self.get(i);
                    let i = self.fork_value(&iv, 64)? as usize;
                    self.set(*d, Self::lane(&v, i));
                }
                I::InsertElement { d, ty, a, v, i } => {
                    let (n, _) = self.lanes(*ty).unwrap();
                    let agg = self.get(a);
                    let mut r: Vec<Val> = (0..n as usize).map(|k| Self::lane(&agg, k)).collect();
                    let iv = self.get(i);
                    let i = self.fork_value(&iv, 64)? as usize;
                    r[i] = self.get(v);
                    self.set(*d, Val::A(Rc::new(r)));
                }
                I::Shuffle { d, ty, a, b, mask } => {
                    let (n, _) = self.lanes(*ty).unwrap();
                    let (x, y, m) = (self.get(a), self.get(b), self.get(mask));
                    let mut r = vec![];
                    if let Val::A(ms) = &m {
                        for k in ms.iter() {
                            r.push(match Self::conc(k) {
                                Some(k) if !matches!(ms[0], Val::U) || true => {
                                    let k = k as usize;
                                    if k < n as usize {
                                        Self::lane(&x, k)
                                    } else {
                                        Self::lane(&y, k - n as usize)
                                    }
                                }
                                _ => Val::U,
                            });
                        }
                    }
                    self.set(*d, Val::A(Rc::new(r)));
                }
                I::Rmw { d, op, ty, p, v } => {
                    let a = self.get(p);
                    let old = self.load(*ty, &a, 1)?;
                    let x = self.get(v);
                    let w = self.m.bitw(*ty);
                    let new = match op.as_str() {
                        "xchg" => x,
                        "add" => self.binop(BinOp::Add, w, &old, &x)?,
                        "sub" => self.binop(BinOp::Sub, w, &old, &x)?,
                        "and" => self.binop(BinOp::And, w, &old, &x)?,
                        "or" => self.binop(BinOp::Or, w, &old, &x)?,
                        "xor" => self.binop(BinOp::Xor, w, &old, &x)?,
                        "max" | "min" | "umax" | "umin" => {
                            let p = match op.as_str() {
                                "max" => Pred::Sgt,
                                "min" => Pred::Slt,
                                "umax" => Pred::Ugt,
                                _ => Pred::Ult,
                            };
                            let c = self.icmp(p, w, &old, &x)?;
                            if self.cond(&c)? {
                                old.clone()
                            } else {
                                x
                            }
                        }
                        "nand" => {
                            let v = self.binop(BinOp::And, w, &old, &x)?;
                            self.binop(BinOp::Xor, w, &v, &Val::C(mask(w) as u64))?
                        }
                        _ => return Err(Stop::Error(format!("atomicrmw {}", op))),
                    };
                    self.store(*ty, &a, &new, 1)?;
                    self.set(*d, old);
                }
                I::CmpXchg { d, ty, p, cmp, new } => {
                    let a = self.get(p);
                    let old = self.load(*ty, &a, 1)?;
                    let w = self.m.bitw(*ty);
                    let c = self.get(cmp);
                    let e = self.icmp(Pred::Eq, w, &old, &c)?;
                    let ok = self.cond(&e)?;
                    if ok {
                        let n = self.get(new);
                        self.store(*ty, &a, &n, 1)?;
                    }
                    self.set(*d, Val::A(Rc::new(vec![old, Val::C(ok as u64)])));
                }
                I::Freeze { d, a } => {
                    let v = match self.get(a) {
                        Val::U => Val::C(0),
                        v => v,
                    };
                    self.set(*d, v);
                }
                I::Fp { op, from, to, d, a, b } => {
                    // floating-point numbers are never symbolic: one path per value
                    let (fw, tw) = (self.m.bitw(*from), self.m.bitw(*to));
                    if self.lanes(*from).is_some() {
                        return Err(Stop::Error("floating-point vector".into()));
                    }
                    let x = self.get(a);
                    let x = self.fork_value(&x, fw)?;
                    let y = match b {
                        Some(b) => {
                            let y = self.get(b);
                            Some(self.fork_value(&y, fw)?)
                        }
                        None => None,
                    };
                    match fp_op(op, fw, tw, x, y) {
                        Some(v) => self.set(*d, c64(v, if y.is_some() && !op.starts_with('f') { 1 } else { tw })),
                        None => return Err(Stop::Error(format!("floating-point operation {} on {} bits", op, fw))),
                    }
                }
                I::Nop => {}
                I::Neg => {}
                I::Unsupported(s) => return Err(Stop::Error(format!("unsupported instruction: {}", s))),
            }
        }
    }
    fn insert(&self, ty: Ty, agg: Val, v: Val, path: &[u32]) -> Val {
        if path.is_empty() {
            return v;
        }
        let n = match self.m.t(ty) {
            T::Struct(es, _) => es.len(),
            T::Array(n, _) => *n as usize,
            _ => 0,
        };
        let et = self.m.field_off(ty, path[0] as usize).1;
        let mut r: Vec<Val> = match agg {
            Val::A(x) => (*x).clone(),
            _ => vec![Val::U; n],
        };
        let old = r[path[0] as usize].clone();
        r[path[0] as usize] = self.insert(et, old, v, &path[1..]);
        Val::A(Rc::new(r))
    }

    fn str_at(&mut self, p: &Val, n: &Val) -> RR<String> {
        let a = self.fork_value(p, 64)? as u64;
        let n = self.fork_value(n, 64)? as u64;
        if n == 0 {
            return Ok(String::new());
        }
        let (r, off) = self.access(a, n, false)?;
        Ok(String::from_utf8_lossy(&self.mem.obj(r).data[off..off + n as usize]).into_owned())
    }

    fn ite_val(&mut self, c: E, a: E, b: E) -> Val {
        let r = self.p.ite(c, a, b);
        self.of_e(r)
    }

    fn intrinsic(&mut self, fi: usize, a: &[Val], tys: &[Ty], ret: Ty) -> RR<Val> {
        let k = self.kinds[fi];
        let w = tys.first().map(|&t| self.m.bitw(t)).unwrap_or(0);
        let two = |s: &mut Self| -> RR<(E, E)> { Ok((s.to_e(&a[0], w)?, s.to_e(&a[1], w)?)) };
        Ok(match k {
            FK::Body => unreachable!(),
            FK::Nop | FK::Print => Val::U,
            FK::Memcpy => {
                self.memcpy(&a[0], &a[1], &a[2])?;
                a[0].clone()
            }
            FK::Memset => {
                let n = self.fork_value(&a[2], 64)? as u64;
                if n > 0 {
                    let d = self.fork_value(&a[0], 64)? as u64;
                    let (r, off) = self.access(d, n, true)?;
                    let byte = self.trunc_val(a[1].clone(), self.m.bitw(tys[1]), 8)?;
                    match byte {
                        Val::S(_) => {
                            for i in 0..n as usize {
                                self.write_bytes_val(r, off + i, 1, &byte)?;
                            }
                        }
                        v => {
                            let b = Self::conc(&v).unwrap_or(0) as u8;
                            let o = self.mem.obj_mut(r);
                            o.data[off..off + n as usize].fill(b);
                            if !o.sym.is_empty() {
                                o.sym[off..off + n as usize].fill(0);
                            }
                        }
                    }
                }
                a[0].clone()
            }
            FK::UMin | FK::UMax | FK::SMin | FK::SMax => {
                let (x, y) = two(self)?;
                let op = if matches!(k, FK::UMin | FK::UMax) { Op::Ult } else { Op::Slt };
                let c = self.p.bin(op, x, y);
                if matches!(k, FK::UMin | FK::SMin) {
                    self.ite_val(c, x, y)
                } else {
                    self.ite_val(c, y, x)
                }
            }
            FK::AddOv(s) | FK::SubOv(s) | FK::MulOv(s) => {
                let (x, y) = two(self)?;
                let op = match k {
                    FK::AddOv(_) => Op::Add,
                    FK::SubOv(_) => Op::Sub,
                    _ => Op::Mul,
                };
                let r = self.p.bin(op, x, y);
                let ov = if !s {
                    match op {
                        Op::Add => self.p.bin(Op::Ult, r, x),
                        Op::Sub => self.p.bin(Op::Ult, x, y),
                        _ => {
                            if w > 64 {
                                return Err(Stop::Error("wide mul overflow".into()));
                            }
                            let x2 = self.p.zext(x, 2 * w);
                            let y2 = self.p.zext(y, 2 * w);
                            let m = self.p.bin(Op::Mul, x2, y2);
                            let h = self.p.extract(m, w, w);
                            let z = self.p.con(w, 0);
                            let e = self.p.bin(Op::Eq, h, z);
                            self.p.not(e)
                        }
                    }
                } else {
                    if w > 64 {
                        return Err(Stop::Error("wide signed overflow".into()));
                    }
                    let x2 = self.p.sext(x, 2 * w);
                    let y2 = self.p.sext(y, 2 * w);
                    let m = self.p.bin(op, x2, y2);
                    let rs = self.p.sext(r, 2 * w);
                    let e = self.p.bin(Op::Eq, m, rs);
                    self.p.not(e)
                };
                Val::A(Rc::new(vec![self.of_e(r), self.of_e(ov)]))
            }
            FK::UAddSat | FK::USubSat => {
                let (x, y) = two(self)?;
                if k == FK::UAddSat {
                    let r = self.p.bin(Op::Add, x, y);
                    let ov = self.p.bin(Op::Ult, r, x);
                    let m = self.p.con(w, mask(w));
                    self.ite_val(ov, m, r)
                } else {
                    let r = self.p.bin(Op::Sub, x, y);
                    let ov = self.p.bin(Op::Ult, x, y);
                    let m = self.p.con(w, 0);
                    self.ite_val(ov, m, r)
                }
            }
            FK::SAddSat | FK::SSubSat => {
                let (x, y) = two(self)?;
                let (x1, y1) = (self.p.sext(x, w + 1), self.p.sext(y, w + 1));
                let r = self.p.bin(if k == FK::SAddSat { Op::Add } else { Op::Sub }, x1, y1);
                let max = self.p.con(w + 1, mask(w - 1));
                let min = self.p.con(w + 1, !mask(w - 1));
                let over = self.p.bin(Op::Slt, max, r);
                let under = self.p.bin(Op::Slt, r, min);
                let c = self.p.ite(under, min, r);
                let c = self.p.ite(over, max, c);
                let v = self.p.extract(c, 0, w);
                self.of_e(v)
            }
            FK::Ctlz | FK::Cttz => {
                let x = self.to_e(&a[0], w)?;
                let acc = if w.is_power_of_two() {
                    // by halves
                    let (mut x, mut h) = (x, w);
                    let mut parts: Vec<E> = Vec::new();
                    while h > 1 {
                        h /= 2;
                        let (hi, lo) = (self.p.extract(x, h, h), self.p.extract(x, 0, h));
                        let (first, then) = if k == FK::Ctlz { (hi, lo) } else { (lo, hi) };
                        let zero = self.p.con(h, 0);
                        let none = self.p.bin(Op::Eq, first, zero);
                        x = self.p.ite(none, then, first);
                        let (some, nothing) = (self.p.con(1, 1), self.p.con(1, 0));
                        parts.push(self.p.ite(none, some, nothing));
                    }
                    // what is left is one bit: the count is `parts` from the highest bit, one more if it is not set
                    let mut bits: Option<E> = None;
                    for p in parts {
                        bits = Some(match bits {
                            None => p,
                            Some(b) => self.p.concat(b, p),
                        });
                    }
                    let n = match bits {
                        Some(b) => self.p.zext(b, w),
                        None => self.p.con(w, 0),
                    };
                    let all = self.p.con(w, w as u128);
                    self.p.ite(x, n, all)
                } else {
                    let mut acc = self.p.con(w, w as u128);
                    for i in 0..w {
                        // ctlz: ascending bit index, higher bits override
                        let bit = if k == FK::Ctlz { i } else { w - 1 - i };
                        let c = self.p.extract(x, bit, 1);
                        let v = if k == FK::Ctlz { w - 1 - bit } else { bit };
                        let vk = self.p.con(w, v as u128);
                        acc = self.p.ite(c, vk, acc);
                    }
                    acc
                };
                self.of_e(acc)
            }
            FK::Ctpop => {
                let x = self.to_e(&a[0], w)?;
                let mut acc = self.p.con(w, 0);
                for i in 0..w {
                    let c = self.p.extract(x, i, 1);
                    let z = self.p.zext(c, w);
                    acc = self.p.bin(Op::Add, acc, z);
                }
                self.of_e(acc)
            }
            FK::Bswap | FK::Bitrev => {
                let x = self.to_e(&a[0], w)?;
                let u = if k == FK::Bswap { 8 } else { 1 };
                let mut acc: Option<E> = None;
                for i in 0..w / u {
                    let b = self.p.extract(x, i * u, u);
                    acc = Some(match acc {
                        None => b,
                        Some(h) => self.p.concat(h, b),
                    });
                }
                self.of_e(acc.unwrap())
            }
            FK::Fshl | FK::Fshr => {
                let x = self.to_e(&a[0], w)?;
                let y = self.to_e(&a[1], w)?;
                let s = self.to_e(&a[2], w)?;
                let wk = self.p.con(w, w as u128);
                let s = self.p.bin(Op::URem, s, wk);
                let inv = self.p.bin(Op::Sub, wk, s);
                let (h, l) = if k == FK::Fshl {
                    (self.p.bin(Op::Shl, x, s), self.p.bin(Op::LShr, y, inv))
                } else {
                    (self.p.bin(Op::Shl, x, inv), self.p.bin(Op::LShr, y, s))
                };
                let r = self.p.bin(Op::Or, h, l);
                self.of_e(r)
            }
            FK::UCmp | FK::SCmp => {
                let (x, y) = two(self)?;
                let rw = self.m.bitw(ret);
                let op = if k == FK::UCmp { Op::Ult } else { Op::Slt };
                let lt = self.p.bin(op, x, y);
                let eq = self.p.bin(Op::Eq, x, y);
                let (m1, z, o) = (self.p.con(rw, mask(rw)), self.p.con(rw, 0), self.p.con(rw, 1));
                let i = self.p.ite(eq, z, o);
                self.ite_val(lt, m1, i)
            }
            FK::Abs => {
                let x = self.to_e(&a[0], w)?;
                let z = self.p.con(w, 0);
                let n = self.p.bin(Op::Sub, z, x);
                let c = self.p.bin(Op::Slt, x, z);
                self.ite_val(c, n, x)
            }
            FK::IsConst => Val::C(0),
            FK::TlsAddr | FK::Expect => a[0].clone(),
            FK::Trap => return self.viol("process aborts".into()),
            FK::Alloc | FK::AllocZeroed => {
                let n = self.fork_value(&a[0], 64)? as u64;
                let al = self.fork_value(&a[1], 64)? as u64;
                self.heap_alloc(n, al)?
            }
            FK::Malloc => {
                let n = self.fork_value(&a[0], 64)? as u64;
                self.heap_alloc(n, 16)?
            }
            FK::Calloc => {
                let n = self.fork_value(&a[0], 64)? as u64;
                let m = self.fork_value(&a[1], 64)? as u64;
                self.heap_alloc(n * m, 16)?
            }
            FK::Dealloc => {
                let p = self.fork_value(&a[0], 64)? as u64;
                let n = self.fork_value(&a[1], 64)? as u64;
                if let Some(r) = self.mem.find(p) {
                    let o = self.mem.obj(r);
                    if !o.freed && o.base == p && o.size != n {
                        return self.viol("deallocation with the wrong size".into());
                    }
                }
                self.heap_free(p)?;
                Val::U
            }
            FK::Free => {
                let p = self.fork_value(&a[0], 64)? as u64;
                if p != 0 {
                    self.heap_free(p)?;
                }
                Val::U
            }
            FK::Realloc | FK::CRealloc => {
                let p = self.fork_value(&a[0], 64)? as u64;
                let (al, n) = if k == FK::Realloc {
                    (self.fork_value(&a[2], 64)? as u64, self.fork_value(&a[3], 64)? as u64)
                } else {
                    (16, self.fork_value(&a[1], 64)? as u64)
                };
                let new = self.heap_alloc(n, al)?;
                if p != 0 {
                    let (r, off) = self.access(p, 0, false)?;
                    let old = self.mem.obj(r).size;
                    if off != 0 {
                        return self.viol("realloc of an invalid pointer".into());
                    }
                    self.memcpy(&new, &Val::C(p), &Val::C(old.min(n)))?;
                    self.heap_free(p)?;
                }
                new
            }
            FK::Memcmp => {
                let n = self.fork_value(&a[2], 64)? as u64;
                if n == 0 {
                    return Ok(Val::C(0));
                }
                let x = self.fork_value(&a[0], 64)? as u64;
                let y = self.fork_value(&a[1], 64)? as u64;
                let (xr, xo) = self.access(x, n, false)?;
                let (yr, yo) = self.access(y, n, false)?;
                let mut acc = self.p.con(32, 0);
                for i in (0..n as usize).rev() {
                    let u = self.read_bytes_val(xr, xo + i, 1)?;
                    let v = self.read_bytes_val(yr, yo + i, 1)?;
                    let ue = self.to_e(&u, 8)?;
                    let ve = self.to_e(&v, 8)?;
                    let eq = self.p.bin(Op::Eq, ue, ve);
                    let u32_ = self.p.zext(ue, 32);
                    let v32 = self.p.zext(ve, 32);
                    let d = self.p.bin(Op::Sub, u32_, v32);
                    acc = self.p.ite(eq, acc, d);
                }
                self.of_e(acc)
            }
            FK::Strlen => {
                let x = self.fork_value(&a[0], 64)? as u64;
                let mut n = 0;
                loop {
                    let (r, o) = self.access(x + n, 1, false)?;
                    let v = self.read_bytes_val(r, o, 1)?;
                    if self.fork_value(&v, 8)? == 0 {
                        break;
                    }
                    n += 1;
                }
                Val::C(n)
            }
            FK::Panic => {
                if self.expect_panic {
                    return Err(Stop::PanicOk);
                }
                let caller = self.frames.last().map(|f| self.m.funcs[f.f].name.clone()).unwrap_or_default();
                return self.viol(format!("panic in {}", caller));
            }
            FK::VsSym(w) => {
                let e = self.new_var(w, mask(w));
                Val::S(e)
            }
            FK::VsRange => {
                // (lo, hi) inclusive, both concrete
                let lo = Self::conc(&a[0]).ok_or(Stop::Error("vs_range bounds".into()))?;
                let hi = Self::conc(&a[1]).ok_or(Stop::Error("vs_range bounds".into()))?;
                if hi < lo {
                    return Err(Stop::Error("vs_range empty".into()));
                }
                if hi == lo {
                    // still an input, so that native replay consumes one value
                    let e = self.new_var(1, 0);
                    let z = self.p.con(1, 0);
                    let c = self.raw_eq(e, z);
                    self.z.assert(c);
                    return Ok(Val::C(lo as u64));
                }
                let d = hi - lo;
                let w = (128 - d.leading_zeros()) as u16;
                let e = self.new_var(w, d);
                let z = self.p.zext(e, 64);
                let l = self.p.con(64, lo);
                let r = self.p.bin(Op::Add, z, l);
                self.of_e(r)
            }
            FK::VsAssume => {
                match &a[0] {
                    Val::C(x) => {
                        if *x == 0 {
                            return Err(Stop::Assume);
                        }
                    }
                    Val::S(e) => {
                        let e = *e;
                        if self.p.eval(e, &self.model) == 1 {
                            self.assume_e(e, true);
                        } else {
                            let (r, m) = self.query(e);
                            match r {
                                Res::Sat => {
                                    self.model = m;
                                    self.assume_e(e, true);
                                }
                                Res::Unsat => return Err(Stop::Assume),
                                Res::Unknown => return Err(Stop::Incomplete("solver resource limit".into())),
                            }
                        }
                    }
                    _ => return self.viol("undefined assumption".into()),
                }
                Val::U
            }
            FK::VsAssert => {
                // (cond, msg, len)
                match &a[0] {
                    Val::C(x) => {
                        Shared::add(&self.sh.asserts_concrete, 1);
                        if *x & 1 == 0 {
                            let s = self.str_at(&a[1], &a[2])?;
                            return self.viol(format!("assertion: {}", s));
                        }
                    }
                    Val::S(e) => {
                        let e = *e;
                        Shared::add(&self.sh.asserts_solver, 1);
                        let e1 = if self.p.w(e) > 1 { self.p.extract(e, 0, 1) } else { e };
                        let n = self.p.not(e1);
                        if self.p.kc(n) != Some(0) {
                            let (r, m) = self.query(n);
                            match r {
                                Res::Unsat => {}
                                Res::Unknown => return Err(Stop::Incomplete("solver resource limit".into())),
                                Res::Sat => {
                                    self.model = m;
                                    self.z.assert(n);
                                    let s = self.str_at(&a[1], &a[2])?;
                                    return self.viol(format!("assertion: {}", s));
                                }
                            }
                        }
                    }
                    _ => return self.viol("assertion on an undefined value".into()),
                }
                Val::U
            }
            FK::VsCover => {
                let key = Self::conc(&a[0]).unwrap_or(0) as u64;
                if !self.cover_map.contains_key(&key) {
                    let s = self.str_at(&a[0], &a[1])?;
                    self.cover_map.insert(key, 1);
                    // identify by name through a side file; O_APPEND keeps lines whole
                    let line = format!("{{\"h\":\"{}\",\"kind\":\"cover\",\"msg\":\"{}\"}}\n", self.harness, s);
                    if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(format!("{}.cover", self.cfg.out)) {
                        let _ = f.write_all(line.as_bytes());
                    }
                }
                Val::U
            }
            FK::VsOut => {
                self.outs.push(a[0].clone());
                Val::U
            }
            FK::VsMode => {
                self.ite_mode = Self::conc(&a[0]) == Some(1);
                Val::U
            }
            FK::VsFork => {
                let v = self.fork_value(&a[0], w)?;
                c64(v, w)
            }
            FK::VsExpectPanic => {
                self.expect_panic = Self::conc(&a[0]) == Some(1);
                Val::U
            }
            FK::ErrnoLoc => Val::C(self.mem.alloc_heap(4, 4)),
            FK::Ret0 => Val::C(0),
            FK::LoadRelative => {
                let p = self.fork_value(&a[0], 64)? as u64;
                let o = self.fork_value(&a[1], 64)? as u64;
                let i32t = self.m.intern(T::Int(32));
                let v = self.load_at(i32t, p.wrapping_add(o))?;
                let d = self.fork_value(&v, 32)?;
                Val::C(p.wrapping_add(sext(d, 32) as u64))
            }
            FK::Fp(name) => {
                let x = self.fork_value(&a[0], w)?;
                let y = if a.len() > 1 && matches!(self.m.t(tys[1]), T::Float(_)) { Some(self.fork_value(&a[1], w)?) } else { None };
                let tw = self.m.bitw(ret);
                match fp_op(name, w, tw, x, y) {
                    Some(v) => c64(v, tw),
                    None => return Err(Stop::Error(format!("floating-point function {} on {} bits", name, w))),
                }
            }
            FK::Syscall => {
                // getrandom: what seeds std's hash tables. Any bytes will do; these are the same on every path.
                let name = self.m.funcs[fi].name.clone();
                let (p, n) = if name == "getrandom" {
                    (&a[0], &a[1])
                } else {
                    let nr = self.fork_value(&a[0], 64)? as u64;
                    if nr != 318 {
                        return Err(Stop::Error(format!("system call {}", nr)));
                    }
                    (&a[1], &a[2])
                };
                let n = self.fork_value(n, 64)? as u64;
                let p = self.fork_value(p, 64)? as u64;
                if n > 0 {
                    let (r, off) = self.access(p, n, true)?;
                    let o = self.mem.obj_mut(r);
                    for i in 0..n as usize {
                        o.data[off + i] = (i * 37 + 11) as u8;
                        if !o.sym.is_empty() {
                            o.sym[off + i] = 0;
                        }
                    }
                }
                Val::C(n)
            }
            FK::KeyCreate => {
                let p = self.fork_value(&a[0], 64)? as u64;
                let (r, off) = self.access(p, 4, true)?;
                self.write_bytes_val(r, off, 4, &Val::C(1))?;
                Val::C(0)
            }
            FK::VecReduce => return Err(Stop::Error(format!("unsupported {}", self.m.funcs[fi].name))),
            FK::Unknown => return Err(Stop::Error(format!("call to unmodelled function {}", self.m.funcs[fi].name))),
        })
    }
    fn raw_eq(&mut self, a: E, b: E) -> E {
        let w = self.p.w(a);
        let saved = self.p.hi[a as usize];
        self.p.hi[a as usize] = mask(w);
        let r = self.p.bin(Op::Eq, a, b);
        self.p.hi[a as usize] = saved;
        r
    }
}
