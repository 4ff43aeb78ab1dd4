//! Minimal FFI to libz3 and translation of `expr` nodes.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type Ctx = *mut c_void;
type Ast = *mut c_void;
type Sort = *mut c_void;
type Solver = *mut c_void;
type Model = *mut c_void;
type Params = *mut c_void;
type Sym = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> *mut c_void;
    fn Z3_set_param_value(c: *mut c_void, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: *mut c_void) -> Ctx;
    fn Z3_mk_solver_for_logic(c: Ctx, s: Sym) -> Solver;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> Sym;
    fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    fn Z3_solver_dec_ref(c: Ctx, s: Solver);
    fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    fn Z3_solver_push(c: Ctx, s: Solver);
    fn Z3_solver_pop(c: Ctx, s: Solver, n: c_uint);
    fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: Solver) -> Model;
    fn Z3_solver_to_string(c: Ctx, s: Solver) -> *const c_char;
    fn Z3_solver_set_params(c: Ctx, s: Solver, p: Params);
    fn Z3_mk_params(c: Ctx) -> Params;
    fn Z3_params_inc_ref(c: Ctx, p: Params);
    fn Z3_params_set_uint(c: Ctx, p: Params, k: Sym, v: c_uint);
    fn Z3_model_inc_ref(c: Ctx, m: Model);
    fn Z3_model_dec_ref(c: Ctx, m: Model);
    fn Z3_model_eval(c: Ctx, m: Model, a: Ast, compl: bool, out: *mut Ast) -> bool;
    fn Z3_get_numeral_string(c: Ctx, a: Ast) -> *const c_char;
    fn Z3_get_numeral_uint64(c: Ctx, a: Ast, v: *mut u64) -> bool;
    fn Z3_mk_bv_sort(c: Ctx, w: c_uint) -> Sort;
    fn Z3_mk_const(c: Ctx, s: Sym, t: Sort) -> Ast;
    fn Z3_mk_int_symbol(c: Ctx, i: c_int) -> Sym;
    fn Z3_mk_numeral(c: Ctx, s: *const c_char, t: Sort) -> Ast;
    fn Z3_mk_unsigned_int64(c: Ctx, v: u64, t: Sort) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, i: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_int)>);
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_error(_c: Ctx, e: c_int) {
    eprintln!("z3 error code {}", e);
    std::process::exit(86);
}

/// How much the incremental solver may spend on a query before it is put to a fresh one.
const QUICK: u32 = 1_000_000;

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Item {
    Assert(E),
    Mark,
}

pub struct Z3 {
    c: Ctx,
    s: Solver,
    rlimit: u32,
    /// the path condition, with a mark where each open alternative begins
    items: Vec<Item>,
    /// how many of `items` the solver has
    sent: usize,
    depth: usize,
    bv: FxMap<E, usize>,
    bo: FxMap<E, usize>,
    vars: FxMap<(u16, usize), usize>,
}

impl Z3 {
    pub fn new(rlimit: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let s = Self::solver(c, rlimit.min(QUICK));
            Z3 { c, s, rlimit, items: vec![], sent: 0, depth: 0, bv: Default::default(), bo: Default::default(), vars: Default::default() }
        }
    }
    fn solver(c: Ctx, rlimit: u32) -> Solver {
        unsafe {
            let l = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let r = CString::new("rlimit").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, r.as_ptr()), rlimit);
            Z3_solver_set_params(c, s, p);
            s
        }
    }
    /// Brings the solver up to date with the path condition.
    fn sync(&mut self, p: &Pool) {
        while self.sent < self.items.len() {
            match self.items[self.sent] {
                Item::Assert(e) => {
                    let a = self.to_bool(p, e);
                    unsafe { Z3_solver_assert(self.c, self.s, a) }
                }
                Item::Mark => unsafe { Z3_solver_push(self.c, self.s) },
            }
            self.sent += 1;
        }
    }
    /// Opens an alternative; what is asserted from here on goes with `back_to`.
    pub fn mark(&mut self) -> usize {
        self.items.push(Item::Mark);
        self.depth += 1;
        self.depth - 1
    }
    pub fn back_to(&mut self, depth: usize) {
        let mut n = 0;
        while self.depth > depth {
            let i = self.items.len() - 1;
            if self.items[i] == Item::Mark {
                self.depth -= 1;
                if i < self.sent {
                    n += 1;
                }
            }
            self.items.pop();
        }
        self.sent = self.sent.min(self.items.len());
        if n > 0 {
            unsafe { Z3_solver_pop(self.c, self.s, n) }
        }
    }
    fn con(&self, w: u16, k: u128) -> Ast {
        unsafe {
            let t = Z3_mk_bv_sort(self.c, w as c_uint);
            if k <= u64::MAX as u128 {
                Z3_mk_unsigned_int64(self.c, k as u64, t)
            } else {
                let s = CString::new(k.to_string()).unwrap();
                Z3_mk_numeral(self.c, s.as_ptr(), t)
            }
        }
    }
    fn var(&mut self, w: u16, idx: usize) -> Ast {
        if let Some(&v) = self.vars.get(&(w, idx)) {
            return v as Ast;
        }
        // one name per width: paths may differ in what they take as their n-th input
        let v = unsafe {
            let t = Z3_mk_bv_sort(self.c, w as c_uint);
            Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, (idx * 256 + w as usize) as c_int), t)
        };
        self.vars.insert((w, idx), v as usize);
        v
    }
    pub fn to_bv(&mut self, p: &Pool, e: E) -> Ast {
        if let Some(&a) = self.bv.get(&e) {
            return a as Ast;
        }
        let n = p.node(e);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => self.con(n.w, n.k),
                Op::Var => self.var(n.w, n.k as usize),
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let b = self.to_bool(p, e);
                    Z3_mk_ite(c, b, self.con(1, 1), self.con(1, 0))
                }
                Op::Ite => {
                    let i = self.to_bool(p, n.a);
                    let a = self.to_bv(p, n.b);
                    let b = self.to_bv(p, n.c);
                    Z3_mk_ite(c, i, a, b)
                }
                Op::Zext => {
                    let a = self.to_bv(p, n.a);
                    Z3_mk_zero_ext(c, (n.w - p.w(n.a)) as c_uint, a)
                }
                Op::Sext => {
                    let a = self.to_bv(p, n.a);
                    Z3_mk_sign_ext(c, (n.w - p.w(n.a)) as c_uint, a)
                }
                Op::Extract => {
                    let a = self.to_bv(p, n.a);
                    Z3_mk_extract(c, (n.k as u16 + n.w - 1) as c_uint, n.k as c_uint, a)
                }
                _ => {
                    let a = self.to_bv(p, n.a);
                    let b = self.to_bv(p, n.b);
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Concat => Z3_mk_concat(c, a, b),
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.bv.insert(e, r as usize);
        r
    }
    pub fn to_bool(&mut self, p: &Pool, e: E) -> Ast {
        if let Some(&a) = self.bo.get(&e) {
            return a as Ast;
        }
        let n = p.node(e);
        debug_assert_eq!(n.w, 1);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.k == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Eq if p.w(n.a) == 1 => {
                    let a = self.to_bool(p, n.a);
                    let b = self.to_bool(p, n.b);
                    Z3_mk_eq(c, a, b)
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let a = self.to_bv(p, n.a);
                    let b = self.to_bv(p, n.b);
                    match n.op {
                        Op::Eq => Z3_mk_eq(c, a, b),
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b),
                        _ => Z3_mk_bvsle(c, a, b),
                    }
                }
                Op::And | Op::Or => {
                    let a = self.to_bool(p, n.a);
                    let b = self.to_bool(p, n.b);
                    let v = [a, b];
                    if n.op == Op::And {
                        Z3_mk_and(c, 2, v.as_ptr())
                    } else {
                        Z3_mk_or(c, 2, v.as_ptr())
                    }
                }
                Op::Xor => {
                    let a = self.to_bool(p, n.a);
                    if p.kc(n.b) == Some(1) {
                        Z3_mk_not(c, a)
                    } else {
                        let b = self.to_bool(p, n.b);
                        Z3_mk_xor(c, a, b)
                    }
                }
                Op::Ite => {
                    let i = self.to_bool(p, n.a);
                    let a = self.to_bool(p, n.b);
                    let b = self.to_bool(p, n.c);
                    Z3_mk_ite(c, i, a, b)
                }
                _ => {
                    let a = self.to_bv(p, e);
                    Z3_mk_eq(c, a, self.con(1, 1))
                }
            }
        };
        self.bo.insert(e, r as usize);
        r
    }
    pub fn assert(&mut self, e: E) {
        self.items.push(Item::Assert(e));
    }
    /// Is `path && e` satisfiable? On Sat, returns values of the first `nv` variables.
    pub fn check(&mut self, p: &Pool, e: E, widths: &[u16]) -> (Res, Vec<u128>) {
        self.sync(p);
        let a = self.to_bool(p, e);
        unsafe {
            Z3_solver_push(self.c, self.s);
            Z3_solver_assert(self.c, self.s, a);
            let r = self.result(self.s, widths);
            Z3_solver_pop(self.c, self.s, 1);
            r
        }
    }
    /// The same, by a solver that starts from nothing, and so can preprocess it all, with the whole limit.
    pub fn check_alone(&mut self, p: &Pool, e: E, widths: &[u16]) -> (Res, Vec<u128>) {
        let s = Self::solver(self.c, self.rlimit);
        let mut all = vec![];
        for i in 0..self.items.len() {
            if let Item::Assert(x) = self.items[i] {
                all.push(self.to_bool(p, x));
            }
        }
        let e = self.to_bool(p, e);
        unsafe {
            for a in all {
                Z3_solver_assert(self.c, s, a);
            }
            Z3_solver_assert(self.c, s, e);
            let r = self.result(s, widths);
            Z3_solver_dec_ref(self.c, s);
            r
        }
    }
    unsafe fn result(&mut self, s: Solver, widths: &[u16]) -> (Res, Vec<u128>) {
        let r = Z3_solver_check(self.c, s);
        let mut out = vec![];
        let res = match r {
            1 => {
                let m = Z3_solver_get_model(self.c, s);
                Z3_model_inc_ref(self.c, m);
                for (i, &w) in widths.iter().enumerate() {
                    let v = self.var(w, i);
                    let mut o: Ast = std::ptr::null_mut();
                    Z3_model_eval(self.c, m, v, true, &mut o);
                    let mut x = 0u64;
                    if Z3_get_numeral_uint64(self.c, o, &mut x) {
                        out.push(x as u128);
                    } else {
                        let s = CStr::from_ptr(Z3_get_numeral_string(self.c, o));
                        out.push(s.to_str().unwrap().parse().unwrap());
                    }
                }
                Z3_model_dec_ref(self.c, m);
                Res::Sat
            }
            -1 => Res::Unsat,
            _ => Res::Unknown,
        };
        (res, out)
    }
    /// SMT-LIB dump of `path && e`.
    pub fn dump(&mut self, p: &Pool, e: E) -> String {
        self.sync(p);
        let a = self.to_bool(p, e);
        unsafe {
            Z3_solver_push(self.c, self.s);
            Z3_solver_assert(self.c, self.s, a);
            let s = CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned();
            Z3_solver_pop(self.c, self.s, 1);
            s
        }
    }
}
