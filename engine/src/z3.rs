//! Minimal binding to libz3 (C API), one context per worker.
use crate::expr::*;
use crate::ir::BinOp;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};

type P = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_config(c: P);
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, complete: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
}

extern "C" fn on_err(_: P, _: c_int) {}

pub struct Z3 {
    c: P,
    s: P,
    asts: Vec<P>,
    one: P,
    pub queries: u64,
    pub time: std::time::Duration,
    pub max: std::time::Duration,
}

pub enum Ans {
    Sat(Vec<(u32, u64)>),
    Unsat,
    Unknown,
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            let one = num(c, 1, 1);
            Z3 { c, s, asts: vec![], one, queries: 0, time: Default::default(), max: Default::default() }
        }
    }
    fn bv(&mut self, ar: &Arena, e: E) -> P {
        if self.asts.len() < ar.nodes.len() {
            self.asts.resize(ar.nodes.len(), std::ptr::null_mut());
        }
        let p = self.asts[e as usize];
        if !p.is_null() {
            return p;
        }
        let (n, w) = ar.nodes[e as usize];
        let c = self.c;
        let r = unsafe {
            match n {
                Node::Const(k) => num(c, k, w),
                Node::Var(k) => Z3_mk_const(c, Z3_mk_int_symbol(c, k as c_int), Z3_mk_bv_sort(c, w)),
                Node::Bin(op, a, b) => {
                    let (a, b) = (self.bv(ar, a), self.bv(ar, b));
                    match op {
                        BinOp::Add => Z3_mk_bvadd(c, a, b),
                        BinOp::Sub => Z3_mk_bvsub(c, a, b),
                        BinOp::Mul => Z3_mk_bvmul(c, a, b),
                        BinOp::UDiv => Z3_mk_bvudiv(c, a, b),
                        BinOp::SDiv => Z3_mk_bvsdiv(c, a, b),
                        BinOp::URem => Z3_mk_bvurem(c, a, b),
                        BinOp::SRem => Z3_mk_bvsrem(c, a, b),
                        BinOp::And => Z3_mk_bvand(c, a, b),
                        BinOp::Or => Z3_mk_bvor(c, a, b),
                        BinOp::Xor => Z3_mk_bvxor(c, a, b),
                        BinOp::Shl => Z3_mk_bvshl(c, a, b),
                        BinOp::LShr => Z3_mk_bvlshr(c, a, b),
                        BinOp::AShr => Z3_mk_bvashr(c, a, b),
                    }
                }
                Node::Cmp(k, a, b) => {
                    let (a, b) = (self.bv(ar, a), self.bv(ar, b));
                    let p = match k {
                        CmpK::Eq => Z3_mk_eq(c, a, b),
                        CmpK::Ult => Z3_mk_bvult(c, a, b),
                        CmpK::Ule => Z3_mk_bvule(c, a, b),
                        CmpK::Slt => Z3_mk_bvslt(c, a, b),
                        CmpK::Sle => Z3_mk_bvsle(c, a, b),
                    };
                    Z3_mk_ite(c, p, self.one, num(c, 0, 1))
                }
                Node::Not(a) => {
                    let a = self.bv(ar, a);
                    Z3_mk_bvnot(c, a)
                }
                Node::Ite(d, a, b) => {
                    let (d, a, b) = (self.bv(ar, d), self.bv(ar, a), self.bv(ar, b));
                    Z3_mk_ite(c, Z3_mk_eq(c, d, self.one), a, b)
                }
                Node::Concat(a, b) => {
                    let (a, b) = (self.bv(ar, a), self.bv(ar, b));
                    Z3_mk_concat(c, a, b)
                }
                Node::Extract(a, lo) => {
                    let a = self.bv(ar, a);
                    Z3_mk_extract(c, lo + w - 1, lo, a)
                }
                Node::Zext(a) => {
                    let wa = ar.w(a);
                    let a = self.bv(ar, a);
                    Z3_mk_zero_ext(c, w - wa, a)
                }
                Node::Sext(a) => {
                    let wa = ar.w(a);
                    let a = self.bv(ar, a);
                    Z3_mk_sign_ext(c, w - wa, a)
                }
            }
        };
        self.asts[e as usize] = r;
        r
    }
    /// Satisfiability of the conjunction of width-1 expressions; values of all tape variables occurring.
    pub fn check(&mut self, ar: &Arena, cs: &[E], want: bool) -> Ans {
        let t0 = std::time::Instant::now();
        self.queries += 1;
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            for e in cs {
                let a = self.bv(ar, *e);
                let eq = Z3_mk_eq(self.c, a, self.one);
                Z3_solver_assert(self.c, self.s, eq);
            }
            let r = Z3_solver_check(self.c, self.s);
            let mut out = vec![];
            let mut bad = Z3_get_error_code(self.c) != 0;
            if r == 1 && want {
                let m = Z3_solver_get_model(self.c, self.s);
                Z3_model_inc_ref(self.c, m);
                let mut vs = vec![];
                let mut seen = Default::default();
                for e in cs {
                    ar.var_list(*e, &mut vs, &mut seen);
                }
                for (k, e) in vs {
                    if k >= UNINIT_BASE {
                        continue;
                    }
                    let a = self.bv(ar, e);
                    let mut o: P = std::ptr::null_mut();
                    if !Z3_model_eval(self.c, m, a, true, &mut o) {
                        bad = true;
                        continue;
                    }
                    let s = std::ffi::CStr::from_ptr(Z3_get_numeral_string(self.c, o)).to_str().unwrap();
                    match s.parse::<u64>() {
                        Ok(v) => out.push((k, v)),
                        Err(_) => bad = true,
                    }
                }
                Z3_model_dec_ref(self.c, m);
            }
            Z3_solver_pop(self.c, self.s, 1);
            if bad {
                Ans::Unknown
            } else {
                match r {
                    1 => Ans::Sat(out),
                    -1 => Ans::Unsat,
                    _ => Ans::Unknown,
                }
            }
        };
        let d = t0.elapsed();
        self.time += d;
        if d > self.max {
            self.max = d
        }
        r
    }
}
fn num(c: P, v: u128, w: u32) -> P {
    let s = CString::new(v.to_string()).unwrap();
    unsafe { Z3_mk_numeral(c, s.as_ptr(), Z3_mk_bv_sort(c, w)) }
}
impl Drop for Z3 {
    fn drop(&mut self) {
        unsafe { Z3_del_context(self.c) }
    }
}
