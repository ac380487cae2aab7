//! Thin wrapper over libz3 (QF_BV). Every verdict used for an assertion comes from here.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
}

#[derive(Clone, Debug)]
pub enum Verdict {
    Sat(Vec<(u32, u8)>),
    Unsat,
    Unknown,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub cached: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time_s: f64,
    pub max_s: f64,
}

pub struct Solver {
    c: P,
    bools: HashMap<E, P, Fx>,
    bvs: HashMap<E, P, Fx>,
    cache: HashMap<Vec<E>, Verdict>,
    pub st: Stats,
    pub rlimit: u32,
    pub dump: Option<String>,
}

impl Solver {
    pub fn new() -> Solver {
        Solver {
            c: std::ptr::null_mut(),
            bools: HashMap::with_hasher(Fx),
            bvs: HashMap::with_hasher(Fx),
            cache: HashMap::new(),
            st: Stats::default(),
            rlimit: 0,
            dump: None,
        }
    }
    fn init(&mut self) {
        if self.c.is_null() {
            unsafe {
                let cfg = Z3_mk_config();
                self.c = Z3_mk_context(cfg);
            }
        }
    }
    fn num(&mut self, v: u128, w: u32) -> P {
        unsafe {
            if w <= 64 {
                let s = Z3_mk_bv_sort(self.c, w);
                Z3_mk_unsigned_int64(self.c, v as u64, s)
            } else {
                let hs = Z3_mk_bv_sort(self.c, w - 64);
                let ls = Z3_mk_bv_sort(self.c, 64);
                let h = Z3_mk_unsigned_int64(self.c, (v >> 64) as u64, hs);
                let l = Z3_mk_unsigned_int64(self.c, v as u64, ls);
                Z3_mk_concat(self.c, h, l)
            }
        }
    }
    fn b(&mut self, x: &Ctx, e: E) -> P {
        if let Some(&p) = self.bools.get(&e) {
            return p;
        }
        let n = x.n(e);
        debug_assert_eq!(n.w, 1);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.val == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::And => {
                    let a = [self.b(x, n.a), self.b(x, n.b)];
                    Z3_mk_and(c, 2, a.as_ptr())
                }
                Op::Or => {
                    let a = [self.b(x, n.a), self.b(x, n.b)];
                    Z3_mk_or(c, 2, a.as_ptr())
                }
                Op::Xor => {
                    let a = self.b(x, n.a);
                    if x.cv(n.b) == Some(1) {
                        Z3_mk_not(c, a)
                    } else {
                        let b = self.b(x, n.b);
                        Z3_mk_xor(c, a, b)
                    }
                }
                Op::Eq => {
                    if x.w(n.a) == 1 {
                        let a = self.b(x, n.a);
                        let b = self.b(x, n.b);
                        Z3_mk_eq(c, a, b)
                    } else {
                        let a = self.v(x, n.a);
                        let b = self.v(x, n.b);
                        Z3_mk_eq(c, a, b)
                    }
                }
                Op::Ult => {
                    let a = self.v(x, n.a);
                    let b = self.v(x, n.b);
                    Z3_mk_bvult(c, a, b)
                }
                Op::Slt => {
                    let a = self.v(x, n.a);
                    let b = self.v(x, n.b);
                    Z3_mk_bvslt(c, a, b)
                }
                Op::Ite => {
                    let k = self.b(x, n.a);
                    let a = self.b(x, n.b);
                    let b = self.b(x, n.c);
                    Z3_mk_ite(c, k, a, b)
                }
                _ => {
                    let v = self.v(x, e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, v, one)
                }
            }
        };
        self.bools.insert(e, r);
        r
    }
    fn v(&mut self, x: &Ctx, e: E) -> P {
        if let Some(&p) = self.bvs.get(&e) {
            return p;
        }
        let n = x.n(e);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => self.num(n.val, n.w),
                Op::Var => {
                    let s = Z3_mk_int_symbol(c, n.val as c_int);
                    let t = Z3_mk_bv_sort(c, 8);
                    Z3_mk_const(c, s, t)
                }
                Op::Eq | Op::Ult | Op::Slt => {
                    let k = self.b(x, e);
                    let one = self.num(1, 1);
                    let zero = self.num(0, 1);
                    Z3_mk_ite(c, k, one, zero)
                }
                Op::Ite => {
                    let k = self.b(x, n.a);
                    let a = self.v(x, n.b);
                    let b = self.v(x, n.c);
                    Z3_mk_ite(c, k, a, b)
                }
                Op::ZExt => {
                    let a = self.v(x, n.a);
                    Z3_mk_zero_ext(c, n.w - x.w(n.a), a)
                }
                Op::SExt => {
                    let a = self.v(x, n.a);
                    Z3_mk_sign_ext(c, n.w - x.w(n.a), a)
                }
                Op::Extract => {
                    let a = self.v(x, n.a);
                    let l = n.val as u32;
                    Z3_mk_extract(c, l + n.w - 1, l, a)
                }
                _ => {
                    let a = self.v(x, n.a);
                    let b = self.v(x, n.b);
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Concat => Z3_mk_concat(c, a, b),
                        o => panic!("solver op {:?}", o),
                    }
                }
            }
        };
        self.bvs.insert(e, r);
        r
    }

    /// Satisfiability of the conjunction; a model assigns every variable that occurs.
    pub fn check(&mut self, cons: &[E]) -> Verdict {
        let mut key: Vec<E> = cons.to_vec();
        key.sort_unstable();
        key.dedup();
        if let Some(v) = self.cache.get(&key) {
            self.st.cached += 1;
            return v.clone();
        }
        self.init();
        let t0 = Instant::now();
        let v = ctx(|x| unsafe {
            let mut vars = std::collections::BTreeSet::new();
            for &e in &key {
                for &v in x.vars(e).iter() {
                    vars.insert(v);
                }
            }
            let logic = CString::new("QF_BV").unwrap();
            let ls = Z3_mk_string_symbol(self.c, logic.as_ptr());
            let s = Z3_mk_solver_for_logic(self.c, ls);
            Z3_solver_inc_ref(self.c, s);
            if self.rlimit > 0 {
                let p = Z3_mk_params(self.c);
                Z3_params_inc_ref(self.c, p);
                let k = CString::new("rlimit").unwrap();
                let ks = Z3_mk_string_symbol(self.c, k.as_ptr());
                Z3_params_set_uint(self.c, p, ks, self.rlimit);
                Z3_solver_set_params(self.c, s, p);
            }
            for &e in &key {
                let b = self.b(x, e);
                Z3_solver_assert(self.c, s, b);
            }
            if let Some(d) = &self.dump {
                let t = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, s));
                let _ = std::fs::write(format!("{}/q{}.smt2", d, self.st.queries), t.to_bytes());
            }
            let r = Z3_solver_check(self.c, s);
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(self.c, s);
                    Z3_model_inc_ref(self.c, m);
                    let mut mv = vec![];
                    for &v in &vars {
                        let sy = Z3_mk_int_symbol(self.c, v as c_int);
                        let t = Z3_mk_bv_sort(self.c, 8);
                        let k = Z3_mk_const(self.c, sy, t);
                        let mut o: P = std::ptr::null_mut();
                        Z3_model_eval(self.c, m, k, true, &mut o);
                        let mut u = 0u64;
                        Z3_get_numeral_uint64(self.c, o, &mut u);
                        mv.push((v, u as u8));
                    }
                    Z3_model_dec_ref(self.c, m);
                    Verdict::Sat(mv)
                }
                -1 => Verdict::Unsat,
                _ => Verdict::Unknown,
            };
            Z3_solver_dec_ref(self.c, s);
            let _ = Z3_mk_bool_sort;
            out
        });
        // validate models independently of the solver
        if let Verdict::Sat(m) = &v {
            let mp: HashMap<u32, u8> = m.iter().cloned().collect();
            ctx(|x| {
                x.begin_eval();
                for &e in &key {
                    assert_eq!(x.eval_in(e, &|v| mp.get(&v).copied().unwrap_or(0)), 1, "solver model does not satisfy its query");
                }
            });
        }
        let dt = t0.elapsed().as_secs_f64();
        self.st.queries += 1;
        self.st.time_s += dt;
        if dt > self.st.max_s {
            self.st.max_s = dt
        }
        match v {
            Verdict::Sat(_) => self.st.sat += 1,
            Verdict::Unsat => self.st.unsat += 1,
            Verdict::Unknown => self.st.unknown += 1,
        }
        self.cache.insert(key, v.clone());
        v
    }
}
