//! Z3 back end (C API) with constraint slicing, result cache and model reuse.

use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: *const c_void);
    fn Z3_get_error_code(c: P) -> i32;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_int_sort(c: P) -> P;
    fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_sub(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_div(c: P, a: P, b: P) -> P;
    fn Z3_mk_mod(c: P, a: P, b: P) -> P;
    fn Z3_mk_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
    fn Z3_mk_const(c: P, s: P, sort: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, sort: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_implies(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_fpa_sort(c: P, e: c_uint, s: c_uint) -> P;
    fn Z3_mk_fpa_round_nearest_ties_to_even(c: P) -> P;
    fn Z3_mk_fpa_round_nearest_ties_to_away(c: P) -> P;
    fn Z3_mk_fpa_round_toward_negative(c: P) -> P;
    fn Z3_mk_fpa_round_toward_positive(c: P) -> P;
    fn Z3_mk_fpa_round_toward_zero(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_fma(c: P, rm: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> i32;
    fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const P) -> i32;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, s: P);
    fn Z3_model_dec_ref(c: P, s: P);
    fn Z3_model_eval(c: P, m: P, t: P, complete: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_del_context(c: P);
    fn Z3_ast_to_string(c: P, a: P) -> *const c_char;
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sat {
    Sat,
    Unsat,
    Unknown,
}

pub struct Solver {
    z: P,
    s: P,
    ast: HashMap<E, P, BuildFx>,
    lit: HashMap<E, P, BuildFx>,
    n_in_solver: u32,
    cache: HashMap<Vec<E>, (Sat, Option<Vec<(u32, u128)>>), BuildFx>,
    iast: HashMap<E, Option<P>, BuildFx>,
    prefer_int: i32,
    pub int_calls: u64,
    pub cross_checked: u64,
    recent: std::collections::VecDeque<Model>,
    pub queries: u64,
    pub solver_calls: u64,
    pub fp_calls: u64,
    pub cache_hits: u64,
    pub model_hits: u64,
    pub time: f64,
    pub max_time: f64,
    pub unknowns: u64,
    pub timeout_ms: u32,
    pub logic: String,
    pub reset_every: u32,
    pub trace: bool,
    pub dump: Option<String>,
    fp32: P,
    fp64: P,
    rne: P,
    rtz: P,
}

unsafe fn cs(s: &str) -> CString {
    CString::new(s).unwrap()
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, cs("model").as_ptr(), cs("true").as_ptr());
            let z = Z3_mk_context(cfg);
            Z3_set_error_handler(z, std::ptr::null());
            let mut r = Solver {
                z,
                s: std::ptr::null_mut(),
                ast: Default::default(),
                lit: Default::default(),
                n_in_solver: 0,
                cache: Default::default(),
                iast: Default::default(),
                prefer_int: 0,
                int_calls: 0,
                cross_checked: 0,
                recent: Default::default(),
                queries: 0,
                solver_calls: 0,
                fp_calls: 0,
                cache_hits: 0,
                model_hits: 0,
                time: 0.0,
                max_time: 0.0,
                unknowns: 0,
                timeout_ms,
                logic: std::env::var("RV_LOGIC").unwrap_or("QF_BV".into()),
                reset_every: 600,
                dump: std::env::var("RV_DUMP").ok(),
                trace: std::env::var("RV_TRACE_SOLVER").is_ok(),
                fp32: Z3_mk_fpa_sort(z, 8, 24),
                fp64: Z3_mk_fpa_sort(z, 11, 53),
                rne: Z3_mk_fpa_round_nearest_ties_to_even(z),
                rtz: Z3_mk_fpa_round_toward_zero(z),
            };
            r.fresh();
            r
        }
    }
    fn mk_solver(&self, logic: &str) -> P {
        unsafe {
            let s = if logic == "simple" {
                Z3_mk_simple_solver(self.z)
            } else {
                Z3_mk_solver_for_logic(self.z, Z3_mk_string_symbol(self.z, cs(logic).as_ptr()))
            };
            Z3_solver_inc_ref(self.z, s);
            let p = Z3_mk_params(self.z);
            Z3_params_inc_ref(self.z, p);
            Z3_params_set_uint(self.z, p, Z3_mk_string_symbol(self.z, cs("timeout").as_ptr()), self.timeout_ms);
            Z3_solver_set_params(self.z, s, p);
            s
        }
    }
    fn fresh(&mut self) {
        unsafe {
            if !self.s.is_null() {
                Z3_solver_dec_ref(self.z, self.s);
            }
        }
        self.s = self.mk_solver(&self.logic.clone());
        self.lit.clear();
        self.n_in_solver = 0;
    }
    fn bv1(&self, b: P) -> P {
        b
    }
    /// z3 term: width-1 terms are Bool, others bit-vectors
    pub fn tr(&mut self, cx: &Ctx, e: E) -> P {
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if self.ast.contains_key(&x) {
                stack.pop();
                continue;
            }
            let n = cx.n(x);
            let (ch, k) = Ctx::children(&n);
            let mut miss = false;
            for y in &ch[..k] {
                if !self.ast.contains_key(y) {
                    stack.push(*y);
                    miss = true;
                }
            }
            if miss {
                continue;
            }
            let z = self.z;
            let g = |i: usize| self.ast[&ch[i]];
            let aw = if k > 0 { cx.w(ch[0]) } else { n.w };
            let isb = n.w == 1;
            let ab = aw == 1;
            let r = unsafe {
                let bvs = |w: u8| Z3_mk_bv_sort(z, w as c_uint);
                let tobv = |p: P, w: u8| {
                    if w == 1 {
                        let one = Z3_mk_numeral(z, cs("1").as_ptr(), bvs(1));
                        let zero = Z3_mk_numeral(z, cs("0").as_ptr(), bvs(1));
                        Z3_mk_ite(z, p, one, zero)
                    } else {
                        p
                    }
                };
                let tob = |p: P| {
                    let one = Z3_mk_numeral(z, cs("1").as_ptr(), bvs(1));
                    Z3_mk_eq(z, p, one)
                };
                let fs = |w: u8| if w == 32 { self.fp32 } else { self.fp64 };
                let fp = |i: usize| Z3_mk_fpa_to_fp_bv(z, g(i), fs(cx.w(ch[i])));
                match n.op {
                    Op::Const => {
                        let v = cx.cv(x).unwrap();
                        if isb {
                            if v != 0 {
                                Z3_mk_true(z)
                            } else {
                                Z3_mk_false(z)
                            }
                        } else {
                            Z3_mk_numeral(z, cs(&v.to_string()).as_ptr(), bvs(n.w))
                        }
                    }
                    Op::Sym => {
                        let sy = Z3_mk_string_symbol(z, cs(&format!("s{}", n.a)).as_ptr());
                        if isb {
                            Z3_mk_const(z, sy, Z3_mk_bool_sort(z))
                        } else {
                            Z3_mk_const(z, sy, bvs(n.w))
                        }
                    }
                    Op::Not => {
                        if isb {
                            Z3_mk_not(z, g(0))
                        } else {
                            Z3_mk_bvnot(z, g(0))
                        }
                    }
                    Op::And | Op::Or => {
                        if isb {
                            let a = [g(0), g(1)];
                            if n.op == Op::And {
                                Z3_mk_and(z, 2, a.as_ptr())
                            } else {
                                Z3_mk_or(z, 2, a.as_ptr())
                            }
                        } else if n.op == Op::And {
                            Z3_mk_bvand(z, g(0), g(1))
                        } else {
                            Z3_mk_bvor(z, g(0), g(1))
                        }
                    }
                    Op::Xor => {
                        if isb {
                            Z3_mk_xor(z, g(0), g(1))
                        } else {
                            Z3_mk_bvxor(z, g(0), g(1))
                        }
                    }
                    Op::Add | Op::Sub if isb => Z3_mk_xor(z, g(0), g(1)),
                    Op::Mul if isb => {
                        let a = [g(0), g(1)];
                        Z3_mk_and(z, 2, a.as_ptr())
                    }
                    Op::Add => Z3_mk_bvadd(z, g(0), g(1)),
                    Op::Sub => Z3_mk_bvsub(z, g(0), g(1)),
                    Op::Mul => Z3_mk_bvmul(z, g(0), g(1)),
                    Op::UDiv => Z3_mk_bvudiv(z, g(0), g(1)),
                    Op::SDiv => Z3_mk_bvsdiv(z, g(0), g(1)),
                    Op::URem => Z3_mk_bvurem(z, g(0), g(1)),
                    Op::SRem => Z3_mk_bvsrem(z, g(0), g(1)),
                    Op::Shl => Z3_mk_bvshl(z, g(0), g(1)),
                    Op::LShr => Z3_mk_bvlshr(z, g(0), g(1)),
                    Op::AShr => Z3_mk_bvashr(z, g(0), g(1)),
                    Op::Eq => Z3_mk_eq(z, g(0), g(1)),
                    Op::Ult => Z3_mk_bvult(z, tobv(g(0), aw), tobv(g(1), aw)),
                    Op::Ule => Z3_mk_bvule(z, tobv(g(0), aw), tobv(g(1), aw)),
                    Op::Slt => Z3_mk_bvslt(z, tobv(g(0), aw), tobv(g(1), aw)),
                    Op::Sle => Z3_mk_bvsle(z, tobv(g(0), aw), tobv(g(1), aw)),
                    Op::Ite => Z3_mk_ite(z, g(0), g(1), g(2)),
                    Op::ZExt => Z3_mk_zero_ext(z, (n.w - aw) as c_uint, tobv(g(0), aw)),
                    Op::SExt => Z3_mk_sign_ext(z, (n.w - aw) as c_uint, tobv(g(0), aw)),
                    Op::Extract => {
                        let r = Z3_mk_extract(z, n.b + n.w as c_uint - 1, n.b, tobv(g(0), aw));
                        if isb {
                            tob(r)
                        } else {
                            r
                        }
                    }
                    Op::Concat => Z3_mk_concat(z, tobv(g(0), aw), tobv(g(1), cx.w(ch[1]))),
                    Op::FAdd => Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_add(z, self.rne, fp(0), fp(1))),
                    Op::FSub => Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_sub(z, self.rne, fp(0), fp(1))),
                    Op::FMul => Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_mul(z, self.rne, fp(0), fp(1))),
                    Op::FDiv => Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_div(z, self.rne, fp(0), fp(1))),
                    Op::FSqrt => Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_sqrt(z, self.rne, fp(0))),
                    Op::FMa => Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_fma(z, self.rne, fp(0), fp(1), fp(2))),
                    Op::FRnd => {
                        let rm = match n.b {
                            0 => Z3_mk_fpa_round_toward_negative(z),
                            1 => Z3_mk_fpa_round_toward_positive(z),
                            2 => self.rtz,
                            3 => self.rne,
                            _ => Z3_mk_fpa_round_nearest_ties_to_away(z),
                        };
                        Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_round_to_integral(z, rm, fp(0)))
                    }
                    Op::FLt => Z3_mk_fpa_lt(z, fp(0), fp(1)),
                    Op::FLe => Z3_mk_fpa_leq(z, fp(0), fp(1)),
                    Op::FEq => Z3_mk_fpa_eq(z, fp(0), fp(1)),
                    Op::FNan => Z3_mk_fpa_is_nan(z, fp(0)),
                    Op::SToF => Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_to_fp_signed(z, self.rne, tobv(g(0), aw), fs(n.w))),
                    Op::UToF => Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_to_fp_unsigned(z, self.rne, tobv(g(0), aw), fs(n.w))),
                    Op::FCvt => Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_to_fp_float(z, self.rne, fp(0), fs(n.w))),
                    Op::FToS | Op::FToU => {
                        let f = fp(0);
                        let signed = n.op == Op::FToS;
                        // bounds in the source format; both are exactly representable or rounded outwards
                        let (mn, mx): (f64, f64) = if signed {
                            (-(2f64.powi(n.w as i32 - 1)), 2f64.powi(n.w as i32 - 1))
                        } else {
                            (0.0, 2f64.powi(n.w as i32))
                        };
                        let fk = |v: f64| {
                            let (bits, w) = if aw == 32 { ((v as f32).to_bits() as u64, 32) } else { (v.to_bits(), 64) };
                            let bv = Z3_mk_numeral(z, cs(&bits.to_string()).as_ptr(), bvs(w));
                            Z3_mk_fpa_to_fp_bv(z, bv, fs(aw))
                        };
                        let kbv = |v: u128| Z3_mk_numeral(z, cs(&(v & mask(n.w)).to_string()).as_ptr(), bvs(n.w));
                        let (kmin, kmax) = if signed { (1u128 << (n.w - 1), mask(n.w) >> 1) } else { (0, mask(n.w)) };
                        let conv = if signed { Z3_mk_fpa_to_sbv(z, self.rtz, f, n.w as c_uint) } else { Z3_mk_fpa_to_ubv(z, self.rtz, f, n.w as c_uint) };
                        let low = Z3_mk_fpa_leq(z, f, fk(mn));
                        let high = Z3_mk_fpa_leq(z, fk(mx), f);
                        let r = Z3_mk_ite(z, high, kbv(kmax), conv);
                        let r = Z3_mk_ite(z, low, kbv(kmin), r);
                        Z3_mk_ite(z, Z3_mk_fpa_is_nan(z, f), kbv(0), r)
                    }
                    Op::FRem => panic!("symbolic frem is not encoded"),
                }
            };
            let _ = ab;
            let r = self.bv1(r);
            if r.is_null() {
                let mut s = String::new();
                for i in 0..k {
                    let p = self.ast[&ch[i]];
                    s.push_str(&format!(" [{}]", unsafe { CStr::from_ptr(Z3_ast_to_string(z, p)).to_string_lossy().chars().take(200).collect::<String>() }));
                }
                panic!("z3 rejected term {:?} w={} err={} args={}", n.op, n.w, unsafe { Z3_get_error_code(z) }, s);
            }
            self.ast.insert(x, r);
            stack.pop();
        }
        self.ast[&e]
    }
    /// the same term over mathematical integers; machine wrap-around is encoded explicitly
    /// unless the intervals exclude it.  None: not expressible in linear arithmetic.
    pub fn tri(&mut self, cx: &Ctx, e: E) -> Option<P> {
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if self.iast.contains_key(&x) {
                stack.pop();
                continue;
            }
            let n = cx.n(x);
            let (ch, k) = Ctx::children(&n);
            let mut miss = false;
            for y in &ch[..k] {
                if !self.iast.contains_key(y) {
                    stack.push(*y);
                    miss = true;
                }
            }
            if miss {
                continue;
            }
            let r = self.tri1(cx, x, &n, &ch[..k]);
            self.iast.insert(x, r);
            stack.pop();
        }
        self.iast[&e]
    }
    fn tri1(&mut self, cx: &Ctx, x: E, n: &crate::expr::Node, ch: &[E]) -> Option<P> {
        let z = self.z;
        let w = n.w;
        if w > 64 && !matches!(n.op, Op::ZExt | Op::SExt | Op::Const) {
            return None;
        }
        let mut a: Vec<P> = vec![];
        for y in ch {
            a.push(self.iast[y]?);
        }
        let isb = w == 1;
        let aw = if ch.is_empty() { w } else { cx.w(ch[0]) };
        let inf = |e: E| (cx.info[e as usize].lo, cx.info[e as usize].hi);
        unsafe {
            let int = Z3_mk_int_sort(z);
            let num = |v: u128| Z3_mk_numeral(z, cs(&v.to_string()).as_ptr(), int);
            let modulus = |w: u8| 1u128 << w;
            let toint = |p: P, w: u8| if w == 1 { Z3_mk_ite(z, p, num(1), num(0)) } else { p };
            let sgn = |p: P, e: E| {
                let w = cx.w(e);
                let p = toint(p, w);
                let (lo, hi) = (cx.info[e as usize].lo, cx.info[e as usize].hi);
                let half = 1u128 << (w - 1);
                let sub = {
                    let v = [p, num(modulus(w))];
                    Z3_mk_sub(z, 2, v.as_ptr())
                };
                if hi < half {
                    p
                } else if lo >= half {
                    sub
                } else {
                    Z3_mk_ite(z, Z3_mk_lt(z, p, num(half)), p, sub)
                }
            };
            let wrap = |p: P, lo: i128, hi: i128, w: u8| {
                // p in [lo,hi] with at most one wrap in either direction
                let m = modulus(w) as i128;
                let mut r = p;
                if hi >= m {
                    let v = [p, num(m as u128)];
                    r = Z3_mk_ite(z, Z3_mk_lt(z, p, num(m as u128)), p, Z3_mk_sub(z, 2, v.as_ptr()));
                }
                if lo < 0 {
                    let v = [p, num(m as u128)];
                    r = Z3_mk_ite(z, Z3_mk_lt(z, p, num(0)), Z3_mk_add(z, 2, v.as_ptr()), r);
                }
                r
            };
            Some(match n.op {
                Op::Const => {
                    let v = cx.cv(x).unwrap();
                    if isb {
                        if v != 0 {
                            Z3_mk_true(z)
                        } else {
                            Z3_mk_false(z)
                        }
                    } else {
                        num(v)
                    }
                }
                Op::Sym => {
                    if isb {
                        let sy = Z3_mk_string_symbol(z, cs(&format!("s{}", n.a)).as_ptr());
                        Z3_mk_const(z, sy, Z3_mk_bool_sort(z))
                    } else {
                        let sy = Z3_mk_string_symbol(z, cs(&format!("i{}", n.a)).as_ptr());
                        Z3_mk_const(z, sy, int)
                    }
                }
                Op::Not => {
                    if isb {
                        Z3_mk_not(z, a[0])
                    } else {
                        let v = [num(mask(w)), a[0]];
                        Z3_mk_sub(z, 2, v.as_ptr())
                    }
                }
                Op::And | Op::Or if isb => {
                    if n.op == Op::And {
                        Z3_mk_and(z, 2, a.as_ptr())
                    } else {
                        Z3_mk_or(z, 2, a.as_ptr())
                    }
                }
                Op::Xor if isb => Z3_mk_xor(z, a[0], a[1]),
                Op::Add | Op::Sub if isb => Z3_mk_xor(z, a[0], a[1]),
                Op::And => {
                    let (c, v) = if let Some(c) = cx.cv(ch[1]) {
                        (c, a[0])
                    } else if let Some(c) = cx.cv(ch[0]) {
                        (c, a[1])
                    } else {
                        return None;
                    };
                    if c == 0 {
                        return Some(num(0));
                    }
                    // contiguous mask
                    let lo = c.trailing_zeros();
                    let t = c >> lo;
                    if t & (t + 1) != 0 {
                        return None;
                    }
                    let hi = lo + t.count_ones();
                    let mut r = v;
                    if hi < w as u32 {
                        r = Z3_mk_mod(z, r, num(1 << hi));
                    }
                    if lo > 0 {
                        let v = [r, Z3_mk_mod(z, r, num(1 << lo))];
                        r = Z3_mk_sub(z, 2, v.as_ptr());
                    }
                    r
                }
                Op::Or | Op::Xor => return None,
                Op::Add => {
                    let ((l0, h0), (l1, h1)) = (inf(ch[0]), inf(ch[1]));
                    // a large constant is a subtraction in disguise
                    for (c, o) in [(1usize, 0usize), (0, 1)] {
                        if let Some(k) = cx.cv(ch[c]) {
                            if k > mask(w) / 2 {
                                let neg = modulus(w) - k;
                                let (lo, hi) = inf(ch[o]);
                                let v = [a[o], num(neg)];
                                return Some(wrap(Z3_mk_sub(z, 2, v.as_ptr()), lo as i128 - neg as i128, hi as i128 - neg as i128, w));
                            }
                        }
                    }
                    wrap(Z3_mk_add(z, 2, a.as_ptr()), (l0 + l1) as i128, (h0 + h1) as i128, w)
                }
                Op::Sub => {
                    let ((l0, h0), (l1, h1)) = (inf(ch[0]), inf(ch[1]));
                    wrap(Z3_mk_sub(z, 2, a.as_ptr()), l0 as i128 - h1 as i128, h0 as i128 - l1 as i128, w)
                }
                Op::Mul => {
                    let (c, o) = if cx.cv(ch[1]).is_some() { (1, 0) } else { (0, 1) };
                    let k = cx.cv(ch[c])?;
                    let (_, hi) = inf(ch[o]);
                    let p = Z3_mk_mul(z, 2, a.as_ptr());
                    match hi.checked_mul(k) {
                        Some(m) if m <= mask(w) => p,
                        _ => Z3_mk_mod(z, p, num(modulus(w))),
                    }
                }
                Op::Shl => {
                    let k = cx.cv(ch[1])?;
                    if k >= w as u128 {
                        return Some(num(0));
                    }
                    let v = [a[0], num(1 << k)];
                    let p = Z3_mk_mul(z, 2, v.as_ptr());
                    if inf(ch[0]).1 << k <= mask(w) {
                        p
                    } else {
                        Z3_mk_mod(z, p, num(modulus(w)))
                    }
                }
                Op::LShr => {
                    let k = cx.cv(ch[1])?;
                    if k >= w as u128 {
                        return Some(num(0));
                    }
                    Z3_mk_div(z, a[0], num(1 << k))
                }
                Op::UDiv | Op::URem => {
                    let k = cx.cv(ch[1])?;
                    if k == 0 {
                        return None;
                    }
                    if n.op == Op::UDiv {
                        Z3_mk_div(z, a[0], a[1])
                    } else {
                        Z3_mk_mod(z, a[0], a[1])
                    }
                }
                Op::Eq => Z3_mk_eq(z, a[0], a[1]),
                Op::Ult => Z3_mk_lt(z, toint(a[0], aw), toint(a[1], aw)),
                Op::Ule => Z3_mk_le(z, toint(a[0], aw), toint(a[1], aw)),
                Op::Slt => Z3_mk_lt(z, sgn(a[0], ch[0]), sgn(a[1], ch[1])),
                Op::Sle => Z3_mk_le(z, sgn(a[0], ch[0]), sgn(a[1], ch[1])),
                Op::Ite => Z3_mk_ite(z, a[0], a[1], a[2]),
                Op::ZExt => toint(a[0], aw),
                Op::SExt => {
                    if aw == 1 {
                        Z3_mk_ite(z, a[0], num(mask(w)), num(0))
                    } else {
                        let (lo, hi) = inf(ch[0]);
                        let half = 1u128 << (aw - 1);
                        if hi < half {
                            a[0]
                        } else {
                            let v = [a[0], num(mask(w) - mask(aw))];
                            let s = Z3_mk_add(z, 2, v.as_ptr());
                            if lo >= half {
                                s
                            } else {
                                Z3_mk_ite(z, Z3_mk_lt(z, a[0], num(half)), a[0], s)
                            }
                        }
                    }
                }
                Op::Extract => {
                    let lo = n.b;
                    let mut r = toint(a[0], aw);
                    let (_, hi) = inf(ch[0]);
                    if lo > 0 {
                        r = Z3_mk_div(z, r, num(1 << lo));
                    }
                    if hi >> lo > mask(w) {
                        r = Z3_mk_mod(z, r, num(modulus(w)));
                    }
                    if isb {
                        Z3_mk_eq(z, r, num(1))
                    } else {
                        r
                    }
                }
                Op::Concat => {
                    let wb = cx.w(ch[1]);
                    let v = [toint(a[0], aw), num(1 << wb)];
                    let v = [Z3_mk_mul(z, 2, v.as_ptr()), toint(a[1], wb)];
                    Z3_mk_add(z, 2, v.as_ptr())
                }
                _ => return None,
            })
        }
    }
    /// decide over the integers; Unknown when not expressible or out of time
    unsafe fn solve_int(&mut self, cx: &mut Ctx, q: &[E], ms: u32) -> (i32, P) {
        let mut t = vec![];
        for e in q {
            match self.tri(cx, *e) {
                Some(p) => t.push(p),
                None => return (0, std::ptr::null_mut()),
            }
        }
        self.int_calls += 1;
        let s = self.mk_solver("simple");
        self.set_timeout(s, ms);
        let int = Z3_mk_int_sort(self.z);
        let mut syms: Vec<u32> = vec![];
        for e in q {
            syms.extend_from_slice(&cx.syms_of(*e));
        }
        syms.sort_unstable();
        syms.dedup();
        for sy in syms {
            let (e, _, w) = cx.syms[sy as usize].clone();
            if w > 1 {
                let p = self.tri(cx, e).unwrap();
                let inf = cx.info[e as usize];
                let lo = Z3_mk_numeral(self.z, cs(&inf.lo.to_string()).as_ptr(), int);
                let hi = Z3_mk_numeral(self.z, cs(&inf.hi.to_string()).as_ptr(), int);
                Z3_solver_assert(self.z, s, Z3_mk_le(self.z, lo, p));
                Z3_solver_assert(self.z, s, Z3_mk_le(self.z, p, hi));
            }
        }
        for p in t {
            Z3_solver_assert(self.z, s, p);
        }
        (Z3_solver_check(self.z, s), s)
    }
    unsafe fn set_timeout(&self, s: P, ms: u32) {
        let p = Z3_mk_params(self.z);
        Z3_params_inc_ref(self.z, p);
        Z3_params_set_uint(self.z, p, Z3_mk_string_symbol(self.z, cs("timeout").as_ptr()), ms);
        Z3_solver_set_params(self.z, s, p);
    }
    unsafe fn solve_bv(&mut self, cx: &mut Ctx, q: &[E], ms: u32) -> (i32, P) {
        self.n_in_solver += 1;
        if self.n_in_solver > self.reset_every {
            self.fresh();
        }
        let s = self.s;
        self.set_timeout(s, ms);
        let mut lits = vec![];
        for e in q {
            let l = match self.lit.get(e) {
                Some(l) => *l,
                None => {
                    let a = self.tr(cx, *e);
                    let l = Z3_mk_const(self.z, Z3_mk_string_symbol(self.z, cs(&format!("p{}", e)).as_ptr()), Z3_mk_bool_sort(self.z));
                    Z3_solver_assert(self.z, s, Z3_mk_implies(self.z, l, a));
                    self.lit.insert(*e, l);
                    l
                }
            };
            lits.push(l);
        }
        (Z3_solver_check_assumptions(self.z, s, lits.len() as c_uint, lits.as_ptr()), s)
    }
    unsafe fn solve_once(&mut self, cx: &mut Ctx, q: &[E], ms: u32) -> (i32, P) {
        let s = self.mk_solver("QF_BV");
        self.set_timeout(s, ms);
        for e in q {
            let a = self.tr(cx, *e);
            Z3_solver_assert(self.z, s, a);
        }
        (Z3_solver_check(self.z, s), s)
    }
    fn maybe_reset_ctx(&mut self) {
        if self.ast.len() > 3_000_000 {
            unsafe {
                Z3_solver_dec_ref(self.z, self.s);
                Z3_del_context(self.z);
                let cfg = Z3_mk_config();
                self.z = Z3_mk_context(cfg);
                Z3_set_error_handler(self.z, std::ptr::null());
                self.fp32 = Z3_mk_fpa_sort(self.z, 8, 24);
                self.fp64 = Z3_mk_fpa_sort(self.z, 11, 53);
                self.rne = Z3_mk_fpa_round_nearest_ties_to_even(self.z);
                self.rtz = Z3_mk_fpa_round_toward_zero(self.z);
            }
            self.s = std::ptr::null_mut();
            self.ast.clear();
            self.iast.clear();
            self.fresh();
        }
    }
    /// constraints of `pc` transitively sharing symbols with `cond`
    pub fn slice(cx: &mut Ctx, pc: &[E], cond: E) -> Vec<E> {
        let mut have: std::collections::HashSet<u32, BuildFx> = Default::default();
        for s in cx.syms_of(cond).iter() {
            have.insert(*s);
        }
        let mut used = vec![false; pc.len()];
        let sets: Vec<_> = pc.iter().map(|e| cx.syms_of(*e)).collect();
        loop {
            let mut ch = false;
            for i in 0..pc.len() {
                if !used[i] && sets[i].iter().any(|s| have.contains(s)) {
                    used[i] = true;
                    ch = true;
                    for s in sets[i].iter() {
                        have.insert(*s);
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let mut r: Vec<E> = (0..pc.len()).filter(|i| used[*i]).map(|i| pc[i]).collect();
        r.sort_unstable();
        r.dedup();
        r
    }
    /// is pc & cond satisfiable?  On Sat returns assignments for the symbols of the slice.
    pub fn check(&mut self, cx: &mut Ctx, pc: &[E], cond: E) -> (Sat, Option<Vec<(u32, u128)>>) {
        self.queries += 1;
        if let Some(v) = cx.cv(cond) {
            return if v != 0 { (Sat::Sat, Some(vec![])) } else { (Sat::Unsat, None) };
        }
        let mut q = Self::slice(cx, pc, cond);
        q.push(cond);
        q.sort_unstable();
        q.dedup();
        // syntactic contradiction
        let nc = cx.not(cond);
        if q.binary_search(&nc).is_ok() {
            return (Sat::Unsat, None);
        }
        if let Some(r) = self.cache.get(&q) {
            self.cache_hits += 1;
            return r.clone();
        }
        // recent models
        for mi in 0..self.recent.len() {
            cx.new_eval();
            let m = &self.recent[mi];
            if q.iter().rev().all(|e| cx.eval(*e, m) != 0) {
                self.model_hits += 1;
                let mut syms: Vec<u32> = vec![];
                for e in &q {
                    syms.extend_from_slice(&cx.syms_of(*e));
                }
                syms.sort_unstable();
                syms.dedup();
                let asg: Vec<(u32, u128)> = syms.iter().map(|s| (*s, m.get(*s as usize).copied().unwrap_or(0))).collect();
                self.cache.insert(q, (Sat::Sat, Some(asg.clone())));
                return (Sat::Sat, Some(asg));
            }
        }
        let r = self.solve(cx, &q);
        if self.cache.len() > 400_000 {
            self.cache.clear();
        }
        self.cache.insert(q, r.clone());
        r
    }
    pub fn solve(&mut self, cx: &mut Ctx, q: &[E]) -> (Sat, Option<Vec<(u32, u128)>>) {
        let t0 = Instant::now();
        self.solver_calls += 1;
        self.maybe_reset_ctx();
        let fp = q.iter().any(|e| cx.info[*e as usize].has_fp);
        let (res, s);
        let mut by_int = false;
        let mut once = false;
        unsafe {
            if fp {
                self.fp_calls += 1;
                s = self.mk_solver("QF_BVFP");
                for e in q {
                    let a = self.tr(cx, *e);
                    Z3_solver_assert(self.z, s, a);
                }
                res = Z3_solver_check(self.z, s);
            } else {
                let mut got: (i32, P) = (0, std::ptr::null_mut());
                // (encoding, milliseconds); 0 incremental bit-vectors, 1 integers, 2 bit-vectors with preprocessing
                let full = self.timeout_ms;
                let plan: [(u8, u32); 6] = if self.prefer_int > 3 {
                    [(1, 1500), (0, 300), (2, 15000), (1, 30000), (2, full), (1, full)]
                } else {
                    [(0, 200), (1, 1500), (2, 15000), (1, 30000), (2, full), (1, full)]
                };
                for (k, (how, ms)) in plan.iter().enumerate() {
                    let (ints, ms) = (*how == 1, (*ms).min(full));
                    let r = match how {
                        0 => self.solve_bv(cx, q, ms),
                        1 => self.solve_int(cx, q, ms),
                        _ => self.solve_once(cx, q, ms),
                    };
                    once = *how == 2;
                    if r.0 != 0 {
                        if k > 0 || ints {
                            self.prefer_int = (self.prefer_int + if ints { 1 } else { -1 }).clamp(-8, 12);
                        }
                        by_int = ints;
                        if ints && r.0 == -1 && (self.int_calls < 6 || self.int_calls % 128 == 0) {
                            // the two encodings must agree
                            let c = self.solve_bv(cx, q, 400);
                            if c.0 == 1 {
                                panic!("encoding mismatch: integer and bit-vector verdicts differ");
                            }
                            if c.0 == -1 {
                                self.cross_checked += 1;
                            }
                        }
                        got = r;
                        break;
                    }
                    if *how != 0 && !r.1.is_null() {
                        Z3_solver_dec_ref(self.z, r.1);
                    }
                }
                res = got.0;
                s = got.1;
            }
        }
        let r = match res {
            1 => {
                let mut syms: Vec<u32> = vec![];
                for e in q {
                    syms.extend_from_slice(&cx.syms_of(*e));
                }
                syms.sort_unstable();
                syms.dedup();
                let mut asg = vec![];
                unsafe {
                    let m = Z3_solver_get_model(self.z, s);
                    Z3_model_inc_ref(self.z, m);
                    for sy in &syms {
                        let (e, _, w) = cx.syms[*sy as usize].clone();
                        let a = if by_int { self.tri(cx, e).unwrap() } else { self.tr(cx, e) };
                        let mut v: P = std::ptr::null_mut();
                        Z3_model_eval(self.z, m, a, true, &mut v);
                        let val = if w == 1 {
                            let s = CStr::from_ptr(Z3_ast_to_string(self.z, v)).to_string_lossy().to_string();
                            (s == "true") as u128
                        } else {
                            CStr::from_ptr(Z3_get_numeral_string(self.z, v)).to_string_lossy().parse::<u128>().unwrap()
                        };
                        asg.push((*sy, val));
                    }
                    Z3_model_dec_ref(self.z, m);
                }
                // the solver's model must satisfy our own evaluator: guards the encoding
                let mut m: Model = vec![0; cx.syms.len()];
                for (s, v) in &asg {
                    m[*s as usize] = *v;
                }
                cx.new_eval();
                for e in q {
                    if cx.eval(*e, &m) == 0 {
                        panic!("encoding mismatch: solver model does not satisfy {}", cx.show(*e, 4));
                    }
                }
                self.recent.push_front(m);
                if self.recent.len() > 12 {
                    self.recent.pop_back();
                }
                (Sat::Sat, Some(asg))
            }
            -1 => (Sat::Unsat, None),
            _ => {
                self.unknowns += 1;
                (Sat::Unknown, None)
            }
        };
        if !s.is_null() && (fp || by_int || (once && res != 0)) {
            unsafe { Z3_solver_dec_ref(self.z, s) };
        }
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time {
            self.max_time = dt;
        }
        if dt > 0.3 && self.dump.is_some() {
            let mut t = String::from("(set-logic ALL)\n");
            let mut syms: Vec<u32> = vec![];
            for e in q {
                syms.extend_from_slice(&cx.syms_of(*e));
            }
            syms.sort_unstable();
            syms.dedup();
            for sy in &syms {
                let w = cx.syms[*sy as usize].2;
                t += &format!("(declare-const s{} {})\n", sy, if w == 1 { "Bool".into() } else { format!("(_ BitVec {})", w) });
            }
            for e in q {
                let a = self.tr(cx, *e);
                t += &format!("(assert {})\n", unsafe { CStr::from_ptr(Z3_ast_to_string(self.z, a)).to_string_lossy() });
            }
            t += "(check-sat)\n";
            std::fs::write(format!("{}/q{}_{:?}_{:.1}.smt2", self.dump.as_ref().unwrap(), self.solver_calls, r.0, dt), t).unwrap();
        }
        if self.trace && dt > 0.05 {
            eprintln!("solver {:?} {:.3}s fp={} n={} nodes={} last={}", r.0, dt, fp, q.len(), cx.nodes.len(), cx.show(*q.last().unwrap(), 3).chars().take(300).collect::<String>());
        }
        r
    }
}
