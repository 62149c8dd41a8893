//! SMT back end: slices the path condition, caches verdicts and asks Z3 (QF_BV).

use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_uint)>);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul_no_overflow(c: P, a: P, b: P, signed: bool) -> P;
    fn Z3_mk_bvmul_no_underflow(c: P, a: P, b: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, complete: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_bool_value(c: P, a: P) -> c_int;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
}

extern "C" fn on_error(_: P, code: c_uint) {
    eprintln!("z3 error {}", code);
    std::process::exit(70);
}

#[derive(Clone)]
pub enum Verdict {
    Sat(Rc<Vec<(u32, u128)>>),
    Unsat,
    Unknown,
}

pub struct Solver {
    ctx: P,
    slv: P,
    bv: HashMap<E, P, BuildFx>,
    bl: HashMap<E, P, BuildFx>,
    cache: HashMap<Vec<E>, Verdict>,
    timeout_ms: u32,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cached: u64,
    pub time: f64,
    pub max_query: f64,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        let mut s = Solver {
            ctx: std::ptr::null_mut(),
            slv: std::ptr::null_mut(),
            bv: HashMap::default(),
            bl: HashMap::default(),
            cache: HashMap::new(),
            timeout_ms,
            queries: 0,
            sat: 0,
            unsat: 0,
            unknown: 0,
            cached: 0,
            time: 0.0,
            max_query: 0.0,
        };
        s.open();
        s
    }

    fn open(&mut self) {
        unsafe {
            let cfg = Z3_mk_config();
            self.ctx = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(self.ctx, Some(on_error));
            self.slv = Z3_mk_simple_solver(self.ctx);
            Z3_solver_inc_ref(self.ctx, self.slv);
            let p = Z3_mk_params(self.ctx);
            Z3_params_inc_ref(self.ctx, p);
            let k = CString::new("timeout").unwrap();
            let k = Z3_mk_string_symbol(self.ctx, k.as_ptr());
            Z3_params_set_uint(self.ctx, p, k, self.timeout_ms);
            Z3_solver_set_params(self.ctx, self.slv, p);
        }
    }

    /// Drops the Z3 context; the verdict cache survives.
    pub fn reopen(&mut self) {
        unsafe { Z3_del_context(self.ctx) };
        self.bv.clear();
        self.bl.clear();
        self.open();
    }

    /// Constraints of `cs` that share symbols (transitively) with `q`.
    fn slice(&self, ar: &mut Arena, cs: &[E], q: E) -> Vec<E> {
        let mut syms: Vec<u32> = ar.support(q).to_vec();
        let mut out = vec![q];
        let mut rest: Vec<(E, Rc<[u32]>)> = cs.iter().map(|&c| (c, ar.support(c))).collect();
        loop {
            let mut changed = false;
            let mut keep = Vec::with_capacity(rest.len());
            for (c, s) in rest.drain(..) {
                if s.iter().any(|x| syms.binary_search(x).is_ok()) {
                    out.push(c);
                    if s.iter().any(|x| syms.binary_search(x).is_err()) {
                        syms.extend_from_slice(&s);
                        syms.sort_unstable();
                        syms.dedup();
                    }
                    changed = true;
                } else {
                    keep.push((c, s));
                }
            }
            rest = keep;
            if !changed {
                break;
            }
        }
        out.sort_unstable();
        out.dedup();
        out
    }

    /// Satisfiability of `cs /\ q`, where `cs` alone is known to be satisfiable.
    pub fn check(&mut self, ar: &mut Arena, cs: &[E], q: E) -> Verdict {
        match ar.val(q) {
            Some(0) => return Verdict::Unsat,
            Some(_) => return Verdict::Sat(Rc::new(vec![])),
            None => {}
        }
        let key = self.slice(ar, cs, q);
        if let Some(v) = self.cache.get(&key) {
            self.cached += 1;
            return v.clone();
        }
        if self.bv.len() + self.bl.len() > 150_000 {
            self.reopen();
        }
        let t0 = Instant::now();
        self.queries += 1;
        let v = unsafe {
            Z3_solver_push(self.ctx, self.slv);
            for &c in &key {
                let b = self.tb(ar, c);
                Z3_solver_assert(self.ctx, self.slv, b);
            }
            match Z3_solver_check(self.ctx, self.slv) {
                1 => {
                    let m = Z3_solver_get_model(self.ctx, self.slv);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut syms: Vec<u32> = Vec::new();
                    for &c in &key {
                        syms.extend_from_slice(&ar.support(c));
                    }
                    syms.sort_unstable();
                    syms.dedup();
                    let mut vals = Vec::with_capacity(syms.len());
                    for s in syms {
                        let w = ar.sym_width[s as usize] as u32;
                        let t = self.sym(ar, s);
                        let mut r: P = std::ptr::null_mut();
                        Z3_model_eval(self.ctx, m, t, true, &mut r);
                        let v = if w == 1 {
                            (Z3_get_bool_value(self.ctx, r) == 1) as u128
                        } else {
                            let st = CStr::from_ptr(Z3_get_numeral_string(self.ctx, r));
                            st.to_str().unwrap().parse::<u128>().unwrap()
                        };
                        vals.push((s, v));
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    self.sat += 1;
                    Verdict::Sat(Rc::new(vals))
                }
                -1 => {
                    self.unsat += 1;
                    Verdict::Unsat
                }
                _ => {
                    self.unknown += 1;
                    Verdict::Unknown
                }
            }
        };
        unsafe { Z3_solver_pop(self.ctx, self.slv, 1) };
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_query {
            self.max_query = dt;
        }
        if let Some(t) = std::env::var("SYMEX_SLOW").ok().and_then(|x| x.parse::<f64>().ok()) {
            if dt > t {
                eprintln!("slow query {:.3}s, {} constraints", dt, key.len());
                for &c in &key {
                    eprintln!("   {} {}", if c == q { "?" } else { " " }, ar.show(c, 12));
                }
            }
        }
        // The model is double-checked with the engine's own evaluator.
        if let Verdict::Sat(vals) = &v {
            ar.stamp += 1;
            let map: HashMap<u32, u128> = vals.iter().copied().collect();
            for &c in &key {
                let r = ar.eval(c, &|s| map.get(&s).copied().unwrap_or(0));
                if r != 1 {
                    eprintln!("internal error: solver model does not satisfy the query");
                    std::process::exit(71);
                }
            }
            ar.stamp += 1;
        }
        self.cache.insert(key, v.clone());
        v
    }

    unsafe fn sym(&mut self, ar: &Arena, s: u32) -> P {
        let w = ar.sym_width[s as usize] as u32;
        let name = CString::new(format!("s{}", s)).unwrap();
        let n = Z3_mk_string_symbol(self.ctx, name.as_ptr());
        let sort = if w == 1 {
            Z3_mk_bool_sort(self.ctx)
        } else {
            Z3_mk_bv_sort(self.ctx, w)
        };
        Z3_mk_const(self.ctx, n, sort)
    }

    /// Boolean translation of a width-1 expression.
    unsafe fn tb(&mut self, ar: &Arena, e: E) -> P {
        if let Some(&p) = self.bl.get(&e) {
            return p;
        }
        let c = self.ctx;
        let n = ar.n(e);
        debug_assert_eq!(n.w, 1);
        let p = match n.op {
            Op::Const => {
                if n.k == 1 {
                    Z3_mk_true(c)
                } else {
                    Z3_mk_false(c)
                }
            }
            Op::Sym => self.sym(ar, n.a),
            Op::And => {
                let v = [self.tb(ar, n.a), self.tb(ar, n.b)];
                Z3_mk_and(c, 2, v.as_ptr())
            }
            Op::Or => {
                let v = [self.tb(ar, n.a), self.tb(ar, n.b)];
                Z3_mk_or(c, 2, v.as_ptr())
            }
            Op::Xor => {
                let a = self.tb(ar, n.a);
                if ar.val(n.b) == Some(1) {
                    Z3_mk_not(c, a)
                } else {
                    let b = self.tb(ar, n.b);
                    Z3_mk_xor(c, a, b)
                }
            }
            Op::Ite => {
                let (x, y, z) = (self.tb(ar, n.a), self.tb(ar, n.b), self.tb(ar, n.c));
                Z3_mk_ite(c, x, y, z)
            }
            Op::Eq if ar.w(n.a) == 1 => {
                let (x, y) = (self.tb(ar, n.a), self.tb(ar, n.b));
                Z3_mk_eq(c, x, y)
            }
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::UMulOvf | Op::SMulOvf => {
                let (x, y) = (self.tv(ar, n.a), self.tv(ar, n.b));
                match n.op {
                    Op::Eq => Z3_mk_eq(c, x, y),
                    Op::Ult => Z3_mk_bvult(c, x, y),
                    Op::Ule => Z3_mk_bvule(c, x, y),
                    Op::Slt => Z3_mk_bvslt(c, x, y),
                    Op::Sle => Z3_mk_bvsle(c, x, y),
                    Op::UMulOvf => {
                        let r = Z3_mk_bvmul_no_overflow(c, x, y, false);
                        Z3_mk_not(c, r)
                    }
                    _ => {
                        let v = [
                            Z3_mk_bvmul_no_overflow(c, x, y, true),
                            Z3_mk_bvmul_no_underflow(c, x, y),
                        ];
                        let r = Z3_mk_and(c, 2, v.as_ptr());
                        Z3_mk_not(c, r)
                    }
                }
            }
            _ => {
                let v = self.tv(ar, e);
                let one = Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1));
                Z3_mk_eq(c, v, one)
            }
        };
        self.bl.insert(e, p);
        p
    }

    /// Bit-vector translation.
    unsafe fn tv(&mut self, ar: &Arena, e: E) -> P {
        if let Some(&p) = self.bv.get(&e) {
            return p;
        }
        let c = self.ctx;
        let n = ar.n(e);
        let w = n.w as u32;
        let via_bool = w == 1
            && matches!(
                n.op,
                Op::Sym
                    | Op::And
                    | Op::Or
                    | Op::Xor
                    | Op::Ite
                    | Op::Eq
                    | Op::Ult
                    | Op::Ule
                    | Op::Slt
                    | Op::Sle
                    | Op::UMulOvf
                    | Op::SMulOvf
            );
        let p = if via_bool {
            let b = self.tb(ar, e);
            let s = Z3_mk_bv_sort(c, 1);
            let one = Z3_mk_unsigned_int64(c, 1, s);
            let zero = Z3_mk_unsigned_int64(c, 0, s);
            Z3_mk_ite(c, b, one, zero)
        } else {
            match n.op {
                Op::Const => {
                    let s = CString::new(n.k.to_string()).unwrap();
                    Z3_mk_numeral(c, s.as_ptr(), Z3_mk_bv_sort(c, w))
                }
                Op::Sym => self.sym(ar, n.a),
                Op::Ite => {
                    let x = self.tb(ar, n.a);
                    let (y, z) = (self.tv(ar, n.b), self.tv(ar, n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                Op::ZExt => {
                    let x = self.tv(ar, n.a);
                    Z3_mk_zero_ext(c, w - ar.w(n.a), x)
                }
                Op::SExt => {
                    let x = self.tv(ar, n.a);
                    Z3_mk_sign_ext(c, w - ar.w(n.a), x)
                }
                Op::Extract => {
                    let x = self.tv(ar, n.a);
                    Z3_mk_extract(c, n.k as u32 + w - 1, n.k as u32, x)
                }
                _ => {
                    let (x, y) = (self.tv(ar, n.a), self.tv(ar, n.b));
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, x, y),
                        Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Op::URem => Z3_mk_bvurem(c, x, y),
                        Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y),
                        Op::LShr => Z3_mk_bvlshr(c, x, y),
                        Op::AShr => Z3_mk_bvashr(c, x, y),
                        Op::And => Z3_mk_bvand(c, x, y),
                        Op::Or => Z3_mk_bvor(c, x, y),
                        Op::Xor => Z3_mk_bvxor(c, x, y),
                        Op::Concat => Z3_mk_concat(c, x, y),
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.bv.insert(e, p);
        p
    }
}
