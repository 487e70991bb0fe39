//! Solver back end: libz3 through its C API.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::{Duration, Instant};

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, logic: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
}
extern "C" fn on_err(_c: P, _e: c_int) {}

#[derive(Clone, Debug)]
pub enum Res { Sat(Vec<(u32, u64)>), Unsat, Unknown }

pub struct Solver {
    ctx: P,
    logic: P,
    bvs: HashMap<Id, P>,
    bools: HashMap<Id, P>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub cache_hits: u64,
    pub time: Duration,
    pub max_time: Duration,
    cache: HashMap<Vec<Id>, Res>,
    pub deadline: Option<Instant>,
    pub timeout_ms: u32,
}

impl Drop for Solver { fn drop(&mut self) { unsafe { Z3_del_context(self.ctx) } } }

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("timeout").unwrap(); let v = CString::new(timeout_ms.to_string()).unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(ctx, Some(on_err));
            let l = CString::new("QF_BV").unwrap();
            let logic = Z3_mk_string_symbol(ctx, l.as_ptr());
            Solver { ctx, logic, bvs: HashMap::new(), bools: HashMap::new(), queries: 0, sat: 0, unsat: 0, cache_hits: 0, time: Duration::ZERO, max_time: Duration::ZERO, cache: HashMap::new(), deadline: None, timeout_ms }
        }
    }
    fn num(&self, w: u32, v: &Bv) -> P {
        unsafe {
            if w <= 64 { return Z3_mk_unsigned_int64(self.ctx, v.u64(), Z3_mk_bv_sort(self.ctx, w)); }
            let l = v.limbs(w);
            let mut acc: Option<P> = None;
            for (i, x) in l.iter().enumerate() {
                let bw = (w - 64 * i as u32).min(64);
                let n = Z3_mk_unsigned_int64(self.ctx, *x, Z3_mk_bv_sort(self.ctx, bw));
                acc = Some(match acc { None => n, Some(lo) => Z3_mk_concat(self.ctx, n, lo) });
            }
            acc.unwrap()
        }
    }
    fn boolean(&mut self, a: &Arena, e: Id) -> P {
        if let Some(p) = self.bools.get(&e) { return *p; }
        let c = self.ctx;
        let r = unsafe {
            match &a.nodes[e as usize] {
                Node::K(_, v) => if v.is_zero() { Z3_mk_false(c) } else { Z3_mk_true(c) },
                Node::Bin(op, x, y) if matches!(op, Op::Eq) => if a.w(*x) == 1 { let p = self.boolean(a, *x); let q = self.boolean(a, *y); Z3_mk_eq(c, p, q) } else { let p = self.bv(a, *x); let q = self.bv(a, *y); Z3_mk_eq(c, p, q) },
                Node::Bin(Op::Ult, x, y) => { let p = self.bv(a, *x); let q = self.bv(a, *y); Z3_mk_bvult(c, p, q) }
                Node::Bin(Op::Ule, x, y) => { let p = self.bv(a, *x); let q = self.bv(a, *y); Z3_mk_bvule(c, p, q) }
                Node::Bin(Op::Slt, x, y) => { let p = self.bv(a, *x); let q = self.bv(a, *y); Z3_mk_bvslt(c, p, q) }
                Node::Bin(Op::Sle, x, y) => { let p = self.bv(a, *x); let q = self.bv(a, *y); Z3_mk_bvsle(c, p, q) }
                Node::Bin(Op::And, x, y) => { let p = [self.boolean(a, *x), self.boolean(a, *y)]; Z3_mk_and(c, 2, p.as_ptr()) }
                Node::Bin(Op::Or, x, y) => { let p = [self.boolean(a, *x), self.boolean(a, *y)]; Z3_mk_or(c, 2, p.as_ptr()) }
                Node::Bin(Op::Xor, x, y) => if *y == 1 { let p = self.boolean(a, *x); Z3_mk_not(c, p) } else { let p = self.boolean(a, *x); let q = self.boolean(a, *y); Z3_mk_xor(c, p, q) },
                Node::Ite(k, x, y) => { let p = self.boolean(a, *k); let q = self.boolean(a, *x); let r = self.boolean(a, *y); Z3_mk_ite(c, p, q, r) }
                _ => { let p = self.bv_raw(a, e); Z3_mk_eq(c, p, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1))) }
            }
        };
        self.bools.insert(e, r);
        r
    }
    fn bv(&mut self, a: &Arena, e: Id) -> P {
        if let Some(p) = self.bvs.get(&e) { return *p; }
        let c = self.ctx;
        let isbool = a.w(e) == 1 && match &a.nodes[e as usize] {
            Node::Bin(Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::And | Op::Or | Op::Xor, ..) | Node::Ite(..) => true,
            _ => false,
        };
        let r = if isbool {
            let b = self.boolean(a, e);
            unsafe { let s = Z3_mk_bv_sort(c, 1); Z3_mk_ite(c, b, Z3_mk_unsigned_int64(c, 1, s), Z3_mk_unsigned_int64(c, 0, s)) }
        } else { self.bv_raw(a, e) };
        self.bvs.insert(e, r);
        r
    }
    fn bv_raw(&mut self, a: &Arena, e: Id) -> P {
        let c = self.ctx;
        unsafe {
            match &a.nodes[e as usize] {
                Node::K(w, v) => self.num(*w, v),
                Node::Var(w, n) => Z3_mk_const(c, Z3_mk_int_symbol(c, *n as c_int), Z3_mk_bv_sort(c, *w)),
                Node::Bin(op, x, y) => {
                    let p = self.bv(a, *x); let q = self.bv(a, *y);
                    match op {
                        Op::Add => Z3_mk_bvadd(c, p, q), Op::Sub => Z3_mk_bvsub(c, p, q), Op::Mul => Z3_mk_bvmul(c, p, q),
                        Op::UDiv => Z3_mk_bvudiv(c, p, q), Op::SDiv => Z3_mk_bvsdiv(c, p, q), Op::URem => Z3_mk_bvurem(c, p, q), Op::SRem => Z3_mk_bvsrem(c, p, q),
                        Op::And => Z3_mk_bvand(c, p, q), Op::Or => Z3_mk_bvor(c, p, q), Op::Xor => Z3_mk_bvxor(c, p, q),
                        Op::Shl => Z3_mk_bvshl(c, p, q), Op::LShr => Z3_mk_bvlshr(c, p, q), Op::AShr => Z3_mk_bvashr(c, p, q),
                        Op::Concat => Z3_mk_concat(c, p, q),
                        _ => unreachable!(),
                    }
                }
                Node::Extract(x, lo, w) => { let p = self.bv(a, *x); Z3_mk_extract(c, lo + w - 1, *lo, p) }
                Node::ZExt(x, w) => { let p = self.bv(a, *x); Z3_mk_zero_ext(c, w - a.w(*x), p) }
                Node::SExt(x, w) => { let p = self.bv(a, *x); Z3_mk_sign_ext(c, w - a.w(*x), p) }
                Node::Ite(k, x, y) => { let b = self.boolean(a, *k); let p = self.bv(a, *x); let q = self.bv(a, *y); Z3_mk_ite(c, b, p, q) }
            }
        }
    }
    /// Decide the conjunction; a Sat answer carries values of the variables occurring in it.
    pub fn check(&mut self, a: &mut Arena, mut cs: Vec<Id>) -> Res {
        cs.sort_unstable(); cs.dedup();
        cs.retain(|c| *c != 1);
        if cs.first() == Some(&0) { return Res::Unsat; }
        if cs.is_empty() { return Res::Sat(vec![]); }
        if let Some(r) = self.cache.get(&cs) { self.cache_hits += 1; return r.clone(); }
        if let Some(d) = self.deadline { if Instant::now() > d { return Res::Unknown; } }
        let t0 = Instant::now();
        self.queries += 1;
        let r = unsafe {
            let c = self.ctx;
            let s = Z3_mk_solver_for_logic(c, self.logic);
            Z3_solver_inc_ref(c, s);
            for e in &cs { let b = self.boolean(a, *e); Z3_solver_assert(c, s, b); }
            let err = Z3_get_error_code(c);
            let r = if err != 0 { eprintln!("z3 error code {err}"); Res::Unknown } else {
                match Z3_solver_check(c, s) {
                    1 => {
                        let m = Z3_solver_get_model(c, s);
                        Z3_model_inc_ref(c, m);
                        let mut vs: Vec<u32> = vec![];
                        for e in &cs { vs.extend_from_slice(&a.vars(*e)); }
                        vs.sort_unstable(); vs.dedup();
                        let mut out = vec![]; let mut ok = true;
                        for v in vs {
                            let id = a.var_ids[v as usize];
                            let t = self.bv(a, id);
                            let mut val: P = std::ptr::null_mut(); let mut n = 0u64;
                            if Z3_model_eval(c, m, t, true, &mut val) && Z3_get_numeral_uint64(c, val, &mut n) { out.push((v, n)); } else { ok = false; }
                        }
                        Z3_model_dec_ref(c, m);
                        if ok { Res::Sat(out) } else { Res::Unknown }
                    }
                    -1 => Res::Unsat,
                    _ => Res::Unknown,
                }
            };
            Z3_solver_dec_ref(c, s);
            r
        };
        let dt = t0.elapsed();
        self.time += dt;
        if dt > self.max_time { self.max_time = dt; }
        match r { Res::Sat(_) => self.sat += 1, Res::Unsat => self.unsat += 1, _ => {} }
        self.cache.insert(cs, r.clone());
        r
    }
}
