//! Minimal bindings to libz3 and the incremental query interface.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_del_config(c: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_fresh_const(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_iff(c: P, a: P, b: P) -> P;
    fn Z3_mk_implies(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, complete: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_mk_fpa_sort_32(c: P) -> P;
    fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, rm: P, t: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, t: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
}

pub enum Res {
    Sat(Vec<(u32, u8)>),
    Unsat,
    Unknown,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub model_hits: u64,
    pub time_us: u64,
    pub max_us: u64,
}

pub struct Solver {
    ctx: P,
    s: P,
    bv: HashMap<Eid, P>,
    bl: HashMap<Eid, P>,
    lit: HashMap<Eid, P>,
    pub stats: Stats,
    cache: HashMap<Vec<Eid>, Option<Vec<(u32, u8)>>>,
    since_reset: u32,
    timeout_ms: u32,
    pub log_unsat: Vec<Vec<Eid>>, // sample of discharged queries for cross-checking
    pub log_cap: usize,
    unsat_seen: u64,
    fp: bool, // floating point arithmetic has been met
}

impl Solver {
    /// what the incremental solver gets before a question is taken to be hard
    const QUICK_MS: u32 = 1000;
    pub fn limit_ms(&self) -> u32 { self.timeout_ms }
    pub fn new(timeout_ms: u32) -> Self {
        let mut s = Solver {
            ctx: std::ptr::null_mut(), s: std::ptr::null_mut(), bv: HashMap::new(), bl: HashMap::new(),
            lit: HashMap::new(), stats: Stats::default(), cache: HashMap::new(), since_reset: 0, timeout_ms,
            log_unsat: vec![], log_cap: 0, unsat_seen: 0, fp: false,
        };
        s.reset();
        s
    }
    fn reset(&mut self) {
        unsafe {
            if !self.ctx.is_null() {
                Z3_solver_dec_ref(self.ctx, self.s);
                Z3_del_context(self.ctx);
            }
            let cfg = Z3_mk_config();
            self.ctx = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            let l = CString::new(if self.fp { "QF_FPBV" } else { "QF_BV" }).unwrap();
            self.s = Z3_mk_solver_for_logic(self.ctx, Z3_mk_string_symbol(self.ctx, l.as_ptr()));
            Z3_solver_inc_ref(self.ctx, self.s);
            let p = Z3_mk_params(self.ctx);
            Z3_params_inc_ref(self.ctx, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.ctx, p, Z3_mk_string_symbol(self.ctx, k.as_ptr()), self.timeout_ms.min(Self::QUICK_MS));
            Z3_solver_set_params(self.ctx, self.s, p);
        }
        self.bv.clear(); self.bl.clear(); self.lit.clear();
        self.since_reset = 0;
    }
    fn num(&self, v: u128, w: u8) -> P {
        unsafe {
            if w <= 64 {
                Z3_mk_unsigned_int64(self.ctx, v as u64, Z3_mk_bv_sort(self.ctx, w as c_uint))
            } else {
                let hi = Z3_mk_unsigned_int64(self.ctx, (v >> 64) as u64, Z3_mk_bv_sort(self.ctx, (w - 64) as c_uint));
                let lo = Z3_mk_unsigned_int64(self.ctx, v as u64, Z3_mk_bv_sort(self.ctx, 64));
                Z3_mk_concat(self.ctx, hi, lo)
            }
        }
    }
    fn to_bool(&mut self, a: &Arena, e: Eid) -> P {
        if let Some(&p) = self.bl.get(&e) { return p; }
        let n = *a.n(e);
        debug_assert_eq!(n.w, 1);
        let c = self.ctx;
        let p = unsafe {
            match n.k {
                K::Const(0) => Z3_mk_false(c),
                K::Const(_) => Z3_mk_true(c),
                K::Bin(op, x, y) => match op {
                    Op::And => { let v = [self.to_bool(a, x), self.to_bool(a, y)]; Z3_mk_and(c, 2, v.as_ptr()) }
                    Op::Or => { let v = [self.to_bool(a, x), self.to_bool(a, y)]; Z3_mk_or(c, 2, v.as_ptr()) }
                    Op::Xor => {
                        if a.as_const(y) == Some(1) { let t = self.to_bool(a, x); Z3_mk_not(c, t) }
                        else { let (p, q) = (self.to_bool(a, x), self.to_bool(a, y)); Z3_mk_xor(c, p, q) }
                    }
                    Op::Eq if a.w(x) == 1 => { let (p, q) = (self.to_bool(a, x), self.to_bool(a, y)); Z3_mk_iff(c, p, q) }
                    Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                        let (p, q) = (self.to_bv(a, x), self.to_bv(a, y));
                        match op {
                            Op::Eq => Z3_mk_eq(c, p, q), Op::Ult => Z3_mk_bvult(c, p, q), Op::Ule => Z3_mk_bvule(c, p, q),
                            Op::Slt => Z3_mk_bvslt(c, p, q), _ => Z3_mk_bvsle(c, p, q),
                        }
                    }
                    _ => { let v = self.to_bv(a, e); let one = self.num(1, 1); Z3_mk_eq(c, v, one) }
                },
                K::Ite(q, x, y) => { let (q, x, y) = (self.to_bool(a, q), self.to_bool(a, x), self.to_bool(a, y)); Z3_mk_ite(c, q, x, y) }
                _ => { let v = self.to_bv(a, e); let one = self.num(1, 1); Z3_mk_eq(c, v, one) }
            }
        };
        self.bl.insert(e, p);
        p
    }
    fn fsort(&self, w: u8) -> P { unsafe { if w == 32 { Z3_mk_fpa_sort_32(self.ctx) } else { Z3_mk_fpa_sort_64(self.ctx) } } }
    fn fp(&mut self, a: &Arena, e: Eid) -> P { let s = self.fsort(a.w(e)); let b = self.to_bv(a, e); unsafe { Z3_mk_fpa_to_fp_bv(self.ctx, b, s) } }
    fn fp_bits(&self, f: P, w: u8) -> P {
        unsafe {
            let q = self.num(if w == 32 { 0x7FC0_0000 } else { 0x7FF8_0000_0000_0000 }, w);
            Z3_mk_ite(self.ctx, Z3_mk_fpa_is_nan(self.ctx, f), q, Z3_mk_fpa_to_ieee_bv(self.ctx, f))
        }
    }
    fn has_fp(a: &Arena, e: Eid, seen: &mut std::collections::HashSet<Eid>) -> bool {
        if !seen.insert(e) { return false; }
        match a.n(e).k {
            K::Const(_) | K::Var(_) => false,
            K::Conv(..) | K::Bin(Op::FAdd | Op::FSub | Op::FMul | Op::FDiv, ..) => true,
            K::ZExt(x) | K::SExt(x) | K::Extract(x, _) => Self::has_fp(a, x, seen),
            K::Bin(_, x, y) | K::Concat(x, y) => Self::has_fp(a, x, seen) || Self::has_fp(a, y, seen),
            K::Ite(c, x, y) => Self::has_fp(a, c, seen) || Self::has_fp(a, x, seen) || Self::has_fp(a, y, seen),
        }
    }
    fn to_bv(&mut self, a: &Arena, e: Eid) -> P {
        if let Some(&p) = self.bv.get(&e) { return p; }
        let n = *a.n(e);
        let c = self.ctx;
        let p = unsafe {
            match n.k {
                K::Const(v) => self.num(v, n.w),
                K::Var(i) => Z3_mk_const(c, Z3_mk_int_symbol(c, i as c_int), Z3_mk_bv_sort(c, 8)),
                K::ZExt(x) => { let xw = a.w(x); let p = self.to_bv(a, x); Z3_mk_zero_ext(c, (n.w - xw) as c_uint, p) }
                K::SExt(x) => { let xw = a.w(x); let p = self.to_bv(a, x); Z3_mk_sign_ext(c, (n.w - xw) as c_uint, p) }
                K::Extract(x, lo) => { let p = self.to_bv(a, x); Z3_mk_extract(c, (lo + n.w - 1) as c_uint, lo as c_uint, p) }
                K::Concat(x, y) => { let (p, q) = (self.to_bv(a, x), self.to_bv(a, y)); Z3_mk_concat(c, p, q) }
                K::Ite(q, x, y) => { let q = self.to_bool(a, q); let (x, y) = (self.to_bv(a, x), self.to_bv(a, y)); Z3_mk_ite(c, q, x, y) }
                K::Conv(f, x) => {
                    let rne = Z3_mk_fpa_rne(c);
                    match f {
                        Fc::FromS | Fc::FromU => {
                            let (b, s) = (self.to_bv(a, x), self.fsort(n.w));
                            let t = if f == Fc::FromS { Z3_mk_fpa_to_fp_signed(c, rne, b, s) } else { Z3_mk_fpa_to_fp_unsigned(c, rne, b, s) };
                            self.fp_bits(t, n.w)
                        }
                        Fc::ToS => { let t = self.fp(a, x); Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), t, n.w as c_uint) }
                        Fc::ToU => { let t = self.fp(a, x); Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), t, n.w as c_uint) }
                        Fc::Ext | Fc::Trunc => { let t = self.fp(a, x); let t = Z3_mk_fpa_to_fp_float(c, rne, t, self.fsort(n.w)); self.fp_bits(t, n.w) }
                        _ => {
                            let rm = match f { Fc::Floor => Z3_mk_fpa_rtn(c), Fc::Ceil => Z3_mk_fpa_rtp(c), Fc::Rtz => Z3_mk_fpa_rtz(c), Fc::Rna => Z3_mk_fpa_rna(c), _ => rne };
                            let t = self.fp(a, x); let t = Z3_mk_fpa_round_to_integral(c, rm, t); self.fp_bits(t, n.w)
                        }
                    }
                }
                K::Bin(op @ (Op::FAdd | Op::FSub | Op::FMul | Op::FDiv), x, y) => {
                    let (p, q, r) = (self.fp(a, x), self.fp(a, y), Z3_mk_fpa_rne(c));
                    let t = match op { Op::FAdd => Z3_mk_fpa_add(c, r, p, q), Op::FSub => Z3_mk_fpa_sub(c, r, p, q), Op::FMul => Z3_mk_fpa_mul(c, r, p, q), _ => Z3_mk_fpa_div(c, r, p, q) };
                    self.fp_bits(t, n.w)
                }
                K::Bin(op, x, y) => {
                    if matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) || (n.w == 1 && matches!(op, Op::And | Op::Or | Op::Xor)) {
                        let b = self.to_bool(a, e);
                        let (o, z) = (self.num(1, 1), self.num(0, 1));
                        Z3_mk_ite(c, b, o, z)
                    } else {
                        let (p, q) = (self.to_bv(a, x), self.to_bv(a, y));
                        match op {
                            Op::Add => Z3_mk_bvadd(c, p, q), Op::Sub => Z3_mk_bvsub(c, p, q), Op::Mul => Z3_mk_bvmul(c, p, q),
                            Op::UDiv => Z3_mk_bvudiv(c, p, q), Op::SDiv => Z3_mk_bvsdiv(c, p, q), Op::URem => Z3_mk_bvurem(c, p, q),
                            Op::SRem => Z3_mk_bvsrem(c, p, q), Op::And => Z3_mk_bvand(c, p, q), Op::Or => Z3_mk_bvor(c, p, q),
                            Op::Xor => Z3_mk_bvxor(c, p, q), Op::Shl => Z3_mk_bvshl(c, p, q), Op::LShr => Z3_mk_bvlshr(c, p, q),
                            Op::AShr => Z3_mk_bvashr(c, p, q), _ => unreachable!(),
                        }
                    }
                }
            }
        };
        self.bv.insert(e, p);
        p
    }
    fn lit(&mut self, a: &Arena, e: Eid) -> P {
        if let Some(&p) = self.lit.get(&e) { return p; }
        unsafe {
            let pre = CString::new("p").unwrap();
            let p = Z3_mk_fresh_const(self.ctx, pre.as_ptr(), Z3_mk_bool_sort(self.ctx));
            let b = self.to_bool(a, e);
            Z3_solver_assert(self.ctx, self.s, Z3_mk_implies(self.ctx, p, b));
            self.lit.insert(e, p);
            p
        }
    }
    fn model(&self, a: &Arena, s: P, cs: &[Eid]) -> Vec<(u32, u8)> {
        let mut m = vec![];
        unsafe {
            let mo = Z3_solver_get_model(self.ctx, s);
            Z3_model_inc_ref(self.ctx, mo);
            let mut vs = [0u64; NV];
            for &e in cs { for (i, w) in a.vars(e).iter().enumerate() { vs[i] |= w; } }
            for i in 0..(NV * 64) as u32 {
                if vs[(i / 64) as usize] >> (i % 64) & 1 == 1 {
                    let v = Z3_mk_const(self.ctx, Z3_mk_int_symbol(self.ctx, i as c_int), Z3_mk_bv_sort(self.ctx, 8));
                    let mut out = std::ptr::null_mut();
                    let mut u = 0u64;
                    if !Z3_model_eval(self.ctx, mo, v, true, &mut out) || !Z3_get_numeral_uint64(self.ctx, out, &mut u) {
                        panic!("z3 model evaluation failed");
                    }
                    m.push((i, u as u8));
                }
            }
            Z3_model_dec_ref(self.ctx, mo);
        }
        m
    }
    /// the same question put to a solver of its own, which simplifies the whole before it starts
    pub fn check_fresh(&mut self, a: &Arena, cs: &[Eid], ms: u32) -> Res {
        let t0 = Instant::now();
        let out = unsafe {
            let l = CString::new(if self.fp { "QF_FPBV" } else { "QF_BV" }).unwrap();
            let s = Z3_mk_solver_for_logic(self.ctx, Z3_mk_string_symbol(self.ctx, l.as_ptr()));
            Z3_solver_inc_ref(self.ctx, s);
            let p = Z3_mk_params(self.ctx);
            Z3_params_inc_ref(self.ctx, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.ctx, p, Z3_mk_string_symbol(self.ctx, k.as_ptr()), ms);
            Z3_solver_set_params(self.ctx, s, p);
            for &e in cs { let b = self.to_bool(a, e); Z3_solver_assert(self.ctx, s, b); }
            let r = match Z3_solver_check_assumptions(self.ctx, s, 0, std::ptr::null()) {
                1 => { self.stats.sat += 1; Res::Sat(self.model(a, s, cs)) }
                -1 => { self.stats.unsat += 1; Res::Unsat }
                _ => Res::Unknown,
            };
            Z3_solver_dec_ref(self.ctx, s);
            r
        };
        let us = t0.elapsed().as_micros() as u64;
        self.stats.queries += 1;
        self.stats.time_us += us;
        self.stats.max_us = self.stats.max_us.max(us);
        out
    }
    /// remember the answer to a question settled elsewhere
    pub fn settled(&mut self, mut cs: Vec<Eid>, r: &Res) {
        cs.sort_unstable(); cs.dedup();
        match r {
            Res::Sat(m) => { self.cache.insert(cs, Some(m.clone())); }
            Res::Unsat => { self.cache.insert(cs, None); }
            Res::Unknown => {}
        }
    }
    /// Is the conjunction of `cs` (width-1 expressions) satisfiable?
    pub fn check(&mut self, a: &Arena, mut cs: Vec<Eid>) -> Res {
        cs.sort_unstable(); cs.dedup();
        if let Some(r) = self.cache.get(&cs) {
            self.stats.cache_hits += 1;
            return match r { Some(m) => Res::Sat(m.clone()), None => Res::Unsat };
        }
        if !self.fp && a.uses_fp { let mut seen = Default::default(); if cs.iter().any(|&e| Self::has_fp(a, e, &mut seen)) { self.fp = true; self.reset(); } }
        if self.since_reset > 4000 { self.reset(); }
        self.since_reset += 1;
        let t0 = Instant::now();
        let lits: Vec<P> = cs.iter().map(|&e| self.lit(a, e)).collect();
        let r = unsafe { Z3_solver_check_assumptions(self.ctx, self.s, lits.len() as c_uint, lits.as_ptr()) };
        let out = match r {
            1 => {
                let m = self.model(a, self.s, &cs);
                self.stats.sat += 1;
                Res::Sat(m)
            }
            -1 => {
                self.stats.unsat += 1;
                self.unsat_seen += 1;
                if self.log_cap > 0 {
                    // deterministic reservoir: keep the query at exponentially spaced indices
                    if self.log_unsat.len() < self.log_cap { self.log_unsat.push(cs.clone()); }
                    else {
                        let h = self.unsat_seen.wrapping_mul(0x9E3779B97F4A7C15) >> 20;
                        let j = (h % self.unsat_seen) as usize;
                        if j < self.log_cap { self.log_unsat[j] = cs.clone(); }
                    }
                }
                Res::Unsat
            }
            _ => Res::Unknown,
        };
        let us = t0.elapsed().as_micros() as u64;
        self.stats.queries += 1;
        self.stats.time_us += us;
        self.stats.max_us = self.stats.max_us.max(us);
        match &out {
            Res::Sat(m) => { self.cache.insert(cs, Some(m.clone())); }
            Res::Unsat => { self.cache.insert(cs, None); }
            Res::Unknown => {}
        }
        out
    }
}
