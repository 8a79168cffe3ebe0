//! Minimal FFI to libz3 and translation of expressions.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::sync::Arc;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, logic: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_real_sort(c: P) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_numeral(c: P, v: *const c_char, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_get_full_version() -> *const c_char;
}
extern "C" fn on_error(_c: P, _e: c_int) {}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

#[derive(Clone, Debug)]
pub enum Res {
    Sat(Arc<Vec<(u32, u64)>>),
    Unsat,
    Unknown,
}

/// What the query has to know about a variable: id, width, exact domain.
#[derive(Clone)]
pub struct VarDecl {
    pub id: u32,
    pub w: u32,
    pub lo: u64,
    pub hi: u64,
    /// bit i set: lo0 + i allowed, when the declared range has at most 256 values
    pub dom: Option<(u64, [u64; 4])>,
}

pub struct Z3 {
    ctx: P,
    solver: P,
    bv: FxMap<(u64, u8), P>,
    bo: FxMap<u64, P>,
    count: usize,
    pub timeout_ms: u32,
}

/// time limit of the incremental core
const FAST_MS: u32 = 700;

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        let mut z = Z3 { ctx: std::ptr::null_mut(), solver: std::ptr::null_mut(), bv: Default::default(), bo: Default::default(), count: 0, timeout_ms };
        z.open();
        z
    }
    fn open(&mut self) {
        unsafe {
            let cfg = Z3_mk_config();
            self.ctx = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(self.ctx, Some(on_error));
            self.solver = Z3_mk_simple_solver(self.ctx);
            Z3_solver_inc_ref(self.ctx, self.solver);
            let p = Z3_mk_params(self.ctx);
            Z3_params_inc_ref(self.ctx, p);
            let k = self.sym("timeout");
            Z3_params_set_uint(self.ctx, p, k, self.timeout_ms.min(FAST_MS));
            Z3_solver_set_params(self.ctx, self.solver, p);
        }
        self.bv.clear();
        self.bo.clear();
        self.count = 0;
    }
    fn close(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.ctx, self.solver);
            Z3_del_context(self.ctx);
        }
    }
    fn sym(&self, s: &str) -> P {
        let c = CString::new(s).unwrap();
        unsafe { Z3_mk_string_symbol(self.ctx, c.as_ptr()) }
    }
    fn num(&self, v: u128, w: u32) -> P {
        unsafe {
            let s = Z3_mk_bv_sort(self.ctx, w);
            if w <= 64 {
                Z3_mk_unsigned_int64(self.ctx, v as u64, s)
            } else {
                let t = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.ctx, t.as_ptr(), s)
            }
        }
    }
    fn vconst(&self, id: u32, w: u32) -> P {
        unsafe { Z3_mk_const(self.ctx, self.sym(&format!("v{}w{}", id, w)), Z3_mk_bv_sort(self.ctx, w)) }
    }
    fn tab(&mut self, idx: P, iw: u32, base: u64, tab: &[u64], w: u32, rows: &[(u64, u64)]) -> P {
        // rows: (first index, value), sorted; balanced tree of comparisons
        let _ = (base, tab);
        if rows.len() == 1 {
            return self.num(rows[0].1 as u128, w);
        }
        let m = rows.len() / 2;
        let a = self.tab(idx, iw, base, tab, w, &rows[..m]);
        let b = self.tab(idx, iw, base, tab, w, &rows[m..]);
        unsafe {
            let c = Z3_mk_bvult(self.ctx, idx, self.num(rows[m].0 as u128, iw));
            Z3_mk_ite(self.ctx, c, a, b)
        }
    }
    fn bv(&mut self, e: &Ex) -> P {
        let key = (e.h, e.w);
        if let Some(p) = self.bv.get(&key) {
            return *p;
        }
        let c = self.ctx;
        let r = unsafe {
            match &e.k {
                K::Const(v) => self.num(*v, e.w()),
                K::Var { id, .. } => self.vconst(*id, e.w()),
                _ if e.w == 1 => {
                    let b = self.bo(e);
                    Z3_mk_ite(c, b, self.num(1, 1), self.num(0, 1))
                }
                K::Not(a) => Z3_mk_bvnot(c, self.bv(a)),
                K::Bin(op, a, b) => {
                    let (x, y) = (self.bv(a), self.bv(b));
                    match op {
                        B::Add => Z3_mk_bvadd(c, x, y),
                        B::Sub => Z3_mk_bvsub(c, x, y),
                        B::Mul => Z3_mk_bvmul(c, x, y),
                        B::UDiv => Z3_mk_bvudiv(c, x, y),
                        B::SDiv => Z3_mk_bvsdiv(c, x, y),
                        B::URem => Z3_mk_bvurem(c, x, y),
                        B::SRem => Z3_mk_bvsrem(c, x, y),
                        B::And => Z3_mk_bvand(c, x, y),
                        B::Or => Z3_mk_bvor(c, x, y),
                        B::Xor => Z3_mk_bvxor(c, x, y),
                        B::Shl => Z3_mk_bvshl(c, x, y),
                        B::LShr => Z3_mk_bvlshr(c, x, y),
                        B::AShr => Z3_mk_bvashr(c, x, y),
                        _ => unreachable!(),
                    }
                }
                K::Ite(d, a, b) => {
                    let d = self.bo(d);
                    let (x, y) = (self.bv(a), self.bv(b));
                    Z3_mk_ite(c, d, x, y)
                }
                K::Extract(lo, a) => Z3_mk_extract(c, lo + e.w() - 1, *lo, self.bv(a)),
                K::Concat(a, b) => {
                    let (x, y) = (self.bv(a), self.bv(b));
                    Z3_mk_concat(c, x, y)
                }
                K::Zext(a) => Z3_mk_zero_ext(c, e.w() - a.w(), self.bv(a)),
                K::Sext(a) => Z3_mk_sign_ext(c, e.w() - a.w(), self.bv(a)),
                K::Table { idx, base, tab } => {
                    let i = self.bv(idx);
                    let mut rows: Vec<(u64, u64)> = vec![];
                    for (k, v) in tab.iter().enumerate() {
                        if rows.last().map_or(true, |r| r.1 != *v) {
                            rows.push((base + k as u64, *v));
                        }
                    }
                    self.tab(i, idx.w(), *base, tab, e.w(), &rows)
                }
                K::FInt { .. } => {
                    let b = fint_bits(e);
                    self.bv(&b)
                }
                K::Real(..) => panic!("real term in a bit-vector query"),
            }
        };
        self.bv.insert(key, r);
        r
    }
    fn bo(&mut self, e: &Ex) -> P {
        debug_assert_eq!(e.w, 1);
        if let Some(p) = self.bo.get(&e.h) {
            return *p;
        }
        let c = self.ctx;
        let r = unsafe {
            match &e.k {
                K::Const(v) => {
                    if *v == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                K::Not(a) => Z3_mk_not(c, self.bo(a)),
                K::Bin(op, a, b) => match op {
                    B::And | B::Or => {
                        let v = [self.bo(a), self.bo(b)];
                        if *op == B::And {
                            Z3_mk_and(c, 2, v.as_ptr())
                        } else {
                            Z3_mk_or(c, 2, v.as_ptr())
                        }
                    }
                    B::Xor | B::Add | B::Sub => {
                        let (x, y) = (self.bo(a), self.bo(b));
                        Z3_mk_xor(c, x, y)
                    }
                    B::Eq if a.w == 1 => {
                        let (x, y) = (self.bo(a), self.bo(b));
                        Z3_mk_eq(c, x, y)
                    }
                    B::Eq => {
                        let (x, y) = (self.bv(a), self.bv(b));
                        Z3_mk_eq(c, x, y)
                    }
                    B::Ult | B::Ule | B::Slt | B::Sle => {
                        let (x, y) = (self.bv(a), self.bv(b));
                        match op {
                            B::Ult => Z3_mk_bvult(c, x, y),
                            B::Ule => Z3_mk_bvule(c, x, y),
                            B::Slt => Z3_mk_bvslt(c, x, y),
                            _ => Z3_mk_bvsle(c, x, y),
                        }
                    }
                    B::Mul => {
                        let v = [self.bo(a), self.bo(b)];
                        Z3_mk_and(c, 2, v.as_ptr())
                    }
                    _ => {
                        // 1-bit shifts and divisions: go through bit-vectors
                        let one = self.num(1, 1);
                        let (x, y) = (self.bv(a), self.bv(b));
                        let t = match op {
                            B::Shl => Z3_mk_bvshl(c, x, y),
                            B::LShr => Z3_mk_bvlshr(c, x, y),
                            B::AShr => Z3_mk_bvashr(c, x, y),
                            B::UDiv => Z3_mk_bvudiv(c, x, y),
                            B::URem => Z3_mk_bvurem(c, x, y),
                            B::SDiv => Z3_mk_bvsdiv(c, x, y),
                            _ => Z3_mk_bvsrem(c, x, y),
                        };
                        Z3_mk_eq(c, t, one)
                    }
                },
                K::Ite(d, a, b) => {
                    let d = self.bo(d);
                    let (x, y) = (self.bo(a), self.bo(b));
                    Z3_mk_ite(c, d, x, y)
                }
                K::Var { id, .. } => Z3_mk_eq(c, self.vconst(*id, 1), self.num(1, 1)),
                K::Extract(lo, a) => Z3_mk_eq(c, Z3_mk_extract(c, *lo, *lo, self.bv(a)), self.num(1, 1)),
                K::Table { idx, base, tab } => {
                    // disjunction of index intervals
                    let i = self.bv(idx);
                    let iw = idx.w();
                    let mut alts: Vec<P> = vec![];
                    let mut k = 0;
                    while k < tab.len() {
                        if tab[k] == 0 {
                            k += 1;
                            continue;
                        }
                        let s = k;
                        while k < tab.len() && tab[k] != 0 {
                            k += 1;
                        }
                        alts.push(self.between(i, iw, base + s as u64, base + k as u64 - 1));
                    }
                    if alts.is_empty() {
                        Z3_mk_false(c)
                    } else {
                        Z3_mk_or(c, alts.len() as c_uint, alts.as_ptr())
                    }
                }
                K::Zext(_) | K::Sext(_) | K::Concat(..) | K::FInt { .. } | K::Real(..) => unreachable!(),
            }
        };
        self.bo.insert(e.h, r);
        r
    }
    fn between(&self, x: P, w: u32, lo: u64, hi: u64) -> P {
        unsafe {
            let c = self.ctx;
            if lo == hi {
                return Z3_mk_eq(c, x, self.num(lo as u128, w));
            }
            let mut v = vec![];
            if lo > 0 {
                v.push(Z3_mk_bvule(c, self.num(lo as u128, w), x));
            }
            if hi < mask(w) {
                v.push(Z3_mk_bvule(c, x, self.num(hi as u128, w)));
            }
            match v.len() {
                0 => Z3_mk_true(c),
                1 => v[0],
                _ => Z3_mk_and(c, v.len() as c_uint, v.as_ptr()),
            }
        }
    }
    fn assert_all(&mut self, conds: &[Ex], vars: &[VarDecl]) {
        for v in vars {
            let x = self.vconst(v.id, v.w);
            let f = match &v.dom {
                None => self.between(x, v.w, v.lo, v.hi),
                Some((base, d)) => {
                    let mut alts = vec![];
                    let bit = |i: usize| i < 256 && d[i / 64] >> (i % 64) & 1 == 1;
                    let mut i = 0;
                    while i < 256 {
                        if !bit(i) {
                            i += 1;
                            continue;
                        }
                        let s = i;
                        while bit(i) {
                            i += 1;
                        }
                        alts.push(self.between(x, v.w, base + s as u64, base + i as u64 - 1));
                    }
                    unsafe {
                        match alts.len() {
                            0 => Z3_mk_false(self.ctx),
                            1 => alts[0],
                            n => Z3_mk_or(self.ctx, n as c_uint, alts.as_ptr()),
                        }
                    }
                }
            };
            unsafe { Z3_solver_assert(self.ctx, self.solver, f) };
        }
        for e in conds {
            let b = self.bo(e);
            unsafe { Z3_solver_assert(self.ctx, self.solver, b) };
        }
    }
    pub fn check(&mut self, conds: &[Ex], vars: &[VarDecl]) -> Res {
        self.count += 1;
        if self.count > 20_000 || self.bv.len() > 400_000 {
            self.close();
            self.open();
        }
        let r = self.run(conds, vars, true);
        if !matches!(r, Res::Unknown) || self.timeout_ms <= FAST_MS {
            return r;
        }
        // The incremental core gave up: z3's bit-vector strategy on the query alone.
        unsafe {
            let fast = self.solver;
            let l = self.sym("QF_BV");
            self.solver = Z3_mk_solver_for_logic(self.ctx, l);
            Z3_solver_inc_ref(self.ctx, self.solver);
            let p = Z3_mk_params(self.ctx);
            Z3_params_inc_ref(self.ctx, p);
            let k = self.sym("timeout");
            Z3_params_set_uint(self.ctx, p, k, self.timeout_ms);
            Z3_solver_set_params(self.ctx, self.solver, p);
            let r = self.run(conds, vars, false);
            Z3_solver_dec_ref(self.ctx, self.solver);
            self.solver = fast;
            r
        }
    }
    fn run(&mut self, conds: &[Ex], vars: &[VarDecl], incremental: bool) -> Res {
        unsafe {
            if incremental {
                Z3_solver_push(self.ctx, self.solver);
            }
            self.assert_all(conds, vars);
            let r = Z3_solver_check(self.ctx, self.solver);
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(self.ctx, self.solver);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut out = vec![];
                    for v in vars {
                        let x = self.vconst(v.id, v.w);
                        let mut r: P = std::ptr::null_mut();
                        let mut n = 0u64;
                        if Z3_model_eval(self.ctx, m, x, true, &mut r) && Z3_get_numeral_uint64(self.ctx, r, &mut n) {
                            out.push((v.id, n));
                        }
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    Res::Sat(Arc::new(out))
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            let failed = Z3_get_error_code(self.ctx) != 0;
            if incremental {
                Z3_solver_pop(self.ctx, self.solver, 1);
            }
            if failed {
                return Res::Unknown;
            }
            out
        }
    }
    pub fn smt2(&mut self, conds: &[Ex], vars: &[VarDecl]) -> String {
        unsafe {
            Z3_solver_push(self.ctx, self.solver);
            self.assert_all(conds, vars);
            let s = CStr::from_ptr(Z3_solver_to_string(self.ctx, self.solver)).to_string_lossy().into_owned();
            Z3_solver_pop(self.ctx, self.solver, 1);
            s
        }
    }

    /// Non-linear real query: is `a*d = b*c` violated for some positive atoms?
    /// (a/b and c/d are the two rational functions.)  Returns a witness.
    pub fn real_differs(&mut self, a: &crate::real::Rf, b: &crate::real::Rf) -> Result<Option<Vec<(u32, f64)>>, String> {
        unsafe {
            let c = self.ctx;
            let mut atoms = std::collections::BTreeSet::new();
            a.atoms(&mut atoms);
            b.atoms(&mut atoms);
            // both sides multiplied out, common terms cancelled
            let (l, r) = crate::real::cross(a, b);
            if l.is_empty() && r.is_empty() {
                return Ok(None); // the difference is the zero polynomial
            }
            if let Some(w) = crate::real::differ_at(&l, &r, &atoms) {
                return Ok(Some(w));
            }
            let s = Z3_mk_solver(c);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = self.sym("timeout");
            Z3_params_set_uint(c, p, k, self.timeout_ms);
            Z3_solver_set_params(c, s, p);
            let rs = Z3_mk_real_sort(c);
            let zero = CString::new("0").unwrap();
            let zero = Z3_mk_numeral(c, zero.as_ptr(), rs);
            let mk = |z: &Z3, i: u32| Z3_mk_const(c, z.sym(&format!("p{}", i)), rs);
            for &i in &atoms {
                let f = Z3_mk_lt(c, zero, mk(self, i));
                Z3_solver_assert(c, s, f);
            }
            let poly = |z: &Z3, p: &crate::real::Poly| -> P {
                let mut terms = vec![zero];
                for (m, co) in p.iter() {
                    let t = CString::new(co.to_string()).unwrap();
                    let mut f = vec![Z3_mk_numeral(c, t.as_ptr(), rs)];
                    for &(v, e) in m {
                        for _ in 0..e {
                            f.push(mk(z, v));
                        }
                    }
                    terms.push(if f.len() == 1 { f[0] } else { Z3_mk_mul(c, f.len() as c_uint, f.as_ptr()) });
                }
                Z3_mk_add(c, terms.len() as c_uint, terms.as_ptr())
            };
            let (l, r) = (poly(self, &l), poly(self, &r));
            let ne = Z3_mk_not(c, Z3_mk_eq(c, l, r));
            Z3_solver_assert(c, s, ne);
            let res = Z3_solver_check(c, s);
            let out = match res {
                -1 => Ok(None),
                1 => {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let mut w = vec![];
                    for &i in &atoms {
                        let mut r: P = std::ptr::null_mut();
                        let mut v = 1.0;
                        if Z3_model_eval(c, m, mk(self, i), true, &mut r) {
                            let t = CStr::from_ptr(Z3_get_numeral_string(c, r)).to_string_lossy().into_owned();
                            if let Some((n, d)) = t.split_once('/') {
                                v = n.parse::<f64>().unwrap_or(1.0) / d.parse::<f64>().unwrap_or(1.0);
                            } else {
                                v = t.parse().unwrap_or(1.0);
                            }
                        }
                        w.push((i, v));
                    }
                    Z3_model_dec_ref(c, m);
                    Ok(Some(w))
                }
                _ => Err("z3 gave no answer on a real query".into()),
            };
            Z3_solver_dec_ref(c, s);
            out
        }
    }
}
impl Drop for Z3 {
    fn drop(&mut self) {
        self.close()
    }
}
