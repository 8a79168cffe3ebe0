//! Symbolic expressions (bit-vectors up to 128 bits, scaled-integer floats).
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::sync::Arc;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    #[inline]
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    #[inline]
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
    }
    #[inline]
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    #[inline]
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
    #[inline]
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

pub type Ex = Arc<Expr>;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}

#[derive(Debug)]
pub enum K {
    Const(u128),
    Var { id: u32, lo: u64, hi: u64 },
    Not(Ex),
    Bin(B, Ex, Ex),
    Ite(Ex, Ex, Ex),
    Extract(u32, Ex),
    Concat(Ex, Ex),
    Zext(Ex),
    Sext(Ex),
    /// value = tab[idx - base]; idx is known to stay inside the table
    Table { idx: Ex, base: u64, tab: Arc<Vec<u64>> },
    /// the IEEE double with exact value e * 2^-scale (|e| < 2^53)
    FInt { e: Ex, scale: i32, lo: i64, hi: i64 },
    /// real-algebra double, see real.rs: log (true) or plain (false) of a rational function
    Real(bool, Arc<crate::real::Rf>),
}

#[derive(Clone, Copy, PartialEq, Eq, Default, Debug)]
pub struct VarSet(pub [u64; 4]);
impl VarSet {
    pub fn one(id: u32) -> Self {
        let i = id.min(255) as usize;
        let mut s = [0u64; 4];
        s[i / 64] = 1 << (i % 64);
        VarSet(s)
    }
    pub fn or(self, o: Self) -> Self {
        VarSet([self.0[0] | o.0[0], self.0[1] | o.0[1], self.0[2] | o.0[2], self.0[3] | o.0[3]])
    }
    pub fn meets(self, o: Self) -> bool {
        (self.0[0] & o.0[0]) | (self.0[1] & o.0[1]) | (self.0[2] & o.0[2]) | (self.0[3] & o.0[3]) != 0
    }
    pub fn sub(self, o: Self) -> Self {
        VarSet([self.0[0] & !o.0[0], self.0[1] & !o.0[1], self.0[2] & !o.0[2], self.0[3] & !o.0[3]])
    }
    pub fn is_empty(self) -> bool {
        self.0 == [0; 4]
    }
    /// the only member, when there is exactly one and it is exact (not the overflow slot)
    pub fn single(self) -> Option<u32> {
        let mut n = 0;
        let mut id = 0;
        for i in 0..4 {
            n += self.0[i].count_ones();
            if self.0[i] != 0 {
                id = i as u32 * 64 + self.0[i].trailing_zeros();
            }
        }
        if n == 1 && id != 255 {
            Some(id)
        } else {
            None
        }
    }
    pub fn has(self, id: u32) -> bool {
        self.meets(VarSet::one(id))
    }
    pub fn count(self) -> u32 {
        self.0.iter().map(|x| x.count_ones()).sum()
    }
}

#[derive(Debug)]
pub struct Expr {
    pub h: u64,
    pub w: u8,
    pub k: K,
    pub lo: u64,
    pub hi: u64,
    pub vars: VarSet,
}

#[inline]
pub fn mask(w: u32) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}
#[inline]
pub fn mask128(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn sx(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}
pub fn sx128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

fn hmix(vals: &[u64]) -> u64 {
    let mut h = 0x9e3779b97f4a7c15u64;
    for &v in vals {
        h ^= v.wrapping_add(0x9e3779b97f4a7c15).wrapping_add(h << 6).wrapping_add(h >> 2);
        h = h.wrapping_mul(0xff51afd7ed558ccd);
        h ^= h >> 32;
    }
    h
}

fn mk(w: u32, k: K, lo: u64, hi: u64) -> Ex {
    let (h, vars) = match &k {
        K::Const(c) => (hmix(&[1, *c as u64, (*c >> 64) as u64, w as u64]), VarSet::default()),
        K::Var { id, lo, hi } => (hmix(&[2, *id as u64, *lo, *hi, w as u64]), VarSet::one(*id)),
        K::Not(a) => (hmix(&[3, a.h]), a.vars),
        K::Bin(op, a, b) => (hmix(&[4 + ((*op as u64) << 8), a.h, b.h]), a.vars.or(b.vars)),
        K::Ite(c, a, b) => (hmix(&[5, c.h, a.h, b.h]), c.vars.or(a.vars).or(b.vars)),
        K::Extract(o, a) => (hmix(&[6, *o as u64, w as u64, a.h]), a.vars),
        K::Concat(a, b) => (hmix(&[7, a.h, b.h]), a.vars.or(b.vars)),
        K::Zext(a) => (hmix(&[8, w as u64, a.h]), a.vars),
        K::Sext(a) => (hmix(&[9, w as u64, a.h]), a.vars),
        K::Table { idx, base, tab } => {
            let mut hh = hmix(&[10, idx.h, *base, w as u64, tab.len() as u64]);
            for t in tab.iter() {
                hh = (hh ^ t).wrapping_mul(0x100000001b3).rotate_left(7);
            }
            (hmix(&[hh]), idx.vars)
        }
        K::FInt { e, scale, .. } => (hmix(&[11, e.h, *scale as u64]), e.vars),
        K::Real(l, r) => (hmix(&[12, *l as u64, r.hash()]), VarSet::default()),
    };
    Arc::new(Expr { h, w: w as u8, k, lo, hi, vars })
}

pub fn cst(v: u64, w: u32) -> Ex {
    let v = v & mask(w);
    mk(w, K::Const(v as u128), v, v)
}
pub fn cst128(v: u128, w: u32) -> Ex {
    let v = v & mask128(w);
    if w <= 64 {
        return cst(v as u64, w);
    }
    mk(w, K::Const(v), 0, !0)
}
pub fn var(id: u32, w: u32, lo: u64, hi: u64) -> Ex {
    mk(w, K::Var { id, lo, hi }, lo, hi)
}
pub fn same(a: &Ex, b: &Ex) -> bool {
    Arc::ptr_eq(a, b) || (a.h == b.h && a.w == b.w && deep(a, b, &mut 2000))
}
fn deep(a: &Ex, b: &Ex, fuel: &mut u32) -> bool {
    if Arc::ptr_eq(a, b) {
        return true;
    }
    if a.h != b.h || a.w != b.w {
        return false;
    }
    if *fuel == 0 {
        return true; // 64-bit structural hashes agree
    }
    *fuel -= 1;
    match (&a.k, &b.k) {
        (K::Const(x), K::Const(y)) => x == y,
        (K::Var { id: x, lo, hi }, K::Var { id: y, lo: l2, hi: h2 }) => x == y && lo == l2 && hi == h2,
        (K::Not(x), K::Not(y)) | (K::Zext(x), K::Zext(y)) | (K::Sext(x), K::Sext(y)) => deep(x, y, fuel),
        (K::Bin(o, x, y), K::Bin(p, z, t)) => o == p && deep(x, z, fuel) && deep(y, t, fuel),
        (K::Ite(c, x, y), K::Ite(d, z, t)) => deep(c, d, fuel) && deep(x, z, fuel) && deep(y, t, fuel),
        (K::Extract(o, x), K::Extract(p, y)) => o == p && deep(x, y, fuel),
        (K::Concat(x, y), K::Concat(z, t)) => deep(x, z, fuel) && deep(y, t, fuel),
        (K::Table { idx, base, tab }, K::Table { idx: i2, base: b2, tab: t2 }) => base == b2 && (Arc::ptr_eq(tab, t2) || tab == t2) && deep(idx, i2, fuel),
        (K::FInt { e, scale, .. }, K::FInt { e: e2, scale: s2, .. }) => scale == s2 && deep(e, e2, fuel),
        (K::Real(l, r), K::Real(m, s)) => l == m && r.same(s),
        _ => false,
    }
}

impl Expr {
    pub fn as_const(&self) -> Option<u128> {
        if let K::Const(c) = self.k {
            Some(c)
        } else {
            None
        }
    }
    pub fn c64(&self) -> Option<u64> {
        if self.w <= 64 && self.lo == self.hi {
            return Some(self.lo);
        }
        if let K::Const(c) = self.k {
            Some(c as u64)
        } else {
            None
        }
    }
    pub fn w(&self) -> u32 {
        self.w as u32
    }
}

pub fn cbin(op: B, a: u128, b: u128, w: u32) -> u128 {
    let m = mask128(w);
    let s = |x| sx128(x, w);
    (match op {
        B::Add => a.wrapping_add(b),
        B::Sub => a.wrapping_sub(b),
        B::Mul => a.wrapping_mul(b),
        B::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        B::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        B::SDiv => {
            if b == 0 {
                if s(a) >= 0 {
                    m
                } else {
                    1
                }
            } else {
                s(a).wrapping_div(s(b)) as u128
            }
        }
        B::SRem => {
            if b == 0 {
                a
            } else {
                s(a).wrapping_rem(s(b)) as u128
            }
        }
        B::And => a & b,
        B::Or => a | b,
        B::Xor => a ^ b,
        B::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        B::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        B::AShr => {
            if b >= w as u128 {
                if s(a) < 0 {
                    m
                } else {
                    0
                }
            } else {
                (s(a) >> b) as u128
            }
        }
        B::Eq => return (a == b) as u128,
        B::Ult => return (a < b) as u128,
        B::Ule => return (a <= b) as u128,
        B::Slt => return (s(a) < s(b)) as u128,
        B::Sle => return (s(a) <= s(b)) as u128,
    }) & m
}

pub fn is_cmp(op: B) -> bool {
    op >= B::Eq
}

pub fn tru() -> Ex {
    cst(1, 1)
}
pub fn fls() -> Ex {
    cst(0, 1)
}
pub fn bconst(b: bool) -> Ex {
    cst(b as u64, 1)
}

pub fn not(a: &Ex) -> Ex {
    if let Some(c) = a.as_const() {
        return cst128(!c, a.w());
    }
    if let K::Not(x) = &a.k {
        return x.clone();
    }
    if a.w == 1 {
        if let K::Bin(op, x, y) = &a.k {
            match op {
                B::Ult => return bin(B::Ule, y, x),
                B::Ule => return bin(B::Ult, y, x),
                B::Slt => return bin(B::Sle, y, x),
                B::Sle => return bin(B::Slt, y, x),
                _ => {}
            }
        }
        return mk(1, K::Not(a.clone()), 0, 1);
    }
    let m = mask(a.w());
    let (lo, hi) = if a.w <= 64 { (!a.hi & m, !a.lo & m) } else { (0, !0) };
    mk(a.w(), K::Not(a.clone()), lo, hi)
}

fn urange(op: B, a: &Ex, b: &Ex, w: u32) -> (u64, u64) {
    let m = mask(w);
    if w > 64 {
        return (0, !0);
    }
    let full = (0, m);
    match op {
        B::Add => {
            let lo = a.lo as u128 + b.lo as u128;
            let hi = a.hi as u128 + b.hi as u128;
            if hi <= m as u128 {
                (lo as u64, hi as u64)
            } else if lo > m as u128 {
                ((lo - m as u128 - 1) as u64, (hi - m as u128 - 1) as u64)
            } else {
                full
            }
        }
        B::Sub => {
            if a.lo >= b.hi {
                (a.lo - b.hi, a.hi - b.lo)
            } else if a.hi < b.lo {
                // always wraps
                (a.lo.wrapping_sub(b.hi) & m, a.hi.wrapping_sub(b.lo) & m)
            } else {
                full
            }
        }
        B::Mul => {
            let hi = a.hi as u128 * b.hi as u128;
            if hi <= m as u128 {
                (a.lo * b.lo, hi as u64)
            } else {
                full
            }
        }
        B::UDiv => {
            if b.lo > 0 {
                (a.lo / b.hi, a.hi / b.lo)
            } else {
                full
            }
        }
        B::URem => {
            if b.lo > 0 {
                if a.hi < b.lo {
                    (a.lo, a.hi)
                } else {
                    (0, (b.hi - 1).min(a.hi))
                }
            } else {
                full
            }
        }
        B::And => (0, a.hi.min(b.hi)),
        B::Or => {
            let top = a.hi | b.hi;
            let h = if top == 0 { 0 } else { !0u64 >> top.leading_zeros() };
            (a.lo.max(b.lo), h & m)
        }
        B::Xor => {
            let top = a.hi | b.hi;
            let h = if top == 0 { 0 } else { !0u64 >> top.leading_zeros() };
            (0, h & m)
        }
        B::Shl => {
            if let Some(s) = b.c64() {
                if s < w as u64 && (a.hi as u128) << s <= m as u128 {
                    return (a.lo << s, a.hi << s);
                }
            }
            full
        }
        B::LShr => {
            if let Some(s) = b.c64() {
                if s < w as u64 {
                    return (a.lo >> s, a.hi >> s);
                }
            }
            (0, a.hi)
        }
        B::AShr => {
            if a.hi <= m >> 1 {
                if let Some(s) = b.c64() {
                    if s < w as u64 {
                        return (a.lo >> s, a.hi >> s);
                    }
                }
                return (0, a.hi);
            }
            full
        }
        _ => (0, 1),
    }
}

/// signed interval if the unsigned interval does not straddle the sign change
fn srange(a: &Ex) -> (i64, i64) {
    let w = a.w();
    let half = mask(w) >> 1;
    if a.hi <= half || a.lo > half {
        (sx(a.lo, w), sx(a.hi, w))
    } else {
        (sx(half + 1, w), half as i64)
    }
}
fn sext_base(a: &Ex) -> Option<(&Ex, i64)> {
    if let K::Sext(x) = &a.k {
        return Some((x, 0));
    }
    None
}
fn srange2(a: &Ex) -> (i64, i64) {
    if let Some((x, _)) = sext_base(a) {
        return srange(x);
    }
    if let K::Bin(B::Add, x, y) = &a.k {
        if a.w == 64 {
            let (l, h) = srange2(x);
            let (l2, h2) = srange2(y);
            if let (Some(l), Some(h)) = (l.checked_add(l2), h.checked_add(h2)) {
                return (l, h);
            }
        }
    }
    if let K::Ite(_, x, y) = &a.k {
        let (l, h) = srange2(x);
        let (l2, h2) = srange2(y);
        return (l.min(l2), h.max(h2));
    }
    srange(a)
}

pub fn bin(op: B, a: &Ex, b: &Ex) -> Ex {
    debug_assert_eq!(a.w, b.w, "{:?} {:?} {:?}", op, a, b);
    let w = a.w();
    if let (Some(x), Some(y)) = (a.as_const(), b.as_const()) {
        let r = cbin(op, x, y, w);
        return if is_cmp(op) { cst(r as u64, 1) } else { cst128(r, w) };
    }
    // constant to the right for commutative operators
    if matches!(op, B::Add | B::Mul | B::And | B::Or | B::Xor | B::Eq) && a.as_const().is_some() {
        return bin(op, b, a);
    }
    let m = mask128(w);
    if let Some(c) = b.as_const() {
        match op {
            B::Add | B::Sub | B::Or | B::Xor | B::Shl | B::LShr | B::AShr if c == 0 => return a.clone(),
            B::Sub => return bin(B::Add, a, &cst128(0u128.wrapping_sub(c), w)),
            B::And if c == 0 => return cst(0, w),
            B::And if c == m => return a.clone(),
            B::Or if c == m => return b.clone(),
            B::Xor if c == m => return not(a),
            B::Mul if c == 0 => return cst(0, w),
            B::Mul if c == 1 => return a.clone(),
            B::Mul if c.is_power_of_two() => return bin(B::Shl, a, &cst(c.trailing_zeros() as u64, w)),
            B::UDiv if c == 1 => return a.clone(),
            B::UDiv if c.is_power_of_two() => return bin(B::LShr, a, &cst(c.trailing_zeros() as u64, w)),
            B::URem if c.is_power_of_two() => return bin(B::And, a, &cst128(c - 1, w)),
            B::Shl | B::LShr if c >= w as u128 => return cst(0, w),
            B::Eq if w == 1 => return if c == 1 { a.clone() } else { not(a) },
            _ => {}
        }
        // nested constants
        if let K::Bin(o2, x, y) = &a.k {
            if let Some(d) = y.as_const() {
                match (op, *o2) {
                    (B::Add, B::Add) => return bin(B::Add, x, &cst128(c.wrapping_add(d), w)),
                    (B::And, B::And) => return bin(B::And, x, &cst128(c & d, w)),
                    (B::Or, B::Or) => return bin(B::Or, x, &cst128(c | d, w)),
                    (B::Xor, B::Xor) => return bin(B::Xor, x, &cst128(c ^ d, w)),
                    (B::Eq, B::Add) => return bin(B::Eq, x, &cst128(c.wrapping_sub(d), w)),
                    (B::Eq, B::Xor) => return bin(B::Eq, x, &cst128(c ^ d, w)),
                    (B::Shl, B::Shl) if c + d < w as u128 => return bin(B::Shl, x, &cst128(c + d, w)),
                    (B::LShr, B::LShr) if c + d < w as u128 => return bin(B::LShr, x, &cst128(c + d, w)),
                    (B::Eq, B::Shl) if w <= 64 && (x.hi as u128) << d <= m => {
                        if c & ((1 << d) - 1) != 0 {
                            return fls();
                        }
                        return bin(B::Eq, x, &cst128(c >> d, w));
                    }
                    (B::LShr, B::Shl) if c == d && w <= 64 && (x.hi as u128) << d <= m => return x.clone(),
                    (B::And, B::Or) if c & d == 0 => return bin(B::And, x, b),
                    (B::And, B::Shl) if d < 64 && c | ((1u128 << d) - 1) == m => return a.clone(),
                    (B::And, B::LShr) if c & (m >> d) == m >> d => return a.clone(),
                    _ => {}
                }
            }
        }
        match (op, &a.k) {
            (B::Eq, K::Zext(x)) => {
                if c > mask128(x.w()) {
                    return fls();
                }
                return bin(B::Eq, x, &cst128(c, x.w()));
            }
            (B::Eq, K::Sext(x)) => {
                let t = c & mask128(x.w());
                if sx128(t, x.w()) as u128 & m != c {
                    return fls();
                }
                return bin(B::Eq, x, &cst128(t, x.w()));
            }
            (B::Eq, K::Concat(x, y)) => {
                let yw = y.w();
                return bin(B::And, &bin(B::Eq, x, &cst128(c >> yw, x.w())), &bin(B::Eq, y, &cst128(c & mask128(yw), yw)));
            }
            (B::Eq, K::Not(x)) => return bin(B::Eq, x, &cst128(!c, w)),
            (B::Ult | B::Ule, K::Zext(x)) => {
                if c > mask128(x.w()) {
                    return tru();
                }
                return bin(op, x, &cst128(c, x.w()));
            }
            (B::And, K::Zext(x)) => {
                if x.w() > 1 || c & 1 == 1 {
                    let t = bin(B::And, x, &cst128(c, x.w()));
                    return zext(&t, w);
                }
                return cst(0, w);
            }
            (B::And, K::Concat(x, y)) => {
                let yw = y.w();
                return concat(&bin(B::And, x, &cst128(c >> yw, x.w())), &bin(B::And, y, &cst128(c, yw)));
            }
            (B::Xor, K::Zext(x)) if c <= mask128(x.w()) => return zext(&bin(B::Xor, x, &cst128(c, x.w())), w),
            (B::LShr, K::Zext(x)) => {
                if c >= x.w() as u128 {
                    return cst(0, w);
                }
                return zext(&bin(B::LShr, x, &cst128(c, x.w())), w);
            }
            (B::LShr, K::Concat(x, y)) if c >= y.w() as u128 => {
                let r = c - y.w() as u128;
                if r >= x.w() as u128 {
                    return cst(0, w);
                }
                return zext(&bin(B::LShr, x, &cst128(r, x.w())), w);
            }
            (B::Eq | B::Ult | B::Ule | B::Slt | B::Sle | B::And | B::Add | B::Xor | B::Or | B::LShr | B::Shl, K::Ite(cc, x, y)) if x.as_const().is_some() || y.as_const().is_some() => {
                return ite(cc, &bin(op, x, b), &bin(op, y, b));
            }
            (B::Eq, K::Table { .. }) | (B::Ult, K::Table { .. }) | (B::Ule, K::Table { .. }) => {
                if let K::Table { idx, base, tab } = &a.k {
                    let t: Vec<u64> = tab.iter().map(|v| cbin(op, *v as u128, c, w) as u64).collect();
                    return table(idx, *base, Arc::new(t), 1);
                }
            }
            _ => {}
        }
        if let K::Table { idx, base, tab } = &a.k {
            if w <= 64 && tab.len() <= 300 && !is_cmp(op) {
                let t: Vec<u64> = tab.iter().map(|v| cbin(op, *v as u128, c, w) as u64).collect();
                return table(idx, *base, Arc::new(t), w);
            }
        }
    } else if let Some(c) = a.as_const() {
        match (op, &b.k) {
            (B::Ult, K::Zext(x)) | (B::Ule, K::Zext(x)) => {
                if c > mask128(x.w()) {
                    return fls();
                }
                return bin(op, &cst128(c, x.w()), x);
            }
            (B::Shl | B::LShr | B::AShr, _) if c == 0 => return a.clone(),
            (B::Sub, K::Ite(cc, x, y)) | (B::Shl, K::Ite(cc, x, y)) | (B::Ult, K::Ite(cc, x, y)) | (B::Ule, K::Ite(cc, x, y)) if x.as_const().is_some() || y.as_const().is_some() => {
                return ite(cc, &bin(op, a, x), &bin(op, a, y));
            }
            _ => {}
        }
    }
    if same(a, b) {
        match op {
            B::Eq | B::Ule | B::Sle => return tru(),
            B::Ult | B::Slt => return fls(),
            B::Sub | B::Xor => return cst(0, w),
            B::And | B::Or => return a.clone(),
            _ => {}
        }
    }
    if w <= 64 {
        match op {
            B::Eq => {
                if a.hi < b.lo || b.hi < a.lo {
                    return fls();
                }
            }
            B::Ult => {
                if a.hi < b.lo {
                    return tru();
                }
                if a.lo >= b.hi {
                    return fls();
                }
            }
            B::Ule => {
                if a.hi <= b.lo {
                    return tru();
                }
                if a.lo > b.hi {
                    return fls();
                }
            }
            B::Slt | B::Sle => {
                let (al, ah) = srange2(a);
                let (bl, bh) = srange2(b);
                if op == B::Slt {
                    if ah < bl {
                        return tru();
                    }
                    if al >= bh {
                        return fls();
                    }
                } else {
                    if ah <= bl {
                        return tru();
                    }
                    if al > bh {
                        return fls();
                    }
                }
                // both sides non-negative: same as unsigned
                if al >= 0 && bl >= 0 {
                    return bin(if op == B::Slt { B::Ult } else { B::Ule }, a, b);
                }
            }
            B::URem if a.hi < b.lo => return a.clone(),
            _ => {}
        }
    }
    match (op, &a.k, &b.k) {
        (B::Eq | B::Ult | B::Ule, K::Zext(x), K::Zext(y)) if x.w == y.w => return bin(op, x, y),
        (B::Eq | B::Slt | B::Sle, K::Sext(x), K::Sext(y)) if x.w == y.w => return bin(op, x, y),
        (B::And | B::Or | B::Xor, K::Zext(x), K::Zext(y)) if x.w == y.w => return zext(&bin(op, x, y), w),
        (B::Eq, K::Concat(x, y), K::Concat(z, t)) if y.w == t.w => return bin(B::And, &bin(B::Eq, x, z), &bin(B::Eq, y, t)),
        // zext(x) | (zext(y) << n)  =>  concat
        (B::Or | B::Add | B::Xor, _, _) if w > 1 => {
            if let Some(r) = join(a, b).or_else(|| join(b, a)) {
                return r;
            }
        }
        _ => {}
    }
    if w == 1 {
        match op {
            B::And | B::Or => {
                if let K::Not(x) = &a.k {
                    if same(x, b) {
                        return bconst(op == B::Or);
                    }
                }
                if let K::Not(x) = &b.k {
                    if same(x, a) {
                        return bconst(op == B::Or);
                    }
                }
            }
            B::Ult => return bin(B::And, &not(a), b),
            B::Ule => return bin(B::Or, &not(a), b),
            _ => {}
        }
    }
    let rw = if is_cmp(op) { 1 } else { w };
    let (lo, hi) = if is_cmp(op) { (0, 1) } else { urange(op, a, b, w) };
    if lo == hi && rw <= 64 {
        return cst(lo, rw);
    }
    // canonical order for commutative operators
    if matches!(op, B::Add | B::Mul | B::And | B::Or | B::Xor | B::Eq) && b.as_const().is_none() && a.h > b.h {
        return mk(rw, K::Bin(op, b.clone(), a.clone()), lo, hi);
    }
    mk(rw, K::Bin(op, a.clone(), b.clone()), lo, hi)
}

/// a = zext(x), b = y << n with n >= |x|
fn join(a: &Ex, b: &Ex) -> Option<Ex> {
    if let (K::Zext(x), K::Bin(B::Shl, y, n)) = (&a.k, &b.k) {
        let n = n.c64()? as u32;
        let w = a.w();
        if n >= x.w() && n < w {
            let hi = extract(y, 0, w - n);
            let lo = zext(x, n);
            return Some(concat(&hi, &lo));
        }
    }
    None
}

pub fn ite(c: &Ex, a: &Ex, b: &Ex) -> Ex {
    debug_assert_eq!(a.w, b.w);
    if let Some(c) = c.as_const() {
        return if c == 1 { a.clone() } else { b.clone() };
    }
    if same(a, b) {
        return a.clone();
    }
    if let K::Not(x) = &c.k {
        return ite(x, b, a);
    }
    let w = a.w();
    if w == 1 {
        match (a.as_const(), b.as_const()) {
            (Some(1), Some(0)) => return c.clone(),
            (Some(0), Some(1)) => return not(c),
            (Some(1), _) => return bin(B::Or, c, b),
            (Some(0), _) => return bin(B::And, &not(c), b),
            (_, Some(1)) => return bin(B::Or, &not(c), a),
            (_, Some(0)) => return bin(B::And, c, a),
            _ => {}
        }
    }
    if let K::Ite(d, x, y) = &a.k {
        if same(c, d) {
            return ite(c, x, b);
        }
        if same(y, b) {
            return ite(&bin(B::And, c, d), x, b);
        }
    }
    if let K::Ite(d, x, y) = &b.k {
        if same(c, d) {
            return ite(c, a, y);
        }
        if same(x, a) {
            return ite(&bin(B::Or, c, d), a, y);
        }
    }
    if let (K::FInt { e: e1, scale: s1, lo: l1, hi: h1 }, K::FInt { e: e2, scale: s2, lo: l2, hi: h2 }) = (&a.k, &b.k) {
        if s1 == s2 {
            return fint(&ite(c, e1, e2), *s1, *l1.min(l2), *h1.max(h2));
        }
    }
    mk(w, K::Ite(c.clone(), a.clone(), b.clone()), a.lo.min(b.lo), a.hi.max(b.hi))
}

pub fn zext(a: &Ex, w: u32) -> Ex {
    if a.w() == w {
        return a.clone();
    }
    debug_assert!(a.w() < w);
    if let Some(c) = a.as_const() {
        return cst128(c, w);
    }
    match &a.k {
        K::Zext(x) => return zext(x, w),
        K::Table { idx, base, tab } if w <= 64 => return table(idx, *base, tab.clone(), w),
        K::Ite(c, x, y) if x.as_const().is_some() && y.as_const().is_some() => return ite(c, &zext(x, w), &zext(y, w)),
        _ => {}
    }
    let (lo, hi) = if w <= 64 { (a.lo, a.hi) } else { (0, !0) };
    mk(w, K::Zext(a.clone()), lo, hi)
}
pub fn sext(a: &Ex, w: u32) -> Ex {
    if a.w() == w {
        return a.clone();
    }
    if let Some(c) = a.as_const() {
        return cst128(sx128(c, a.w()) as u128, w);
    }
    if a.w() <= 64 && a.hi <= mask(a.w()) >> 1 && a.w > 1 {
        return zext(a, w);
    }
    if let K::Sext(x) = &a.k {
        return sext(x, w);
    }
    if a.w == 1 {
        return ite(a, &cst128(!0, w), &cst(0, w));
    }
    mk(w, K::Sext(a.clone()), 0, mask(w))
}
pub fn extract(a: &Ex, lo: u32, w: u32) -> Ex {
    if lo == 0 && w == a.w() {
        return a.clone();
    }
    debug_assert!(lo + w <= a.w());
    if let Some(c) = a.as_const() {
        return cst128(c >> lo, w);
    }
    match &a.k {
        K::Zext(x) => {
            if lo >= x.w() {
                return cst(0, w);
            }
            if lo + w <= x.w() {
                return extract(x, lo, w);
            }
            return zext(&extract(x, lo, x.w() - lo), w);
        }
        K::Sext(x) if lo + w <= x.w() => return extract(x, lo, w),
        K::Sext(x) if lo == 0 && w > x.w() => return sext(x, w),
        K::Extract(o, x) => return extract(x, lo + o, w),
        K::Concat(x, y) => {
            if lo >= y.w() {
                return extract(x, lo - y.w(), w);
            }
            if lo + w <= y.w() {
                return extract(y, lo, w);
            }
            return concat(&extract(x, 0, lo + w - y.w()), &extract(y, lo, y.w() - lo));
        }
        K::Bin(op @ (B::And | B::Or | B::Xor), x, y) => return bin(*op, &extract(x, lo, w), &extract(y, lo, w)),
        K::Bin(op @ (B::Add | B::Sub | B::Mul), x, y) if lo == 0 => return bin(*op, &extract(x, 0, w), &extract(y, 0, w)),
        K::Bin(B::Shl, x, y) => {
            if let Some(s) = y.c64() {
                let s = s as u32;
                if lo >= s {
                    return extract(x, lo - s, w);
                }
                if lo + w <= s {
                    return cst(0, w);
                }
                if lo == 0 && s < w {
                    return bin(B::Shl, &extract(x, 0, w), &cst(s as u64, w));
                }
            }
        }
        K::Bin(B::LShr, x, y) => {
            if let Some(s) = y.c64() {
                if s as u32 + lo + w <= x.w() {
                    return extract(x, lo + s as u32, w);
                }
            }
        }
        K::Not(x) => return not(&extract(x, lo, w)),
        K::Ite(c, x, y) => return ite(c, &extract(x, lo, w), &extract(y, lo, w)),
        K::Table { idx, base, tab } => {
            let t: Vec<u64> = tab.iter().map(|v| (v >> lo) & mask(w)).collect();
            return table(idx, *base, Arc::new(t), w);
        }
        _ => {}
    }
    let (l, h) = if a.w <= 64 && lo == 0 && a.hi <= mask(w) { (a.lo, a.hi) } else { (0, mask(w)) };
    mk(w, K::Extract(lo, a.clone()), l, h)
}
/// a: high part, b: low part
pub fn concat(a: &Ex, b: &Ex) -> Ex {
    let w = a.w() + b.w();
    debug_assert!(w <= 128);
    if let Some(c) = a.as_const() {
        if c == 0 {
            return zext(b, w);
        }
        if let Some(d) = b.as_const() {
            return cst128(c << b.w() | d, w);
        }
    }
    if let (K::Extract(o, x), K::Extract(p, y)) = (&a.k, &b.k) {
        if *o == p + b.w() && same(x, y) {
            return extract(x, *p, w);
        }
    }
    if let K::Extract(o, x) = &a.k {
        // concat(extract(x, n..), x[0..n]) where the low part was simplified
        if *o == b.w() && same(&extract(x, 0, b.w()), b) {
            return extract(x, 0, w);
        }
    }
    let (lo, hi) = if w <= 64 { (a.lo << b.w() | b.lo, a.hi << b.w() | b.hi) } else { (0, !0) };
    mk(w, K::Concat(a.clone(), b.clone()), lo, hi)
}
pub fn table(idx: &Ex, base: u64, tab: Arc<Vec<u64>>, w: u32) -> Ex {
    if let Some(c) = idx.c64() {
        return cst(tab[(c - base) as usize], w);
    }
    let lo = *tab.iter().min().unwrap();
    let hi = *tab.iter().max().unwrap();
    if lo == hi {
        return cst(lo, w);
    }
    // drop zero extensions of the index
    if let K::Zext(x) = &idx.k {
        return table(&x.clone(), base, tab, w);
    }
    mk(w, K::Table { idx: idx.clone(), base, tab }, lo, hi)
}
pub fn fint(e: &Ex, scale: i32, lo: i64, hi: i64) -> Ex {
    debug_assert_eq!(e.w, 64);
    mk(64, K::FInt { e: e.clone(), scale, lo, hi }, 0, !0)
}
pub fn real(log: bool, r: crate::real::Rf) -> Ex {
    mk(64, K::Real(log, Arc::new(r)), 0, !0)
}
pub fn and(a: &Ex, b: &Ex) -> Ex {
    bin(B::And, a, b)
}
pub fn or(a: &Ex, b: &Ex) -> Ex {
    bin(B::Or, a, b)
}
pub fn eqc(a: &Ex, c: u64) -> Ex {
    bin(B::Eq, a, &cst(c, a.w()))
}

pub fn pow2(s: i32) -> f64 {
    // exact for the small exponents used here
    f64::from_bits(((1023 + s as i64) as u64) << 52)
}

/// Evaluate under an assignment of variables.
pub fn eval(e: &Ex, get: &dyn Fn(u32) -> u64, memo: &mut FxMap<*const Expr, u128>) -> u128 {
    match &e.k {
        K::Const(c) => return *c,
        K::Var { id, .. } => return get(*id) as u128,
        _ => {}
    }
    let big = Arc::strong_count(e) > 1;
    if big {
        if let Some(v) = memo.get(&Arc::as_ptr(e)) {
            return *v;
        }
    }
    let w = e.w();
    let r = match &e.k {
        K::Const(_) | K::Var { .. } => unreachable!(),
        K::Not(a) => !eval(a, get, memo) & mask128(w),
        K::Bin(op, a, b) => {
            let x = eval(a, get, memo);
            if w == 1 && *op == B::And && x == 0 {
                0
            } else if w == 1 && *op == B::Or && x == 1 {
                1
            } else {
                cbin(*op, x, eval(b, get, memo), a.w())
            }
        }
        K::Ite(c, a, b) => {
            if eval(c, get, memo) == 1 {
                eval(a, get, memo)
            } else {
                eval(b, get, memo)
            }
        }
        K::Extract(lo, a) => (eval(a, get, memo) >> lo) & mask128(w),
        K::Concat(a, b) => eval(a, get, memo) << b.w() | eval(b, get, memo),
        K::Zext(a) => eval(a, get, memo),
        K::Sext(a) => sx128(eval(a, get, memo), a.w()) as u128 & mask128(w),
        K::Table { idx, base, tab } => {
            let i = (eval(idx, get, memo) as u64).wrapping_sub(*base);
            *tab.get(i as usize).unwrap_or(&0) as u128
        }
        K::FInt { e, scale, .. } => ((eval(e, get, memo) as i64 as f64) * pow2(-*scale)).to_bits() as u128,
        K::Real(..) => 0,
    };
    if big {
        memo.insert(Arc::as_ptr(e), r);
    }
    r
}

/// Rebuild with some variables replaced by constants.
pub fn subst(e: &Ex, known: VarSet, get: &dyn Fn(u32) -> Option<u64>, memo: &mut FxMap<*const Expr, Ex>) -> Ex {
    if !e.vars.meets(known) {
        return e.clone();
    }
    if let Some(v) = memo.get(&Arc::as_ptr(e)) {
        return v.clone();
    }
    let r = match &e.k {
        K::Const(_) | K::Real(..) => e.clone(),
        K::Var { id, .. } => match get(*id) {
            Some(v) => cst(v, e.w()),
            None => e.clone(),
        },
        K::Not(a) => not(&subst(a, known, get, memo)),
        K::Bin(op, a, b) => bin(*op, &subst(a, known, get, memo), &subst(b, known, get, memo)),
        K::Ite(c, a, b) => {
            let c = subst(c, known, get, memo);
            match c.as_const() {
                Some(1) => subst(a, known, get, memo),
                Some(_) => subst(b, known, get, memo),
                None => ite(&c, &subst(a, known, get, memo), &subst(b, known, get, memo)),
            }
        }
        K::Extract(lo, a) => extract(&subst(a, known, get, memo), *lo, e.w()),
        K::Concat(a, b) => concat(&subst(a, known, get, memo), &subst(b, known, get, memo)),
        K::Zext(a) => zext(&subst(a, known, get, memo), e.w()),
        K::Sext(a) => sext(&subst(a, known, get, memo), e.w()),
        K::Table { idx, base, tab } => table(&subst(idx, known, get, memo), *base, tab.clone(), e.w()),
        K::FInt { e: x, scale, lo, hi } => {
            let y = subst(x, known, get, memo);
            match y.as_const() {
                Some(c) => cst(((c as i64 as f64) * pow2(-*scale)).to_bits(), 64),
                None => fint(&y, *scale, *lo, *hi),
            }
        }
    };
    memo.insert(Arc::as_ptr(e), r.clone());
    r
}

pub fn collect_vars(e: &Ex, out: &mut FxMap<u32, (u32, u64, u64)>, seen: &mut FxSet<*const Expr>) {
    if e.vars.is_empty() || !seen.insert(Arc::as_ptr(e)) {
        return;
    }
    match &e.k {
        K::Const(_) | K::Real(..) => {}
        K::Var { id, lo, hi } => {
            out.insert(*id, (e.w(), *lo, *hi));
        }
        K::Not(a) | K::Extract(_, a) | K::Zext(a) | K::Sext(a) => collect_vars(a, out, seen),
        K::Bin(_, a, b) | K::Concat(a, b) => {
            collect_vars(a, out, seen);
            collect_vars(b, out, seen)
        }
        K::Ite(c, a, b) => {
            collect_vars(c, out, seen);
            collect_vars(a, out, seen);
            collect_vars(b, out, seen)
        }
        K::Table { idx, .. } => collect_vars(idx, out, seen),
        K::FInt { e, .. } => collect_vars(e, out, seen),
    }
}

/// IEEE bits of a scaled-integer float as a bit-vector expression.
pub fn fint_bits(x: &Ex) -> Ex {
    let (e, scale, lo, hi) = match &x.k {
        K::FInt { e, scale, lo, hi } => (e, *scale, *lo, *hi),
        _ => return x.clone(),
    };
    let z = cst(0, 64);
    let neg = bin(B::Slt, e, &z);
    let abs = ite(&neg, &bin(B::Sub, &z, e), e);
    let maxabs = lo.unsigned_abs().max(hi.unsigned_abs());
    let mut r = z.clone();
    let mut n = 1u32; // bit length
    while n <= 64 - maxabs.leading_zeros() {
        // |e| in [2^(n-1), 2^n): exponent n-1-scale
        let ex = (1023 + (n as i64 - 1) - scale as i64) as u64;
        let mant = bin(B::And, &bin(B::Shl, &abs, &cst((53 - n) as u64, 64)), &cst((1 << 52) - 1, 64));
        let v = bin(B::Or, &mant, &cst(ex << 52, 64));
        r = ite(&bin(B::Ule, &cst(1 << (n - 1), 64), &abs), &v, &r);
        n += 1;
    }
    ite(&neg, &bin(B::Or, &r, &cst(1 << 63, 64)), &r)
}
