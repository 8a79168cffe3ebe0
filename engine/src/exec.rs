//! Symbolic execution of LLVM IR.
use crate::expr::*;
use crate::ext::Ext;
use crate::ir::*;
use crate::mem::*;
use crate::real::Rf;
use crate::solver::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Instant;

#[derive(Clone)]
pub struct Frame {
    pub f: Arc<Func>,
    pub fid: u32,
    pub pc: u32,
    pub regs: Vec<V>,
    pub ret: i32,
    pub sp: u64,
}
#[derive(Clone, Debug)]
pub enum In {
    /// value of the variable plus an offset (as i64)
    Var(u32, i64),
    Const(u64),
    Atom(u32),
}
#[derive(Clone)]
pub enum Cell8 {
    B(u8),
    S(Ex),
}
#[derive(Clone, Default)]
pub struct Fs {
    pub files: BTreeMap<Vec<u8>, Arc<Vec<Cell8>>>,
    /// fd -> (path, position, append)
    pub fds: BTreeMap<u64, (Vec<u8>, u64, bool)>,
}
#[derive(Clone)]
pub struct State {
    pub mem: Mem,
    pub top: Frame,
    pub stack: Vec<Arc<Frame>>,
    pub sp: u64,
    pub brk: u64,
    pub free: [u64; 48],
    pub path: Path,
    pub inputs: Vec<In>,
    pub obs: Vec<V>,
    pub reached: Vec<u64>,
    pub steps: u64,
    pub panic_ok: bool,
    pub hash_const: bool,
    pub real_mode: bool,
    pub fs: Arc<Fs>,
    pub natoms: u32,
    pub depth: u32,
    pub failed: u32,
    pub clock: u64,
}

#[derive(Debug)]
pub enum Stop {
    /// decide this condition, then run the instruction again
    Split(Ex),
    /// every value of this fresh variable gets its own path
    Choose(Ex),
    /// path out of the assumed set
    Kill,
    End(End),
}
#[derive(Debug, Clone)]
pub enum End {
    Done,
    /// permitted panic
    Panicked,
    Violation(Kind, String),
    Error(String),
}
#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    Assert(u64),
    Panic,
    Hang,
    Abort,
    Memory,
}
type R<T> = Result<T, Stop>;

pub struct Viol {
    pub kind: Kind,
    pub msg: String,
    pub inputs: Vec<u64>,
    pub real: bool,
    pub path: String,
}
pub struct Sample {
    pub inputs: Vec<u64>,
    pub obs: Vec<u64>,
    pub end: &'static str,
}
pub struct Config {
    pub entry: String,
    pub tier: u64,
    pub max_steps: u64,
    pub max_secs: u64,
    pub max_heap: u64,
    pub max_paths: u64,
    pub threads: usize,
    pub z3_ms: u32,
    pub samples: usize,
    pub max_viol: usize,
}
pub struct Global_ {
    pub m: Module,
    pub cfg: Config,
    pub sh: Arc<Shared>,
    pub queue: Mutex<Vec<State>>,
    pub cv: Condvar,
    pub idle: AtomicUsize,
    pub active: AtomicUsize,
    pub stop: AtomicBool,
    pub timed_out: AtomicBool,
    pub start: Instant,
    pub paths: AtomicU64,
    pub killed: AtomicU64,
    pub panicked: AtomicU64,
    pub forks: AtomicU64,
    pub steps: AtomicU64,
    pub max_path_steps: AtomicU64,
    pub viols: Mutex<Vec<Viol>>,
    pub errors: Mutex<BTreeMap<String, u64>>,
    pub reach: Mutex<BTreeMap<u64, u64>>,
    pub samples: Mutex<Vec<Sample>>,
    pub calls: Vec<AtomicBool>,
    pub forkpc: Mutex<FxMap<(u32, u32), u64>>,
    pub stack_top: u64,
    pub heap_base: u64,
    pub cell: u64,
    pub unknown_fn: Mutex<BTreeMap<String, u64>>,
}

pub struct Exec {
    pub g: Arc<Global_>,
    pub sol: Solver,
    nsamp: u64,
    forks: FxMap<(u32, u32), u64>,
    called: Vec<bool>,
}

fn err<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::End(End::Error(s.into())))
}
fn viol<T>(k: Kind, s: impl Into<String>) -> R<T> {
    Err(Stop::End(End::Violation(k, s.into())))
}
#[inline]
fn c128(v: u128, w: u32) -> V {
    if w <= 64 {
        V::C(v as u64 & mask(w))
    } else {
        V::big(v & mask128(w))
    }
}
/// exact dyadic decomposition v = m * 2^-s
fn dyadic(v: f64) -> Option<(i64, i32)> {
    if v == 0.0 {
        return Some((0, 0));
    }
    if !v.is_finite() {
        return None;
    }
    let b = v.to_bits();
    let e = ((b >> 52) & 0x7ff) as i32;
    if e == 0 {
        return None;
    }
    let mut m = ((b & ((1 << 52) - 1)) | 1 << 52) as i64;
    let mut s = 1075 - e;
    let t = m.trailing_zeros() as i32;
    m >>= t;
    s -= t;
    if s < 0 {
        if -s > 8 {
            return None;
        }
        m <<= -s;
        s = 0;
        if m >= 1 << 53 {
            return None;
        }
    }
    if s > 60 {
        return None;
    }
    Some((if v < 0.0 { -m } else { m }, s))
}
#[derive(Clone)]
struct FI {
    e: Ex,
    s: i32,
    lo: i64,
    hi: i64,
}
impl FI {
    fn scale_to(&self, s: i32) -> Option<FI> {
        let d = s - self.s;
        if d == 0 {
            return Some(self.clone());
        }
        let k = 1i64.checked_shl(d as u32)?;
        let lo = self.lo.checked_mul(k)?;
        let hi = self.hi.checked_mul(k)?;
        if lo.unsigned_abs() > 1 << 61 || hi.unsigned_abs() > 1 << 61 {
            return None;
        }
        Some(FI { e: bin(B::Mul, &self.e, &cst(k as u64, 64)), s, lo, hi })
    }
    fn v(self) -> Option<V> {
        const L: i64 = 1 << 53;
        if self.lo <= -L || self.hi >= L {
            return None;
        }
        if let Some(c) = self.e.c64() {
            return Some(V::C(((c as i64 as f64) * pow2(-self.s)).to_bits()));
        }
        Some(V::S(fint(&self.e, self.s, self.lo, self.hi)))
    }
}

impl Exec {
    pub fn new(g: Arc<Global_>) -> Exec {
        let sol = Solver::new(g.sh.clone(), g.cfg.z3_ms);
        let n = g.m.funcs.len();
        Exec { g, sol, nsamp: 0, forks: Default::default(), called: vec![false; n] }
    }

    // ---------- values ----------
    #[inline]
    fn get<'a>(&self, st: &'a State, o: O) -> &'a V {
        if o.0 >= 0 {
            &st.top.regs[o.0 as usize]
        } else {
            &st.top.f.consts[(-o.0 - 1) as usize]
        }
    }
    /// bit-vector expression of a value
    fn ex(&self, st: &State, v: &V, w: u32) -> R<Ex> {
        Ok(match v {
            V::C(c) => cst(*c, w),
            V::Big(b) => cst128(**b, w),
            V::S(e) => self.bits(st, e)?,
            V::A(_) => return err("aggregate used as integer"),
        })
    }
    fn bits(&self, st: &State, e: &Ex) -> R<Ex> {
        let e = st.path.simp(e);
        match &e.k {
            K::FInt { e: x, scale, .. } => {
                if let Some(id) = x.vars.single() {
                    let vi = &st.path.vars[id as usize];
                    if vi.dom.is_some() {
                        let mut tab = Vec::with_capacity(256);
                        for k in vi.lo..=vi.hi {
                            let v = eval(x, &|_| k, &mut Default::default()) as i64;
                            tab.push((v as f64 * pow2(-*scale)).to_bits());
                        }
                        return Ok(table(&var(id, vi.w, vi.lo, vi.hi), vi.lo, Arc::new(tab), 64));
                    }
                }
                Ok(fint_bits(&e))
            }
            K::Real(..) => err("bits of a real-algebra value"),
            _ => Ok(e),
        }
    }
    /// integer value that must be concrete; splits the path until it is
    fn conc(&mut self, st: &State, v: &V, w: u32) -> R<u64> {
        match v {
            V::C(c) => Ok(*c),
            V::Big(b) => Ok(**b as u64),
            V::S(_) => {
                let e = self.ex(st, v, w)?;
                if let Some(c) = e.as_const() {
                    return Ok(c as u64);
                }
                let x = st.path.eval(&e);
                let c = bin(B::Eq, &e, &cst128(x, e.w()));
                if self.cond(st, &c)? {
                    return Ok(x as u64);
                }
                err("inconsistent model")
            }
            V::A(_) => err("aggregate used as integer"),
        }
    }
    /// decided condition or a split
    fn cond(&mut self, st: &State, c: &Ex) -> R<bool> {
        let c = st.path.simp(c);
        if let Some(b) = c.as_const() {
            return Ok(b == 1);
        }
        let (t, f) = self.sol.decide(&st.path, &c);
        match (&t, &f) {
            (Side::Unknown, _) | (_, Side::Unknown) => err("solver gave no answer (branch)"),
            (Side::Yes(_), Side::No) => Ok(true),
            (Side::No, Side::Yes(_)) => Ok(false),
            (Side::No, Side::No) => err("infeasible path"),
            _ => Err(Stop::Split(c)),
        }
    }
    fn addr(&mut self, st: &State, v: &V) -> R<u64> {
        match v {
            V::C(c) => Ok(*c),
            v => {
                let v = v.clone();
                self.conc(st, &v, 64)
            }
        }
    }
    fn chk(&self, st: &State, a: u64, n: u64) -> R<()> {
        if a < GLOB_BASE || a.wrapping_add(n) > st.brk + 64 || a.wrapping_add(n) < a {
            return viol(Kind::Memory, format!("access to {:#x} ({} bytes) in {}", a, n, st.top.f.name));
        }
        Ok(())
    }
    fn rd(&self, st: &State, a: u64, w: u32, n: usize) -> R<V> {
        self.chk(st, a, n as u64)?;
        Ok(match st.mem.read(a, n) {
            Rd::C(c) => c128(c & mask128(w), w),
            Rd::S(e) => {
                if w == 64 && n == 8 {
                    V::S(e)
                } else {
                    let e = self.bits(st, &e)?;
                    V::s(extract(&e, 0, w))
                }
            }
        })
    }
    fn wr(&self, st: &mut State, a: u64, w: u32, n: usize, v: &V) -> R<()> {
        self.chk(st, a, n as u64)?;
        match v {
            V::C(c) => st.mem.write(a, n, *c as u128),
            V::Big(b) => st.mem.write(a, n, **b),
            V::S(e) => {
                let e = if w as usize == n * 8 { e.clone() } else { zext(&self.bits(st, e)?, n as u32 * 8) };
                st.mem.write_sym(a, n, &e)
            }
            V::A(_) => return err("aggregate store"),
        }
        Ok(())
    }
    fn load_ty(&self, st: &State, a: u64, t: &Ty) -> R<V> {
        match t {
            Ty::Vec(n, e) if e.bits() % 8 == 0 => {
                let sz = e.bits() as u64 / 8;
                let mut o = vec![];
                for i in 0..*n {
                    o.push(self.rd(st, a + i * sz, e.bits(), sz as usize)?)
                }
                Ok(V::A(Arc::new(o)))
            }
            Ty::Arr(n, e) => {
                let mut o = vec![];
                for i in 0..*n {
                    o.push(self.load_ty(st, a + i * e.size(), e)?)
                }
                Ok(V::A(Arc::new(o)))
            }
            Ty::Struct(f, _) => {
                let mut o = vec![];
                for i in 0..f.len() {
                    let (off, t) = t.field(i as u64);
                    o.push(self.load_ty(st, a + off, t)?)
                }
                Ok(V::A(Arc::new(o)))
            }
            // bits are packed in memory, first lane lowest
            Ty::Vec(n, e) => {
                let (w, b) = (t.bits(), e.bits());
                let x = self.rd(st, a, w, t.store_size() as usize)?;
                let mut o = vec![];
                for i in 0..*n as u32 {
                    o.push(match &x {
                        V::C(c) => V::C((c >> (i * b)) & mask(b)),
                        x => V::s(extract(&self.ex(st, x, w)?, i * b, b)),
                    })
                }
                Ok(V::A(Arc::new(o)))
            }
            t => self.rd(st, a, t.bits(), t.store_size() as usize),
        }
    }
    fn store_ty(&self, st: &mut State, a: u64, t: &Ty, v: &V) -> R<()> {
        match (t, v) {
            (Ty::Vec(_, e), V::A(l)) if e.bits() % 8 != 0 => {
                let w = t.bits();
                let x = if w <= 64 && l.iter().all(|x| matches!(x, V::C(_))) {
                    V::C(l.iter().enumerate().fold(0, |r, (i, x)| match x {
                        V::C(c) => r | (c & mask(e.bits())) << (i as u32 * e.bits()),
                        _ => r,
                    }))
                } else {
                    V::s(self.flat_bits(st, v, t)?.0)
                };
                self.wr(st, a, w, t.store_size() as usize, &x)
            }
            (Ty::Vec(_, e) | Ty::Arr(_, e), V::A(l)) => {
                let sz = if matches!(t, Ty::Vec(..)) { e.bits() as u64 / 8 } else { e.size() };
                for (i, x) in l.iter().enumerate() {
                    self.store_ty(st, a + i as u64 * sz, e, x)?
                }
                Ok(())
            }
            (Ty::Struct(..), V::A(l)) => {
                for (i, x) in l.iter().enumerate() {
                    let (off, ft) = t.field(i as u64);
                    self.store_ty(st, a + off, ft, x)?
                }
                Ok(())
            }
            _ => self.wr(st, a, t.bits(), t.store_size() as usize, v),
        }
    }

    // ---------- arithmetic ----------
    fn bin1(&mut self, st: &State, op: B, w: u32, a: &V, b: &V) -> R<V> {
        if let (V::C(x), V::C(y)) = (a, b) {
            let m = mask(w);
            return Ok(V::C(match op {
                B::Add => x.wrapping_add(*y) & m,
                B::Sub => x.wrapping_sub(*y) & m,
                B::And => x & y,
                B::Or => x | y,
                B::Xor => x ^ y,
                B::Mul => x.wrapping_mul(*y) & m,
                B::Shl if *y < w as u64 => (x << y) & m,
                B::LShr if *y < w as u64 => x >> y,
                B::UDiv | B::URem | B::SDiv | B::SRem if *y == 0 => return viol(Kind::Abort, "division by zero"),
                _ => cbin(op, *x as u128, *y as u128, w) as u64,
            }));
        }
        let x = self.ex(st, a, w)?;
        let y = self.ex(st, b, w)?;
        if matches!(op, B::UDiv | B::URem | B::SDiv | B::SRem) && y.as_const().is_none() {
            let z = eqc(&y, 0);
            if self.cond(st, &z)? {
                return viol(Kind::Abort, "division by zero");
            }
        }
        Ok(V::s(bin(op, &x, &y)))
    }
    fn icmp1(&mut self, st: &State, p: Ip, w: u32, a: &V, b: &V) -> R<V> {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match p {
                Ip::Eq => x == y,
                Ip::Ne => x != y,
                Ip::Ugt => x > y,
                Ip::Uge => x >= y,
                Ip::Ult => x < y,
                Ip::Ule => x <= y,
                Ip::Sgt => sx(x, w) > sx(y, w),
                Ip::Sge => sx(x, w) >= sx(y, w),
                Ip::Slt => sx(x, w) < sx(y, w),
                Ip::Sle => sx(x, w) <= sx(y, w),
            };
            return Ok(V::C(r as u64));
        }
        let x = self.ex(st, a, w)?;
        let y = self.ex(st, b, w)?;
        Ok(V::s(match p {
            Ip::Eq => bin(B::Eq, &x, &y),
            Ip::Ne => not(&bin(B::Eq, &x, &y)),
            Ip::Ugt => bin(B::Ult, &y, &x),
            Ip::Uge => bin(B::Ule, &y, &x),
            Ip::Ult => bin(B::Ult, &x, &y),
            Ip::Ule => bin(B::Ule, &x, &y),
            Ip::Sgt => bin(B::Slt, &y, &x),
            Ip::Sge => bin(B::Sle, &y, &x),
            Ip::Slt => bin(B::Slt, &x, &y),
            Ip::Sle => bin(B::Sle, &x, &y),
        }))
    }
    fn lanes(&mut self, st: &State, n: u16, a: &V, b: &V, f: &mut dyn FnMut(&mut Exec, &State, &V, &V) -> R<V>) -> R<V> {
        if n == 0 {
            return f(self, st, a, b);
        }
        match (a, b) {
            (V::A(x), V::A(y)) => {
                let mut o = Vec::with_capacity(n as usize);
                for i in 0..n as usize {
                    o.push(f(self, st, &x[i], &y[i])?)
                }
                Ok(V::A(Arc::new(o)))
            }
            _ => err("vector operand"),
        }
    }

    // ---------- floating point ----------
    fn fi(&self, st: &State, v: &V) -> Option<FI> {
        match v {
            V::C(c) => {
                let (m, s) = dyadic(f64::from_bits(*c))?;
                Some(FI { e: cst(m as u64, 64), s, lo: m, hi: m })
            }
            V::S(e) => {
                let e = st.path.simp(e);
                match &e.k {
                    K::FInt { e, scale, lo, hi } => Some(FI { e: e.clone(), s: *scale, lo: *lo, hi: *hi }),
                    K::Const(c) => self.fi(st, &V::C(*c as u64)),
                    _ => None,
                }
            }
            _ => None,
        }
    }
    fn rf(&self, v: &V, log: bool) -> Option<Rf> {
        match v {
            V::C(c) => {
                let f = f64::from_bits(*c);
                if log {
                    if f == 0.0 {
                        Some(Rf::int(1, 1))
                    } else if f == f64::NEG_INFINITY {
                        Some(Rf::int(0, 1))
                    } else if f == f.trunc() && f.abs() <= 1000.0 {
                        // e^f = E^f with the reserved atom E
                        let mut r = Rf::int(1, 1);
                        for _ in 0..f.abs() as u32 {
                            r = r.mul(&Rf::atom(E_ATOM));
                        }
                        Some(if f < 0.0 { r.inv() } else { r })
                    } else {
                        None
                    }
                } else {
                    Rf::from_f64(f)
                }
            }
            V::S(e) => match &e.k {
                K::Real(l, r) if *l == log => Some((**r).clone()),
                _ => None,
            },
            _ => None,
        }
    }
    fn is_real(v: &V) -> Option<bool> {
        match v {
            V::S(e) => match &e.k {
                K::Real(l, _) => Some(*l),
                _ => None,
            },
            _ => None,
        }
    }
    fn real_v(log: bool, r: Rf) -> V {
        if log && r.is_zero() {
            return V::C(f64::NEG_INFINITY.to_bits());
        }
        if log && r == Rf::int(1, 1) {
            return V::C(0);
        }
        if !log {
            if r.is_zero() {
                return V::C(0);
            }
            if r == Rf::int(1, 1) {
                return V::C(1f64.to_bits());
            }
        }
        V::S(real(log, r))
    }
    /// concrete double, by path splitting when symbolic
    fn fconc(&mut self, st: &State, v: &V, dbl: bool) -> R<f64> {
        let b = self.conc(st, v, if dbl { 64 } else { 32 })?;
        Ok(if dbl { f64::from_bits(b) } else { f32::from_bits(b as u32) as f64 })
    }
    fn fbin1(&mut self, st: &State, op: FOp, dbl: bool, a: &V, b: &V) -> R<V> {
        if let (V::C(x), V::C(y)) = (a, b) {
            return Ok(V::C(if dbl {
                let (x, y) = (f64::from_bits(*x), f64::from_bits(*y));
                match op {
                    FOp::Add => x + y,
                    FOp::Sub => x - y,
                    FOp::Mul => x * y,
                    FOp::Div => x / y,
                    FOp::Rem => x % y,
                }
                .to_bits()
            } else {
                let (x, y) = (f32::from_bits(*x as u32), f32::from_bits(*y as u32));
                match op {
                    FOp::Add => x + y,
                    FOp::Sub => x - y,
                    FOp::Mul => x * y,
                    FOp::Div => x / y,
                    FOp::Rem => x % y,
                }
                .to_bits() as u64
            }));
        }
        let ra = Self::is_real(a).or(Self::is_real(b));
        if let Some(log) = ra {
            let (x, y) = match (self.rf(a, log), self.rf(b, log)) {
                (Some(x), Some(y)) => (x, y),
                _ => {
                    // a symbolic operand of another kind is split into its values
                    let (sa, sb) = (Self::is_real(a).is_none() && matches!(a, V::S(_)), Self::is_real(b).is_none() && matches!(b, V::S(_)));
                    if sa || sb {
                        let w = if dbl { 64 } else { 32 };
                        let a2 = if sa { V::C(self.conc(st, a, w)?) } else { a.clone() };
                        let b2 = if sb { V::C(self.conc(st, b, w)?) } else { b.clone() };
                        return self.fbin1(st, op, dbl, &a2, &b2);
                    }
                    return err(format!("real-algebra operands {:?} {:?}", a, b));
                }
            };
            let r = match (log, op) {
                (true, FOp::Add) => x.mul(&y),
                (true, FOp::Sub) if !y.is_zero() => x.mul(&y.inv()),
                (true, FOp::Mul) => {
                    // multiplying a logarithm by a constant
                    let (base, k) = match (a, b) {
                        (V::C(k), _) => (y, f64::from_bits(*k)),
                        (_, V::C(k)) => (x, f64::from_bits(*k)),
                        _ => return err("product of logarithms"),
                    };
                    if k != k.trunc() || k.abs() > 8.0 {
                        return err("non-integer power");
                    }
                    let mut r = Rf::int(1, 1);
                    for _ in 0..k.abs() as u32 {
                        r = r.mul(&base);
                    }
                    if k < 0.0 {
                        r.inv()
                    } else {
                        r
                    }
                }
                (false, FOp::Add) => x.add(&y),
                (false, FOp::Sub) => x.add(&y.neg()),
                (false, FOp::Mul) => x.mul(&y),
                (false, FOp::Div) if !y.is_zero() => x.mul(&y.inv()),
                _ => return err("real-algebra operation"),
            };
            return Ok(Self::real_v(log, r));
        }
        if dbl {
            if let (Some(x), Some(y)) = (self.fi(st, a), self.fi(st, b)) {
                let r = match op {
                    FOp::Add | FOp::Sub => {
                        let s = x.s.max(y.s);
                        match (x.scale_to(s), y.scale_to(s)) {
                            (Some(x), Some(y)) => {
                                if op == FOp::Add {
                                    FI { e: bin(B::Add, &x.e, &y.e), s, lo: x.lo + y.lo, hi: x.hi + y.hi }.v()
                                } else {
                                    FI { e: bin(B::Sub, &x.e, &y.e), s, lo: x.lo - y.hi, hi: x.hi - y.lo }.v()
                                }
                            }
                            _ => None,
                        }
                    }
                    FOp::Mul => {
                        let zero = |f: &FI| f.lo <= 0 && f.hi >= 0;
                        let cs = [x.lo as i128 * y.lo as i128, x.lo as i128 * y.hi as i128, x.hi as i128 * y.lo as i128, x.hi as i128 * y.hi as i128];
                        let lo = *cs.iter().min().unwrap();
                        let hi = *cs.iter().max().unwrap();
                        // a zero factor times a negative one is -0.0
                        if (zero(&x) && y.lo < 0) || (zero(&y) && x.lo < 0) {
                            for f in [&x, &y] {
                                if zero(f) && self.cond(st, &eqc(&f.e, 0))? {
                                    let p = self.fconc(st, a, true)?;
                                    let q = self.fconc(st, b, true)?;
                                    return Ok(V::C((p * q).to_bits()));
                                }
                            }
                        }
                        if lo.abs() < 1 << 53 && hi.abs() < 1 << 53 && x.s + y.s <= 60 {
                            FI { e: bin(B::Mul, &x.e, &y.e), s: x.s + y.s, lo: lo as i64, hi: hi as i64 }.v()
                        } else {
                            None
                        }
                    }
                    FOp::Div => match (y.e.c64(), y.lo) {
                        (Some(_), k) if k > 0 && (k as u64).is_power_of_two() => {
                            // x / (2^t * 2^-ys) = x.e * 2^-(x.s + t - ys)
                            let s = x.s + k.trailing_zeros() as i32 - y.s;
                            if s >= 0 && s <= 60 {
                                FI { e: x.e.clone(), s, lo: x.lo, hi: x.hi }.v()
                            } else if s < 0 && s > -50 {
                                FI { e: x.e.clone(), s, lo: x.lo, hi: x.hi }.scale_to(0).and_then(|f| f.v())
                            } else {
                                None
                            }
                        }
                        _ => None,
                    },
                    FOp::Rem => None,
                };
                if let Some(v) = r {
                    return Ok(v);
                }
            }
        }
        let x = self.fconc(st, a, dbl)?;
        let y = self.fconc(st, b, dbl)?;
        let k = |v: f64| V::C(if dbl { v.to_bits() } else { (v as f32).to_bits() as u64 });
        self.fbin1(st, op, dbl, &k(x), &k(y))
    }
    /// bounds of a rational function for atoms in [2^-10, 1] and E = e
    fn rbounds(r: &Rf) -> Option<(f64, f64)> {
        let p = |p: &crate::real::Poly, up: bool| -> Option<f64> {
            let mut t = 0.0;
            for (m, c) in p {
                if *c < 0 {
                    return None;
                }
                let mut x = *c as f64;
                for (v, e) in m {
                    let b = if *v == E_ATOM {
                        if up {
                            2.7182818285
                        } else {
                            2.7182818284
                        }
                    } else if up {
                        1.0
                    } else {
                        1.0 / 1024.0
                    };
                    x *= f64::powi(b, *e as i32);
                }
                t += x;
            }
            Some(t)
        };
        let (nl, nh) = (p(&r.num, false)?, p(&r.num, true)?);
        let (dl, dh) = (p(&r.den, false)?, p(&r.den, true)?);
        Some((nl / dh * (1.0 - 1e-9), nh / dl * (1.0 + 1e-9)))
    }
    fn fcmp1(&mut self, st: &mut State, p: Fp, dbl: bool, a: &V, b: &V) -> R<V> {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = if dbl { (f64::from_bits(*x), f64::from_bits(*y)) } else { (f32::from_bits(*x as u32) as f64, f32::from_bits(*y as u32) as f64) };
            let u = x.is_nan() || y.is_nan();
            let r = match p {
                Fp::False => false,
                Fp::Oeq => x == y,
                Fp::Ogt => x > y,
                Fp::Oge => x >= y,
                Fp::Olt => x < y,
                Fp::Ole => x <= y,
                Fp::One => !u && x != y,
                Fp::Ord => !u,
                Fp::Uno => u,
                Fp::Ueq => u || x == y,
                Fp::Ugt => u || x > y,
                Fp::Uge => u || x >= y,
                Fp::Ult => u || x < y,
                Fp::Ule => u || x <= y,
                Fp::Une => x != y,
                Fp::True => true,
            };
            return Ok(V::C(r as u64));
        }
        // the operands are never NaN below (constants are checked)
        let nan = |v: &V| matches!(v, V::C(c) if if dbl { f64::from_bits(*c).is_nan() } else { f32::from_bits(*c as u32).is_nan() });
        if nan(a) || nan(b) {
            return Ok(V::C(matches!(p, Fp::Uno | Fp::Ueq | Fp::Ugt | Fp::Uge | Fp::Ult | Fp::Ule | Fp::Une | Fp::True) as u64));
        }
        match p {
            Fp::False | Fp::Uno => return Ok(V::C(0)),
            Fp::True | Fp::Ord => return Ok(V::C(1)),
            _ => {}
        }
        if let Some(log) = Self::is_real(a).or(Self::is_real(b)) {
            return self.real_cmp(st, p, log, a, b);
        }
        #[derive(Clone, Copy, PartialEq)]
        enum C {
            Eq,
            Lt,
            Le,
        }
        let (k, sw, neg) = match p {
            Fp::Oeq | Fp::Ueq => (C::Eq, false, false),
            Fp::One | Fp::Une => (C::Eq, false, true),
            Fp::Olt | Fp::Ult => (C::Lt, false, false),
            Fp::Ole | Fp::Ule => (C::Le, false, false),
            Fp::Ogt | Fp::Ugt => (C::Lt, true, false),
            _ => (C::Le, true, false),
        };
        let (x, y) = if sw { (b, a) } else { (a, b) };
        if dbl {
            let (fx, fy) = (self.fi(st, x), self.fi(st, y));
            let r = match (&fx, &fy) {
                (Some(p), Some(q)) => {
                    let s = p.s.max(q.s);
                    match (p.scale_to(s), q.scale_to(s)) {
                        (Some(p), Some(q)) => {
                            // both sides fit in w bits: compare there
                            let m = p.lo.unsigned_abs().max(p.hi.unsigned_abs()).max(q.lo.unsigned_abs()).max(q.hi.unsigned_abs());
                            let w = 66 - m.leading_zeros();
                            let (x, y) = if w <= 40 { (extract(&p.e, 0, w), extract(&q.e, 0, w)) } else { (p.e.clone(), q.e.clone()) };
                            Some(match k {
                                C::Eq => bin(B::Eq, &x, &y),
                                C::Lt => bin(B::Slt, &x, &y),
                                C::Le => bin(B::Sle, &x, &y),
                            })
                        }
                        _ => None,
                    }
                }
                _ => None,
            };
            let r = match r {
                Some(r) => Some(r),
                // scaled integer against any other constant
                None => match (&fx, &fy, x, y) {
                    (Some(f), _, _, V::C(c)) => {
                        let t = f64::from_bits(*c) * pow2(f.s);
                        Some(match k {
                            C::Eq => int_of(t, f64::floor).filter(|_| t == t.floor()).map_or(fls(), |n| bin(B::Eq, &f.e, &cst(n as u64, 64))),
                            // e < t  <=>  e < ceil(t);  e <= t  <=>  e <= floor(t)
                            C::Lt => int_of(t, f64::ceil).map_or(bconst(t > 0.0), |n| bin(B::Slt, &f.e, &cst(n as u64, 64))),
                            C::Le => int_of(t, f64::floor).map_or(bconst(t > 0.0), |n| bin(B::Sle, &f.e, &cst(n as u64, 64))),
                        })
                    }
                    (_, Some(f), V::C(c), _) => {
                        let t = f64::from_bits(*c) * pow2(f.s);
                        Some(match k {
                            C::Eq => int_of(t, f64::floor).filter(|_| t == t.floor()).map_or(fls(), |n| bin(B::Eq, &f.e, &cst(n as u64, 64))),
                            // t < e  <=>  floor(t) < e;  t <= e  <=>  ceil(t) <= e
                            C::Lt => int_of(t, f64::floor).map_or(bconst(t < 0.0), |n| bin(B::Slt, &cst(n as u64, 64), &f.e)),
                            C::Le => int_of(t, f64::ceil).map_or(bconst(t < 0.0), |n| bin(B::Sle, &cst(n as u64, 64), &f.e)),
                        })
                    }
                    _ => None,
                },
            };
            if let Some(r) = r {
                let r = st.path.simp(&r);
                return Ok(V::s(if neg { not(&r) } else { r }));
            }
        }
        let x = self.conc(st, a, if dbl { 64 } else { 32 })?;
        let y = self.conc(st, b, if dbl { 64 } else { 32 })?;
        self.fcmp1(st, p, dbl, &V::C(x), &V::C(y))
    }
    fn real_cmp(&mut self, st: &mut State, p: Fp, log: bool, a: &V, b: &V) -> R<V> {
        let (x, y) = match (self.rf(a, log), self.rf(b, log)) {
            (Some(x), Some(y)) => (x, y),
            _ => {
                // against infinities
                let inf = |v: &V| match v {
                    V::C(c) if f64::from_bits(*c).is_infinite() => Some(f64::from_bits(*c)),
                    _ => None,
                };
                let (x, y) = (inf(a).unwrap_or(0.0), inf(b).unwrap_or(0.0));
                if x == y {
                    return err(format!("real comparison {:?} {:?}", a, b));
                }
                return self.fcmp1(st, p, true, &V::C(x.to_bits()), &V::C(y.to_bits()));
            }
        };
        let lt = |k: f64, l: f64| self_cmp(p, k, l);
        if x == y {
            return Ok(V::C(lt(0.0, 0.0) as u64));
        }
        if x.is_zero() || y.is_zero() {
            // log 0 is below every other logarithm; 0 is below every positive term
            let (k, l) = if x.is_zero() { (0.0, 1.0) } else { (1.0, 0.0) };
            return Ok(V::C(lt(k, l) as u64));
        }
        let r = x.mul(&y.inv());
        if let Some((lo, hi)) = Self::rbounds(&r) {
            if hi < 1.0 {
                return Ok(V::C(lt(0.0, 1.0) as u64));
            }
            if lo > 1.0 {
                return Ok(V::C(lt(1.0, 0.0) as u64));
            }
        }
        // undecided: both outcomes are explored (over-approximation)
        let e = st.path.new_var(0, 1);
        Ok(V::s(e))
    }
    fn f1(&mut self, st: &State, op: crate::ext::F1, dbl: bool, v: &V) -> R<V> {
        use crate::ext::F1::*;
        if let Some(log) = Self::is_real(v) {
            let r = self.rf(v, log).unwrap();
            return match (op, log) {
                (Exp, true) => Ok(Self::real_v(false, r)),
                (Log, false) => Ok(Self::real_v(true, r)),
                (Ln1p, false) => Ok(Self::real_v(true, r.add(&Rf::int(1, 1)))),
                (ExpM1, true) => Ok(Self::real_v(false, r.add(&Rf::int(-1, 1)))),
                _ => err(format!("{:?} of a real-algebra term", op)),
            };
        }
        if op == Fabs {
            if let (true, V::S(_), Some(f)) = (dbl, v, self.fi(st, v)) {
                let z = cst(0, 64);
                let n = bin(B::Slt, &f.e, &z);
                let e = ite(&n, &bin(B::Sub, &z, &f.e), &f.e);
                let hi = f.lo.abs().max(f.hi.abs());
                if let Some(v) = (FI { e, s: f.s, lo: 0, hi }).v() {
                    return Ok(v);
                }
            }
        }
        let x = self.fconc(st, v, dbl)?;
        if !dbl {
            let x = x as f32;
            let r = match op {
                Log => x.ln(),
                Log2 => x.log2(),
                Log10 => x.log10(),
                Ln1p => x.ln_1p(),
                Exp => x.exp(),
                Exp2 => x.exp2(),
                ExpM1 => x.exp_m1(),
                Sqrt => x.sqrt(),
                Fabs => x.abs(),
                Floor => x.floor(),
                Ceil => x.ceil(),
                Trunc => x.trunc(),
                Round => x.round(),
                RoundEven => x.round_ties_even(),
            };
            return Ok(V::C(r.to_bits() as u64));
        }
        let r = match op {
            Log => x.ln(),
            Log2 => x.log2(),
            Log10 => x.log10(),
            Ln1p => x.ln_1p(),
            Exp => x.exp(),
            Exp2 => x.exp2(),
            ExpM1 => x.exp_m1(),
            Sqrt => x.sqrt(),
            Fabs => x.abs(),
            Floor => x.floor(),
            Ceil => x.ceil(),
            Trunc => x.trunc(),
            Round => x.round(),
            RoundEven => x.round_ties_even(),
        };
        Ok(V::C(r.to_bits()))
    }
    fn f2(&mut self, st: &mut State, op: crate::ext::F2, dbl: bool, a: &V, b: &V) -> R<V> {
        use crate::ext::F2::*;
        if matches!(op, Min | Max | Minimum | Maximum | MinNumSz | MaxNumSz) && !matches!((a, b), (V::C(_), V::C(_))) {
            let min = matches!(op, Min | Minimum | MinNumSz);
            let nan = |v: &V| matches!(v, V::C(c) if f64::from_bits(*c).is_nan());
            if nan(a) || nan(b) {
                return Ok(if nan(a) != matches!(op, Minimum | Maximum) { b.clone() } else { a.clone() });
            }
            let c = self.fcmp1(st, Fp::Olt, dbl, a, b)?;
            return match &c {
                V::C(c) => Ok(if (*c == 1) == min { a.clone() } else { b.clone() }),
                V::S(c) => {
                    let (x, y) = if min { (a, b) } else { (b, a) };
                    if let (true, Some(p), Some(q)) = (dbl, self.fi(st, x), self.fi(st, y)) {
                        let s = p.s.max(q.s);
                        if let (Some(p), Some(q)) = (p.scale_to(s), q.scale_to(s)) {
                            if let Some(v) = (FI { e: ite(c, &p.e, &q.e), s, lo: p.lo.min(q.lo), hi: p.hi.max(q.hi) }).v() {
                                return Ok(v);
                            }
                        }
                    }
                    if self.cond(st, &c.clone())? == min {
                        Ok(a.clone())
                    } else {
                        Ok(b.clone())
                    }
                }
                _ => err("fcmp"),
            };
        }
        if Self::is_real(a).or(Self::is_real(b)).is_some() {
            return err("real-algebra operand of pow/copysign");
        }
        let x = self.fconc(st, a, dbl)?;
        let y = self.fconc(st, b, dbl)?;
        let r = match op {
            Pow => x.powf(y),
            Min | MinNumSz => x.min(y),
            Max | MaxNumSz => x.max(y),
            Minimum => {
                if x.is_nan() || y.is_nan() {
                    f64::NAN
                } else {
                    x.min(y)
                }
            }
            Maximum => {
                if x.is_nan() || y.is_nan() {
                    f64::NAN
                } else {
                    x.max(y)
                }
            }
            CopySign => x.copysign(y),
        };
        Ok(V::C(if dbl { r.to_bits() } else { (r as f32).to_bits() as u64 }))
    }

    fn cast1(&mut self, st: &State, c: Cast, fw: u32, tw: u32, v: &V) -> R<V> {
        match c {
            Cast::Nop => Ok(v.clone()),
            Cast::Trunc | Cast::Zext | Cast::Sext => {
                if let V::C(x) = v {
                    return Ok(match c {
                        Cast::Trunc => V::C(x & mask(tw)),
                        Cast::Zext if tw <= 64 => V::C(*x),
                        Cast::Sext if tw <= 64 => V::C(sx(*x, fw) as u64 & mask(tw)),
                        Cast::Zext => V::big(*x as u128),
                        _ => V::big(sx(*x, fw) as i128 as u128 & mask128(tw)),
                    });
                }
                let e = self.ex(st, v, fw)?;
                Ok(V::s(match c {
                    Cast::Trunc => extract(&e, 0, tw),
                    Cast::Zext => zext(&e, tw),
                    _ => sext(&e, tw),
                }))
            }
            Cast::FpTrunc => {
                let x = self.fconc(st, v, true)?;
                Ok(V::C((x as f32).to_bits() as u64))
            }
            Cast::FpExt => {
                let x = self.fconc(st, v, false)?;
                Ok(V::C(x.to_bits()))
            }
            Cast::UiToFp | Cast::SiToFp => {
                if let (V::S(_), 64) = (v, tw) {
                    let e = self.ex(st, v, fw)?;
                    if fw <= 64 {
                        let (e64, lo, hi) = if c == Cast::UiToFp {
                            (zext(&e, 64), e.lo as i128, e.hi as i128)
                        } else if e.hi <= mask(fw) >> 1 {
                            (zext(&e, 64), e.lo as i128, e.hi as i128)
                        } else if fw < 54 {
                            (sext(&e, 64), -(1i128 << (fw - 1)), (1i128 << (fw - 1)) - 1)
                        } else {
                            (e.clone(), -(1i128 << 62), 1i128 << 62)
                        };
                        if lo > -(1 << 53) && hi < 1 << 53 {
                            if let Some(v) = (FI { e: e64, s: 0, lo: lo as i64, hi: hi as i64 }).v() {
                                return Ok(v);
                            }
                        }
                    }
                }
                let r: f64;
                let r32: f32;
                if let V::Big(b) = v {
                    if c == Cast::UiToFp {
                        r = **b as f64;
                        r32 = **b as f32;
                    } else {
                        r = sx128(**b, fw) as f64;
                        r32 = sx128(**b, fw) as f32;
                    }
                } else {
                    let x = self.conc(st, v, fw)?;
                    if c == Cast::UiToFp {
                        r = x as f64;
                        r32 = x as f32;
                    } else {
                        r = sx(x, fw) as f64;
                        r32 = sx(x, fw) as f32;
                    }
                }
                Ok(V::C(if tw == 64 { r.to_bits() } else { r32.to_bits() as u64 }))
            }
            Cast::FpToUi | Cast::FpToSi => self.ftoi(st, v, fw == 64, tw, c == Cast::FpToSi),
        }
    }
    /// saturating float to integer conversion
    fn ftoi(&mut self, st: &State, v: &V, dbl: bool, tw: u32, signed: bool) -> R<V> {
        if let (true, V::S(_), Some(f)) = (dbl, v, self.fi(st, v)) {
            let z = cst(0, 64);
            let q = if f.s == 0 {
                f.e.clone()
            } else {
                let sh = cst(f.s as u64, 64);
                let neg = bin(B::Slt, &f.e, &z);
                let a = bin(B::LShr, &f.e, &sh);
                let b = bin(B::Sub, &z, &bin(B::LShr, &bin(B::Sub, &z, &f.e), &sh));
                if f.lo >= 0 {
                    a
                } else {
                    ite(&neg, &b, &a)
                }
            };
            let lo = (f.lo as f64 * pow2(-f.s)).trunc();
            let hi = (f.hi as f64 * pow2(-f.s)).trunc();
            let (tl, th) = if signed { (-(2f64.powi(tw as i32 - 1)), 2f64.powi(tw as i32 - 1)) } else { (0.0, 2f64.powi(tw as i32)) };
            if lo >= tl && hi < th && tw <= 64 {
                return Ok(V::s(extract(&q, 0, tw)));
            }
            if !signed && lo < 0.0 && hi < th && tw == 64 {
                return Ok(V::s(ite(&bin(B::Slt, &q, &z), &z, &q)));
            }
        }
        let x = self.fconc(st, v, dbl)?;
        if tw > 64 {
            return Ok(V::big(if signed { x as i128 as u128 } else { x as u128 } & mask128(tw)));
        }
        let r = if signed {
            let lim = 2f64.powi(tw as i32 - 1);
            (if x.is_nan() {
                0
            } else if x >= lim {
                (mask(tw) >> 1) as i64
            } else if x < -lim {
                sx(1u64 << (tw - 1), tw)
            } else {
                x as i64
            }) as u64
        } else {
            let lim = 2f64.powi(tw as i32);
            if x >= lim {
                mask(tw)
            } else {
                x as u64
            }
        };
        Ok(V::C(r & mask(tw)))
    }
    fn flat_bits(&self, st: &State, v: &V, t: &Ty) -> R<(Ex, u32)> {
        match (v, t) {
            (V::A(l), Ty::Vec(_, e)) => {
                let mut r: Option<Ex> = None;
                for x in l.iter() {
                    let b = self.ex(st, x, e.bits())?;
                    r = Some(match r {
                        None => b,
                        Some(lo) => concat(&b, &lo),
                    });
                }
                let r = r.unwrap();
                let w = r.w();
                Ok((r, w))
            }
            (v, t) => {
                let w = t.bits();
                Ok((self.ex(st, v, w)?, w))
            }
        }
    }
    fn bitcast(&mut self, st: &State, v: &V, from: &Ty, to: &Ty) -> R<V> {
        // concrete bit masks first
        if let (V::A(l), Ty::Vec(_, e), Ty::Int(w)) = (v, from, to) {
            if *w <= 64 && l.iter().all(|x| matches!(x, V::C(_))) {
                let mut r = 0u64;
                let b = e.bits();
                for (i, x) in l.iter().enumerate() {
                    if let V::C(c) = x {
                        r |= (c & mask(b)) << (i as u32 * b);
                    }
                }
                return Ok(V::C(r));
            }
        }
        let (e, w) = self.flat_bits(st, v, from)?;
        match to {
            Ty::Vec(n, t) => {
                let b = w / *n as u32;
                let _ = t;
                Ok(V::A(Arc::new((0..*n as u32).map(|i| V::s(extract(&e, i * b, b))).collect())))
            }
            _ => Ok(V::s(e)),
        }
    }
    fn select(&mut self, st: &State, c: &V, a: &V, b: &V, ty: &Ty, vc: bool) -> R<V> {
        if vc {
            return match (c, a, b) {
                (V::A(c), V::A(x), V::A(y)) => {
                    let t = match ty {
                        Ty::Vec(_, e) => (**e).clone(),
                        t => t.clone(),
                    };
                    let mut o = vec![];
                    for i in 0..c.len() {
                        o.push(self.select(st, &c[i], &x[i], &y[i], &t, false)?)
                    }
                    Ok(V::A(Arc::new(o)))
                }
                _ => err("vector select"),
            };
        }
        match c {
            V::C(c) => Ok(if *c & 1 == 1 { a.clone() } else { b.clone() }),
            V::S(c) => {
                let c = st.path.simp(c);
                if let Some(k) = c.as_const() {
                    return Ok(if k == 1 { a.clone() } else { b.clone() });
                }
                match ty {
                    Ty::Int(w) => {
                        let x = self.ex(st, a, *w)?;
                        let y = self.ex(st, b, *w)?;
                        return Ok(V::s(ite(&c, &x, &y)));
                    }
                    Ty::F64 if Self::is_real(a).or(Self::is_real(b)).is_none() => {
                        if let (Some(p), Some(q)) = (self.fi(st, a), self.fi(st, b)) {
                            if matches!(a, V::S(_)) || matches!(b, V::S(_)) {
                                let s = p.s.max(q.s);
                                if let (Some(p), Some(q)) = (p.scale_to(s), q.scale_to(s)) {
                                    if let Some(v) = (FI { e: ite(&c, &p.e, &q.e), s, lo: p.lo.min(q.lo), hi: p.hi.max(q.hi) }).v() {
                                        return Ok(v);
                                    }
                                }
                            }
                        }
                    }
                    _ => {}
                }
                Ok(if self.cond(st, &c)? { a.clone() } else { b.clone() })
            }
            _ => err("select condition"),
        }
    }

    /// load through a symbolic address
    fn load_sym(&mut self, st: &State, p: &V, w: u32, n: usize) -> R<V> {
        let e = self.ex(st, p, 64)?;
        if let Some(c) = e.c64() {
            return self.rd(st, c, w, n);
        }
        if let Some(id) = e.vars.single() {
            let vi = st.path.vars[id as usize].clone();
            if let Some(d) = vi.dom {
                let mut tab: Vec<Option<V>> = vec![];
                let mut ok = true;
                let mut distinct: Vec<u64> = vec![];
                for k in 0..=(vi.hi - vi.lo) {
                    if d[k as usize / 64] >> (k % 64) & 1 == 0 {
                        tab.push(None);
                        continue;
                    }
                    let x = vi.lo + k;
                    let a = eval(&e, &|_| x, &mut Default::default()) as u64;
                    if !distinct.contains(&a) {
                        distinct.push(a);
                    }
                    if self.chk(st, a, n as u64).is_err() {
                        ok = false;
                        break;
                    }
                    let v = self.rd(st, a, w, n)?;
                    tab.push(Some(v));
                }
                if ok && w <= 64 {
                    if tab.iter().all(|x| matches!(x, None | Some(V::C(_)))) {
                        // pointers are followed on separate paths
                        let g = |x: &Option<V>| match x {
                            Some(V::C(c)) => Some(*c),
                            _ => None,
                        };
                        let some = tab.iter().find_map(g).unwrap();
                        let looks_ptr = w == 64 && tab.iter().filter_map(g).any(|c| c >= CODE_BASE && c < st.brk && c > 1 << 20);
                        if !looks_ptr {
                            let t: Vec<u64> = tab.iter().map(|x| g(x).unwrap_or(some)).collect();
                            return Ok(V::s(table(&var(id, vi.w, vi.lo, vi.hi), vi.lo, Arc::new(t), w)));
                        }
                    } else if distinct.len() <= 32 && !tab.iter().any(|x| matches!(x, Some(V::S(e)) if matches!(e.k, K::Real(..)))) {
                        let mut r: Option<Ex> = None;
                        for a in distinct {
                            let v = self.rd(st, a, w, n)?;
                            let x = self.ex(st, &v, w)?;
                            r = Some(match r {
                                None => x,
                                Some(r) => ite(&eqc(&e, a), &x, &r),
                            });
                        }
                        return Ok(V::s(r.unwrap()));
                    }
                }
            }
        }
        let a = self.conc(st, p, 64)?;
        self.rd(st, a, w, n)
    }

    // ---------- control ----------
    fn jump(&mut self, st: &mut State, e: u32) {
        let f = st.top.f.clone();
        let ed = &f.edges[e as usize];
        match ed.moves.len() {
            0 => {}
            1 => {
                let (d, o) = ed.moves[0];
                let v = self.get(st, o).clone();
                st.top.regs[d as usize] = v;
            }
            _ => {
                let vals: Vec<V> = ed.moves.iter().map(|m| self.get(st, m.1).clone()).collect();
                for (m, v) in ed.moves.iter().zip(vals) {
                    st.top.regs[m.0 as usize] = v;
                }
            }
        }
        st.top.pc = ed.pc;
    }
    fn enter(&mut self, st: &mut State, fid: u32, args: Vec<V>, ret: i32) -> R<()> {
        let f = self.g.m.func(fid).clone();
        self.called[fid as usize] = true;
        let mut regs = args;
        regs.resize(f.nregs as usize, V::C(0));
        let fr = Frame { f, fid, pc: 0, regs, ret, sp: st.sp };
        let old = std::mem::replace(&mut st.top, fr);
        st.stack.push(Arc::new(old));
        if st.stack.len() > 200_000 || st.sp < self.g.stack_top - (48 << 20) {
            return viol(Kind::Hang, "stack exhausted (unbounded recursion)");
        }
        Ok(())
    }
    pub fn stack_trace(&self, st: &State) -> String {
        let mut v = vec![st.top.f.name.clone()];
        for f in st.stack.iter().rev().take(12) {
            v.push(f.f.name.clone());
        }
        v.join(" < ")
    }
    fn cstr(&mut self, st: &State, mut a: u64) -> R<Vec<u8>> {
        let mut o = vec![];
        loop {
            let v = self.rd(st, a, 8, 1)?;
            let c = self.conc(st, &v, 8)? as u8;
            if c == 0 {
                return Ok(o);
            }
            o.push(c);
            a += 1;
        }
    }

    /// run one state until it ends or forks
    fn run(&mut self, st: &mut State) -> Stop {
        let mut check = 0u32;
        loop {
            check += 1;
            if check & 0xffff == 0 {
                if self.g.stop.load(Relaxed) {
                    return Stop::End(End::Error("stopped".into()));
                }
                if self.g.start.elapsed().as_secs() >= self.g.cfg.max_secs {
                    self.g.timed_out.store(true, Relaxed);
                    self.g.stop.store(true, Relaxed);
                    self.g.cv.notify_all();
                    return Stop::End(End::Error("stopped".into()));
                }
            }
            st.steps += 1;
            if st.steps > self.g.cfg.max_steps {
                let t = self.stack_trace(st);
                return Stop::End(End::Violation(Kind::Hang, format!("no end after {} steps in {}", st.steps, t)));
            }
            if let Err(s) = self.step(st) {
                if REAL_LEAK.with(|x| x.replace(false)) {
                    return Stop::End(End::Error("bits of a real-algebra value".into()));
                }
                return s;
            }
        }
    }
    fn step(&mut self, st: &mut State) -> R<()> {
        let code: *const I = &st.top.f.code[st.top.pc as usize];
        // the function stays alive through this instruction: it is owned by the module
        let i: &I = unsafe { &*code };
        macro_rules! set {
            ($d:expr, $v:expr) => {{
                let v = $v;
                st.top.regs[*$d as usize] = v;
                st.top.pc += 1;
                Ok(())
            }};
        }
        match i {
            I::Bin { op, w, n, d, a, b } => {
                if *n == 0 {
                    if let (V::C(x), V::C(y)) = (self.get(st, *a), self.get(st, *b)) {
                        let (x, y) = (*x, *y);
                        let r = self.bin1(st, *op, *w as u32, &V::C(x), &V::C(y))?;
                        return set!(d, r);
                    }
                }
                let (x, y) = (self.get(st, *a).clone(), self.get(st, *b).clone());
                let (op, w) = (*op, *w as u32);
                let r = self.lanes(st, *n, &x, &y, &mut |s, st, x, y| s.bin1(st, op, w, x, y))?;
                set!(d, r)
            }
            I::Icmp { p, w, n, d, a, b } => {
                if *n == 0 {
                    if let (V::C(x), V::C(y)) = (self.get(st, *a), self.get(st, *b)) {
                        let (x, y) = (*x, *y);
                        let r = self.icmp1(st, *p, *w as u32, &V::C(x), &V::C(y))?;
                        return set!(d, r);
                    }
                }
                let (x, y) = (self.get(st, *a).clone(), self.get(st, *b).clone());
                let (p, w) = (*p, *w as u32);
                let r = self.lanes(st, *n, &x, &y, &mut |s, st, x, y| s.icmp1(st, p, w, x, y))?;
                set!(d, r)
            }
            I::FBin { op, dbl, n, d, a, b } => {
                let (x, y) = (self.get(st, *a).clone(), self.get(st, *b).clone());
                let (op, dbl) = (*op, *dbl);
                let r = self.lanes(st, *n, &x, &y, &mut |s, st, x, y| s.fbin1(st, op, dbl, x, y))?;
                set!(d, r)
            }
            I::FNeg { dbl, n, d, a } => {
                let x = self.get(st, *a).clone();
                let dbl = *dbl;
                let r = self.lanes(st, *n, &x, &x, &mut |s, st, x, _| {
                    if let Some(log) = Self::is_real(x) {
                        let r = s.rf(x, log).unwrap();
                        return Ok(Self::real_v(log, if log { r.inv() } else { r.neg() }));
                    }
                    if let (true, V::S(_), Some(f)) = (dbl, x, s.fi(st, x)) {
                        if !(f.lo <= 0 && f.hi >= 0 && s.cond(st, &eqc(&f.e, 0))?) {
                            if let Some(v) = (FI { e: bin(B::Sub, &cst(0, 64), &f.e), s: f.s, lo: -f.hi, hi: -f.lo }).v() {
                                return Ok(v);
                            }
                        }
                    }
                    let c = s.conc(st, x, if dbl { 64 } else { 32 })?;
                    Ok(V::C(if dbl { c ^ 1 << 63 } else { c ^ 1 << 31 }))
                })?;
                set!(d, r)
            }
            I::Fcmp { p, dbl, n, d, a, b } => {
                let (x, y) = (self.get(st, *a).clone(), self.get(st, *b).clone());
                let r = if *n == 0 {
                    self.fcmp1(st, *p, *dbl, &x, &y)?
                } else {
                    match (&x, &y) {
                        (V::A(x), V::A(y)) => {
                            let mut o = vec![];
                            for k in 0..x.len() {
                                o.push(self.fcmp1(st, *p, *dbl, &x[k], &y[k])?)
                            }
                            V::A(Arc::new(o))
                        }
                        _ => return err("vector fcmp"),
                    }
                };
                set!(d, r)
            }
            I::Cast { c, fw, tw, n, d, a } => {
                let x = self.get(st, *a).clone();
                let (c, fw, tw) = (*c, *fw as u32, *tw as u32);
                let r = self.lanes(st, *n, &x, &x, &mut |s, st, x, _| s.cast1(st, c, fw, tw, x))?;
                set!(d, r)
            }
            I::Bitcast { d, a, from, to } => {
                let x = self.get(st, *a).clone();
                let r = match (&x, &**from, &**to) {
                    (V::S(_), Ty::F64, Ty::Int(64)) | (V::S(_), Ty::Int(64), Ty::F64) => x.clone(),
                    _ => self.bitcast(st, &x, from, to)?,
                };
                set!(d, r)
            }
            I::Select { d, c, a, b, ty, vc } => {
                let c = self.get(st, *c).clone();
                let r = if let V::C(k) = c {
                    if k & 1 == 1 {
                        self.get(st, *a).clone()
                    } else {
                        self.get(st, *b).clone()
                    }
                } else {
                    let (x, y) = (self.get(st, *a).clone(), self.get(st, *b).clone());
                    self.select(st, &c, &x, &y, ty, *vc)?
                };
                set!(d, r)
            }
            I::Load { d, w, n, p } => {
                let r = match self.get(st, *p) {
                    V::C(a) => self.rd(st, *a, *w as u32, *n as usize)?,
                    v => {
                        let v = v.clone();
                        self.load_sym(st, &v, *w as u32, *n as usize)?
                    }
                };
                set!(d, r)
            }
            I::LoadA { d, ty, p } => {
                let v = self.get(st, *p).clone();
                let a = self.addr(st, &v)?;
                let r = self.load_ty(st, a, ty)?;
                set!(d, r)
            }
            I::Store { w, n, v, p } => {
                let pv = self.get(st, *p).clone();
                let a = self.addr(st, &pv)?;
                let x = self.get(st, *v).clone();
                self.wr(st, a, *w as u32, *n as usize, &x)?;
                st.top.pc += 1;
                Ok(())
            }
            I::StoreA { ty, v, p } => {
                let pv = self.get(st, *p).clone();
                let a = self.addr(st, &pv)?;
                let x = self.get(st, *v).clone();
                self.store_ty(st, a, ty, &x)?;
                st.top.pc += 1;
                Ok(())
            }
            I::Alloca { d, size, al, cnt } => {
                let c = self.get(st, *cnt).clone();
                let c = self.conc(st, &c, 64)?;
                let al = (*al).max(16);
                st.sp = (st.sp - size * c) / al * al;
                let sp = st.sp;
                set!(d, V::C(sp))
            }
            I::Gep { d, p, off, idx } => {
                let base = self.get(st, *p);
                if let V::C(b) = base {
                    let mut a = b.wrapping_add(*off);
                    let mut ok = true;
                    for (o, w, s) in idx.iter() {
                        match self.get(st, *o) {
                            V::C(i) => a = a.wrapping_add((sx(*i, *w as u32) as u64).wrapping_mul(*s)),
                            _ => {
                                ok = false;
                                break;
                            }
                        }
                    }
                    if ok {
                        return set!(d, V::C(a));
                    }
                }
                let b = self.get(st, *p).clone();
                let mut a = bin(B::Add, &self.ex(st, &b, 64)?, &cst(*off, 64));
                for (o, w, s) in idx.iter() {
                    let v = self.get(st, *o).clone();
                    let e = sext(&self.ex(st, &v, *w as u32)?, 64);
                    a = bin(B::Add, &a, &bin(B::Mul, &e, &cst(*s, 64)));
                }
                set!(d, V::s(a))
            }
            I::Extract { d, a, path } => {
                let mut v = self.get(st, *a);
                for i in path.iter() {
                    match v {
                        V::A(l) => v = &l[*i as usize],
                        _ => return err("extractvalue"),
                    }
                }
                let v = v.clone();
                set!(d, v)
            }
            I::Insert { d, a, v, path } => {
                let x = self.get(st, *v).clone();
                let mut agg = self.get(st, *a).clone();
                fn put(a: &mut V, path: &[u32], x: V) -> bool {
                    if path.is_empty() {
                        *a = x;
                        return true;
                    }
                    match a {
                        V::A(l) => put(&mut Arc::make_mut(l)[path[0] as usize], &path[1..], x),
                        _ => false,
                    }
                }
                if !put(&mut agg, path, x) {
                    return err("insertvalue");
                }
                set!(d, agg)
            }
            I::ExtElem { d, a, i } => {
                let iv = self.get(st, *i).clone();
                let k = self.conc(st, &iv, 64)?;
                let v = match self.get(st, *a) {
                    V::A(l) => l[k as usize].clone(),
                    _ => return err("extractelement"),
                };
                set!(d, v)
            }
            I::InsElem { d, a, v, i } => {
                let iv = self.get(st, *i).clone();
                let k = self.conc(st, &iv, 64)?;
                let x = self.get(st, *v).clone();
                let mut l = match self.get(st, *a) {
                    V::A(l) => (**l).clone(),
                    _ => return err("insertelement"),
                };
                l[k as usize] = x;
                set!(d, V::A(Arc::new(l)))
            }
            I::Shuffle { d, a, b, mask } => {
                let r = match (self.get(st, *a), self.get(st, *b)) {
                    (V::A(x), V::A(y)) => mask
                        .iter()
                        .map(|m| {
                            let m = (*m).max(0) as usize;
                            if m < x.len() {
                                x[m].clone()
                            } else {
                                y[m - x.len()].clone()
                            }
                        })
                        .collect(),
                    _ => return err("shufflevector"),
                };
                set!(d, V::A(Arc::new(r)))
            }
            I::Copy { d, a } => {
                let v = self.get(st, *a).clone();
                set!(d, v)
            }
            I::Nop => {
                st.top.pc += 1;
                Ok(())
            }
            I::Br(e) => {
                self.jump(st, *e);
                Ok(())
            }
            I::CondBr { c, t, f } => {
                let b = match self.get(st, *c) {
                    V::C(c) => c & 1 == 1,
                    V::S(e) => {
                        let e = e.clone();
                        self.cond(st, &e)?
                    }
                    _ => return err("br"),
                };
                self.jump(st, if b { *t } else { *f });
                Ok(())
            }
            I::Switch { v, w, def, cases, map } => {
                let x = self.get(st, *v).clone();
                let e = match &x {
                    V::C(c) => {
                        let e = map.get(c).copied().unwrap_or(*def);
                        self.jump(st, e);
                        return Ok(());
                    }
                    x => self.ex(st, x, *w as u32)?,
                };
                let c = st.path.eval(&e) as u64;
                let f = st.top.f.clone();
                let same = |a: u32, b: u32| {
                    let (x, y) = (&f.edges[a as usize], &f.edges[b as usize]);
                    x.pc == y.pc && x.moves.iter().zip(y.moves.iter()).all(|(m, n)| m.1 .0 == n.1 .0 || (m.1 .0 < 0 && n.1 .0 < 0 && matches!((&f.consts[(-m.1.0 - 1) as usize], &f.consts[(-n.1.0 - 1) as usize]), (V::C(p), V::C(q)) if p == q)))
                };
                let target = map.get(&c).copied().unwrap_or(*def);
                let mut cond = fls();
                if same(target, *def) {
                    for (k, ed) in cases.iter() {
                        if !same(*ed, target) {
                            cond = or(&cond, &eqc(&e, *k));
                        }
                    }
                    cond = not(&cond);
                } else {
                    for (k, ed) in cases.iter() {
                        if same(*ed, target) {
                            cond = or(&cond, &eqc(&e, *k));
                        }
                    }
                }
                if !self.cond(st, &cond)? {
                    return err("switch");
                }
                self.jump(st, target);
                Ok(())
            }
            I::Ret(o, has) => {
                let v = if *has { Some(self.get(st, *o).clone()) } else { None };
                match st.stack.pop() {
                    None => Err(Stop::End(End::Done)),
                    Some(fr) => {
                        let d = st.top.ret;
                        st.sp = st.top.sp;
                        st.top = match Arc::try_unwrap(fr) {
                            Ok(f) => f,
                            Err(a) => (*a).clone(),
                        };
                        if let (Some(v), true) = (v, d >= 0) {
                            st.top.regs[d as usize] = v;
                        }
                        Ok(())
                    }
                }
            }
            I::Unreachable => viol(Kind::Abort, format!("unreachable code reached in {}", self.stack_trace(st))),
            I::Rmw { d, op, w, p, v } => {
                let pv = self.get(st, *p).clone();
                let a = self.addr(st, &pv)?;
                let n = *w as usize / 8;
                let w = *w as u32;
                let old = self.rd(st, a, w, n)?;
                let x = self.get(st, *v).clone();
                let new = match op {
                    Rmw::Xchg => x,
                    Rmw::Add => self.bin1(st, B::Add, w, &old, &x)?,
                    Rmw::Sub => self.bin1(st, B::Sub, w, &old, &x)?,
                    Rmw::And => self.bin1(st, B::And, w, &old, &x)?,
                    Rmw::Or => self.bin1(st, B::Or, w, &old, &x)?,
                    Rmw::Xor => self.bin1(st, B::Xor, w, &old, &x)?,
                    Rmw::Nand => {
                        let t = self.bin1(st, B::And, w, &old, &x)?;
                        self.bin1(st, B::Xor, w, &t, &V::C(mask(w)))?
                    }
                    Rmw::Max | Rmw::Min | Rmw::UMax | Rmw::UMin => {
                        let p = match op {
                            Rmw::Max => Ip::Sgt,
                            Rmw::Min => Ip::Slt,
                            Rmw::UMax => Ip::Ugt,
                            _ => Ip::Ult,
                        };
                        let c = self.icmp1(st, p, w, &old, &x)?;
                        self.select(st, &c, &old, &x, &Ty::Int(w), false)?
                    }
                };
                self.wr(st, a, w, n, &new)?;
                set!(d, old)
            }
            I::CmpXchg { d, w, p, c, n } => {
                let pv = self.get(st, *p).clone();
                let a = self.addr(st, &pv)?;
                let sz = *w as usize / 8;
                let old = self.rd(st, a, *w as u32, sz)?;
                let c = self.get(st, *c).clone();
                let n = self.get(st, *n).clone();
                let eq = self.icmp1(st, Ip::Eq, *w as u32, &old, &c)?;
                let ok = match &eq {
                    V::C(c) => *c == 1,
                    V::S(e) => self.cond(st, &e.clone())?,
                    _ => return err("cmpxchg"),
                };
                if ok {
                    self.wr(st, a, *w as u32, sz, &n)?;
                }
                set!(d, V::A(Arc::new(vec![old, V::C(ok as u64)])))
            }
            I::Call(c) => self.call(st, c),
        }
    }

    fn call(&mut self, st: &mut State, c: &CallI) -> R<()> {
        let fid = match &c.callee {
            Callee::F(f) => *f,
            Callee::Ind(o) => {
                let v = self.get(st, *o).clone();
                let a = self.addr(st, &v)?;
                match self.g.m.by_addr.get(&a) {
                    Some(f) => *f,
                    None => return viol(Kind::Memory, format!("call to {:#x}", a)),
                }
            }
            Callee::Asm(t) => {
                let body = t.split('|').next().unwrap_or("").trim();
                let empty = body.is_empty() || (body.starts_with("/*") && body.ends_with("*/"));
                if c.d >= 0 {
                    let r = if empty && c.args.len() == 1 {
                        // an optimisation barrier: the value passes through
                        self.get(st, c.args[0].0).clone()
                    } else if body.contains("cpuid") || empty {
                        c.ret.zero()
                    } else {
                        return err(format!("inline assembly {:?}", body));
                    };
                    st.top.regs[c.d as usize] = r;
                } else if !empty {
                    return err(format!("inline assembly {:?}", body));
                }
                st.top.pc += 1;
                return Ok(());
            }
        };
        let ext = self.g.m.funcs[fid as usize].ext;
        if ext == Ext::Body {
            let args: Vec<V> = c.args.iter().map(|a| self.get(st, a.0).clone()).collect();
            st.top.pc += 1;
            return self.enter(st, fid, args, c.d);
        }
        let args: Vec<V> = c.args.iter().map(|a| self.get(st, a.0).clone()).collect();
        let r = self.ext(st, c, fid, ext, &args)?;
        if c.d >= 0 {
            st.top.regs[c.d as usize] = r;
        }
        st.top.pc += 1;
        Ok(())
    }

    // ---------- memory management ----------
    fn class(n: u64) -> (usize, u64) {
        let n = n.max(16);
        // four classes per power of two would be tighter; powers of two suffice
        let k = 64 - (n - 1).leading_zeros() as usize;
        (k, 1u64 << k)
    }
    pub fn malloc(&mut self, st: &mut State, n: u64, al: u64) -> R<u64> {
        if n > self.g.cfg.max_heap {
            return viol(Kind::Memory, format!("allocation of {} bytes", n));
        }
        let (k, sz) = Self::class(n);
        if al <= 16 && k < 40 {
            let h = st.free[k];
            if h != 0 {
                if let Rd::C(nx) = st.mem.read(h, 8) {
                    st.free[k] = nx as u64;
                    st.mem.write(h, 8, 0);
                    return Ok(h);
                }
            }
        }
        let sz = if k >= 20 { (n + 4095) / 4096 * 4096 } else { sz };
        let a = (st.brk + 16 + al.max(16) - 1) / al.max(16) * al.max(16);
        st.mem.write(a - 16, 8, sz as u128);
        st.brk = a + sz;
        if st.brk - self.g.heap_base > self.g.cfg.max_heap {
            let t = self.stack_trace(st);
            return viol(Kind::Hang, format!("heap grows beyond {} bytes in {}", self.g.cfg.max_heap, t));
        }
        Ok(a)
    }
    fn size_of(&self, st: &State, a: u64) -> u64 {
        match st.mem.read(a - 16, 8) {
            Rd::C(s) => s as u64,
            _ => 0,
        }
    }
    fn free_(&mut self, st: &mut State, a: u64) {
        if a == 0 {
            return;
        }
        let sz = self.size_of(st, a);
        let k = Self::class(sz).0;
        if sz.is_power_of_two() && k < 20 {
            st.mem.write(a, 8, st.free[k] as u128);
            st.free[k] = a;
        }
    }

    fn next_val(&mut self, st: &mut State, lo: u64, hi: u64) -> Ex {
        st.path.new_var(lo, hi)
    }

    fn ext(&mut self, st: &mut State, ci: &CallI, fid: u32, e: Ext, a: &[V]) -> R<V> {
        use Ext::*;
        let w = ci.ret.bits();
        let arg = |i: usize| -> &V { &a[i] };
        let aw = |i: usize| -> u32 { ci.args[i].1.bits() };
        let unit = Ok(V::C(0));
        match e {
            Body => unreachable!(),
            Nop => unit,
            Unknown => {
                let n = self.g.m.funcs[fid as usize].name.clone();
                err(format!("call to unmodelled function {} from {}", n, st.top.f.name))
            }
            SymU64 => {
                let lo = self.conc(st, arg(0), 64)?;
                let hi = self.conc(st, arg(1), 64)?;
                if lo > hi {
                    return err("sym_u64: empty range");
                }
                let id = st.path.vars.len() as u32;
                let x = self.next_val(st, lo, hi);
                st.inputs.push(In::Var(id, 0));
                Ok(V::s(zext(&x, 64)))
            }
            SymF64 => {
                let lo = self.conc(st, arg(0), 64)? as i64;
                let hi = self.conc(st, arg(1), 64)? as i64;
                let s = self.conc(st, arg(2), 64)? as i32;
                let id = st.path.vars.len() as u32;
                let x = self.next_val(st, 0, (hi - lo) as u64);
                st.inputs.push(In::Var(id, lo));
                let e = bin(B::Add, &zext(&x, 64), &cst(lo as u64, 64));
                match (FI { e, s, lo, hi }).v() {
                    Some(v) => Ok(v),
                    None => err("sym_f64: range too wide"),
                }
            }
            SymChoose => {
                let n = self.conc(st, arg(0), 64)?;
                if n == 0 {
                    return Err(Stop::Kill);
                }
                if n == 1 {
                    st.inputs.push(In::Const(0));
                    return Ok(V::C(0));
                }
                // a variable, decided immediately: every value gets its own path
                let id = st.path.vars.len() as u32;
                let x = self.next_val(st, 0, n - 1);
                st.inputs.push(In::Var(id, 0));
                Err(Stop::Choose(x))
            }
            SymConcretize => Ok(V::C(self.conc(st, arg(0), 64)?)),
            SymAssume => {
                let ok = match arg(0) {
                    V::C(c) => c & 1 == 1,
                    V::S(c) => {
                        let c = st.path.simp(c);
                        match c.as_const() {
                            Some(k) => k == 1,
                            None => {
                                let (t, f) = self.sol.decide(&st.path, &c);
                                match (t, f) {
                                    (Side::Unknown, _) => return err("solver gave no answer (assume)"),
                                    (Side::No, _) => false,
                                    (Side::Yes(m), _) => {
                                        self.sol.assume(&mut st.path, &c, m);
                                        true
                                    }
                                }
                            }
                        }
                    }
                    _ => return err("assume"),
                };
                if ok {
                    unit
                } else {
                    Err(Stop::Kill)
                }
            }
            SymAssert => {
                let id = self.conc(st, arg(1), 64)?;
                match arg(0) {
                    V::C(c) => {
                        self.g.sh.stats.assert_concrete.fetch_add(1, Relaxed);
                        if c & 1 == 0 {
                            return viol(Kind::Assert(id), "assertion false on every input of this path");
                        }
                        unit
                    }
                    V::S(c) => {
                        let c = st.path.simp(c);
                        if let Some(k) = c.as_const() {
                            self.g.sh.stats.assert_concrete.fetch_add(1, Relaxed);
                            if k == 0 {
                                return viol(Kind::Assert(id), "assertion false on every input of this path");
                            }
                            return unit;
                        }
                        match self.sol.refute(&st.path, &c) {
                            Side::No => {
                                unit
                            }
                            Side::Unknown => err("solver gave no answer (assertion)"),
                            Side::Yes(m) => {
                                let mut bad = st.path.clone();
                                bad.model = m;
                                self.report(st, &bad, Kind::Assert(id), "assertion violated".into());
                                st.failed += 1;
                                // go on with the inputs that satisfy it
                                let (t, _) = self.sol.decide(&st.path, &c);
                                match t {
                                    Side::Yes(m) => {
                                        self.sol.assume(&mut st.path, &c, m);
                                        unit
                                    }
                                    _ => Err(Stop::Kill),
                                }
                            }
                        }
                    }
                    _ => err("assert"),
                }
            }
            SymReach => {
                let id = self.conc(st, arg(0), 64)?;
                if !st.reached.contains(&id) {
                    st.reached.push(id);
                }
                unit
            }
            SymObserve => {
                st.obs.push(arg(0).clone());
                unit
            }
            SymPanicOk => {
                st.panic_ok = self.conc(st, arg(0), 64)? != 0;
                unit
            }
            SymHashConst => {
                st.hash_const = self.conc(st, arg(0), 64)? != 0;
                unit
            }
            SymHashFin => {
                if st.hash_const {
                    return Ok(V::C(0));
                }
                Ok(arg(0).clone())
            }
            SymTier => Ok(V::C(self.g.cfg.tier)),
            SymRealMode => {
                st.real_mode = self.conc(st, arg(0), 64)? != 0;
                unit
            }
            SymLogAtom => {
                let id = st.natoms;
                st.natoms += 1;
                st.inputs.push(In::Atom(id));
                Ok(V::S(real(true, Rf::atom(id))))
            }
            SymClose => {
                let (x, y) = (arg(0), arg(1));
                if let Some(log) = Self::is_real(x).or(Self::is_real(y)) {
                    let (p, q) = match (self.rf(x, log), self.rf(y, log)) {
                        (Some(p), Some(q)) => (p, q),
                        _ => return Ok(V::C(0)),
                    };
                    if p == q {
                        self.g.sh.stats.assert_queries.fetch_add(1, Relaxed);
                        return Ok(V::C(1));
                    }
                    let t = Instant::now();
                    let r = self.sol.z3.real_differs(&p, &q);
                    let s = &self.g.sh.stats;
                    s.z3_us.fetch_add(t.elapsed().as_micros() as u64, Relaxed);
                    s.z3_queries.fetch_add(1, Relaxed);
                    s.assert_queries.fetch_add(1, Relaxed);
                    return match r {
                        Ok(None) => {
                            s.z3_unsat.fetch_add(1, Relaxed);
                            Ok(V::C(1))
                        }
                        Ok(Some(_)) => {
                            s.z3_sat.fetch_add(1, Relaxed);
                            Ok(V::C(0))
                        }
                        Err(e) => err(e),
                    };
                }
                // scaled integers and constants are exact: equality
                let same = self.fcmp1(st, Fp::Oeq, true, x, y)?;
                if let (V::C(p), V::C(q)) = (x, y) {
                    let (p, q) = (f64::from_bits(*p), f64::from_bits(*q));
                    return Ok(V::C((p == q || (p - q).abs() <= 1e-6 * 1f64.max(p.abs()).max(q.abs())) as u64));
                }
                Ok(same)
            }
            SymPanic => {
                if st.panic_ok {
                    return Err(Stop::End(End::Panicked));
                }
                let p = self.conc(st, arg(0), 64)?;
                let msg = self.location(st, p);
                let t = self.stack_trace(st);
                viol(Kind::Panic, format!("panic at {} [{}]", msg, t))
            }
            SymLog => {
                let p = self.conc(st, arg(0), 64)?;
                let n = self.conc(st, arg(1), 64)?;
                let b = st.mem.get(p, n);
                eprintln!("log: {} {:?}", String::from_utf8_lossy(&b.bytes), b.ents);
                unit
            }
            // ----- memory
            Malloc => {
                let n = self.conc(st, arg(0), 64)?;
                Ok(V::C(self.malloc(st, n, 16)?))
            }
            Calloc => {
                let n = self.conc(st, arg(0), 64)?.wrapping_mul(self.conc(st, arg(1), 64)?);
                let p = self.malloc(st, n, 16)?;
                st.mem.fill(p, 0, n);
                Ok(V::C(p))
            }
            Realloc => {
                let p = self.conc(st, arg(0), 64)?;
                let n = self.conc(st, arg(1), 64)?;
                if p == 0 {
                    return Ok(V::C(self.malloc(st, n, 16)?));
                }
                let old = self.size_of(st, p);
                if n <= old {
                    return Ok(V::C(p));
                }
                let q = self.malloc(st, n, 16)?;
                let b = st.mem.get(p, old);
                st.mem.put(q, &b);
                self.free_(st, p);
                Ok(V::C(q))
            }
            Free => {
                let p = self.conc(st, arg(0), 64)?;
                self.free_(st, p);
                unit
            }
            PosixMemalign => {
                let pp = self.conc(st, arg(0), 64)?;
                let al = self.conc(st, arg(1), 64)?;
                let n = self.conc(st, arg(2), 64)?;
                let p = self.malloc(st, n, al)?;
                st.mem.write(pp, 8, p as u128);
                unit
            }
            Memcpy => {
                let n = self.conc(st, arg(2), 64)?;
                let d = self.conc(st, arg(0), 64)?;
                let s = self.conc(st, arg(1), 64)?;
                if n > 0 && d != s {
                    self.chk(st, d, n)?;
                    self.chk(st, s, n)?;
                    let b = st.mem.get(s, n);
                    st.mem.put(d, &b);
                }
                Ok(V::C(d))
            }
            Memset => {
                let n = self.conc(st, arg(2), 64)?;
                let d = self.conc(st, arg(0), 64)?;
                if n > 0 {
                    self.chk(st, d, n)?;
                    match arg(1) {
                        V::C(c) => st.mem.fill(d, *c as u8, n),
                        v => {
                            let e = self.ex(st, &v.clone(), aw(1))?;
                            let e = extract(&e, 0, 8);
                            for k in 0..n {
                                st.mem.write_sym(d + k, 1, &e);
                            }
                        }
                    }
                }
                Ok(V::C(d))
            }
            Bcmp | Memcmp => {
                let n = self.conc(st, arg(2), 64)?;
                let p = self.conc(st, arg(0), 64)?;
                let q = self.conc(st, arg(1), 64)?;
                if n == 0 {
                    return unit;
                }
                self.chk(st, p, n)?;
                self.chk(st, q, n)?;
                let x = st.mem.get(p, n);
                let y = st.mem.get(q, n);
                if x.concrete() && y.concrete() {
                    let r = match x.bytes.cmp(&y.bytes) {
                        std::cmp::Ordering::Less => -1i64,
                        std::cmp::Ordering::Equal => 0,
                        _ => 1,
                    };
                    return Ok(V::C(r as u64 & mask(w)));
                }
                let mut r = cst(0, w);
                for k in (0..n as usize).rev() {
                    let (s, t) = (st.path.simp(&x.byte(k)), st.path.simp(&y.byte(k)));
                    let eq = bin(B::Eq, &s, &t);
                    if e == Bcmp {
                        if eq.as_const() == Some(0) {
                            r = cst(1, w);
                        } else {
                            r = ite(&eq, &r, &cst(1, w));
                        }
                    } else {
                        let lt = bin(B::Ult, &s, &t);
                        r = ite(&eq, &r, &ite(&lt, &cst(mask(w), w), &cst(1, w)));
                    }
                }
                Ok(V::s(r))
            }
            Strlen => {
                let p = self.conc(st, arg(0), 64)?;
                Ok(V::C(self.cstr(st, p)?.len() as u64))
            }
            // ----- integer intrinsics
            Over(o) => {
                let (x, y, w) = (arg(0).clone(), arg(1).clone(), aw(0));
                self.over(st, o, w, &x, &y)
            }
            UAddSat | USubSat | SAddSat | SSubSat | UMax | UMin | SMax | SMin | Abs | Ctlz | Cttz | Ctpop | Bswap | Bitreverse | Fshl | Fshr | UCmp | SCmp => {
                if let V::A(l) = arg(0) {
                    let ew = match &ci.args[0].1 {
                        Ty::Vec(_, t) => t.bits(),
                        _ => 64,
                    };
                    let rw = match &ci.ret {
                        Ty::Vec(_, t) => t.bits(),
                        _ => 64,
                    };
                    let mut o = vec![];
                    for k in 0..l.len() {
                        let la: Vec<V> = a
                            .iter()
                            .map(|x| match x {
                                V::A(m) => m[k].clone(),
                                v => v.clone(),
                            })
                            .collect();
                        o.push(self.int1(st, e, ew, rw, &la)?);
                    }
                    return Ok(V::A(Arc::new(o)));
                }
                self.int1(st, e, aw(0), w, a)
            }
            Expect | Assume => Ok(arg(0).clone()),
            TlsAddr => Ok(arg(0).clone()),
            Trap => viol(Kind::Abort, format!("trap in {}", self.stack_trace(st))),
            ReduceOr | ReduceAnd | ReduceAdd | ReduceXor => match arg(0) {
                V::A(l) => {
                    let op = match e {
                        ReduceOr => B::Or,
                        ReduceAnd => B::And,
                        ReduceXor => B::Xor,
                        _ => B::Add,
                    };
                    let mut r = l[0].clone();
                    for x in l[1..].iter() {
                        r = self.bin1(st, op, w, &r, x)?;
                    }
                    Ok(r)
                }
                _ => err("reduce"),
            },
            Movmsk => match arg(0) {
                V::A(l) => {
                    let mut r = cst(0, w);
                    for (k, x) in l.iter().enumerate() {
                        let b = self.ex(st, x, 8)?;
                        r = or(&r, &bin(B::Shl, &zext(&extract(&b, 7, 1), w), &cst(k as u64, w)));
                    }
                    Ok(V::s(r))
                }
                _ => err("movmsk"),
            },
            // ----- floats
            F1(o) => {
                let dbl = ci.ret == Ty::F64;
                self.f1(st, o, dbl, &arg(0).clone())
            }
            F2(o) => {
                let dbl = ci.ret == Ty::F64;
                self.f2(st, o, dbl, &arg(0).clone(), &arg(1).clone())
            }
            Powi => {
                let x = self.fconc(st, arg(0), ci.ret == Ty::F64)?;
                let n = self.conc(st, arg(1), 32)? as i32;
                Ok(V::C(if ci.ret == Ty::F64 { x.powi(n).to_bits() } else { (x as f32).powi(n).to_bits() as u64 }))
            }
            Fma => {
                let dbl = ci.ret == Ty::F64;
                let fused = self.g.m.funcs[fid as usize].name.starts_with("llvm.fma.");
                if fused {
                    let (x, y, z) = (self.fconc(st, arg(0), dbl)?, self.fconc(st, arg(1), dbl)?, self.fconc(st, arg(2), dbl)?);
                    return Ok(V::C(if dbl { x.mul_add(y, z).to_bits() } else { (x as f32).mul_add(y as f32, z as f32).to_bits() as u64 }));
                }
                let p = self.fbin1(st, FOp::Mul, dbl, arg(0), arg(1))?;
                self.fbin1(st, FOp::Add, dbl, &p, arg(2))
            }
            IsFpClass => {
                let m = self.conc(st, arg(1), 32)?;
                let dbl = ci.args[0].1 == Ty::F64;
                if let Some(log) = Self::is_real(arg(0)) {
                    // positive terms are normal; logarithms may have any sign
                    let normal = 0x108u64;
                    let _ = log;
                    if m & normal == normal {
                        return Ok(V::C(1));
                    }
                    if m & (normal | 0xf0) == 0 {
                        return Ok(V::C(0));
                    }
                    return err("is.fpclass of a real-algebra term");
                }
                let mut class = |x: f64| -> u64 {
                    let neg = x.is_sign_negative();
                    let b = match x.classify() {
                        std::num::FpCategory::Nan => 3,
                        std::num::FpCategory::Infinite => {
                            if neg {
                                4
                            } else {
                                512
                            }
                        }
                        std::num::FpCategory::Normal => {
                            if neg {
                                8
                            } else {
                                256
                            }
                        }
                        std::num::FpCategory::Subnormal => {
                            if neg {
                                16
                            } else {
                                128
                            }
                        }
                        std::num::FpCategory::Zero => {
                            if neg {
                                32
                            } else {
                                64
                            }
                        }
                    };
                    (b & m != 0) as u64
                };
                if let (true, V::S(_), Some(f)) = (dbl, arg(0), self.fi(st, arg(0))) {
                    let z = cst(0, 64);
                    let zero = eqc(&f.e, 0);
                    let neg = bin(B::Slt, &f.e, &z);
                    let (cz, cp, cn) = (class(0.0), class(1.0), class(-1.0));
                    return Ok(V::s(ite(&zero, &cst(cz, 1), &ite(&neg, &cst(cn, 1), &cst(cp, 1)))));
                }
                let x = self.fconc(st, arg(0), dbl)?;
                Ok(V::C(class(x)))
            }
            FpToISat(s) => {
                let dbl = ci.args[0].1 == Ty::F64;
                self.ftoi(st, &arg(0).clone(), dbl, w, s)
            }
            ObjectSize => Ok(V::C(mask(w))),
            Abort => viol(Kind::Abort, format!("abort() in {}", self.stack_trace(st))),
            Zero => unit,
            MinusOne => {
                self.set_errno(st, 38);
                Ok(V::C(mask(w)))
            }
            _ => self.sysext(st, ci, e, a),
        }
    }
    fn set_errno(&mut self, st: &mut State, v: u64) {
        st.mem.write(self.g.cell, 4, v as u128);
    }
    fn location(&self, st: &State, p: u64) -> String {
        let r = |a: u64, n: usize| match st.mem.read(a, n) {
            Rd::C(c) => c as u64,
            _ => 0,
        };
        let (f, n) = (r(p, 8), r(p + 8, 8));
        if f < GLOB_BASE || n > 500 {
            return "?".into();
        }
        let b = st.mem.get(f, n);
        let s = String::from_utf8_lossy(&b.bytes).trim_end_matches('\0').to_string();
        format!("{}:{}:{}", s, r(p + 16, 4), r(p + 20, 4))
    }
    fn over(&mut self, st: &State, o: crate::ext::Ov, w: u32, x: &V, y: &V) -> R<V> {
        use crate::ext::Ov::*;
        let signed = matches!(o, SAdd | SSub | SMul);
        let op = match o {
            UAdd | SAdd => B::Add,
            USub | SSub => B::Sub,
            _ => B::Mul,
        };
        if let (V::C(p), V::C(q)) = (x, y) {
            let (r, ov);
            if signed {
                let (p, q) = (sx(*p, w) as i128, sx(*q, w) as i128);
                let t = match op {
                    B::Add => p + q,
                    B::Sub => p - q,
                    _ => p * q,
                };
                r = t as u64 & mask(w);
                ov = sx(r, w) as i128 != t;
            } else {
                let (p, q) = (*p as u128, *q as u128);
                match op {
                    B::Add => {
                        r = (p + q) as u64 & mask(w);
                        ov = p + q > mask(w) as u128;
                    }
                    B::Sub => {
                        r = p.wrapping_sub(q) as u64 & mask(w);
                        ov = p < q;
                    }
                    _ => {
                        r = (p * q) as u64 & mask(w);
                        ov = p * q > mask(w) as u128;
                    }
                }
            }
            return Ok(V::A(Arc::new(vec![V::C(r), V::C(ov as u64)])));
        }
        let p = self.ex(st, x, w)?;
        let q = self.ex(st, y, w)?;
        let r = bin(op, &p, &q);
        let ov = match o {
            UAdd => {
                if w <= 64 && p.hi as u128 + q.hi as u128 <= mask(w) as u128 {
                    fls()
                } else {
                    bin(B::Ult, &r, &p)
                }
            }
            USub => bin(B::Ult, &p, &q),
            UMul => {
                if w <= 64 && p.hi as u128 * q.hi as u128 <= mask(w) as u128 {
                    fls()
                } else if w <= 64 {
                    let t = bin(B::Mul, &zext(&p, 2 * w), &zext(&q, 2 * w));
                    not(&eqc128(&extract(&t, w, w), 0))
                } else {
                    // 128-bit: decided on concrete values only
                    let (a, b) = (self.conc(st, x, w)?, self.conc(st, y, w)?);
                    bconst((a as u128).checked_mul(b as u128).is_none())
                }
            }
            SAdd | SSub => {
                let z = cst128(0, w);
                let sp = bin(B::Slt, &p, &z);
                let sq = bin(B::Slt, &q, &z);
                let sr = bin(B::Slt, &r, &z);
                if o == SAdd {
                    and(&bin(B::Eq, &sp, &sq), &not(&bin(B::Eq, &sp, &sr)))
                } else {
                    and(&not(&bin(B::Eq, &sp, &sq)), &not(&bin(B::Eq, &sp, &sr)))
                }
            }
            SMul => {
                if w > 64 {
                    return err("128-bit signed multiplication");
                }
                let t = bin(B::Mul, &sext(&p, 2 * w), &sext(&q, 2 * w));
                not(&bin(B::Eq, &t, &sext(&r, 2 * w)))
            }
        };
        Ok(V::A(Arc::new(vec![V::s(r), V::s(ov)])))
    }
    fn int1(&mut self, st: &State, e: Ext, w: u32, rw: u32, a: &[V]) -> R<V> {
        use Ext::*;
        match e {
            UMax | UMin | SMax | SMin => {
                let p = match e {
                    UMax => Ip::Ugt,
                    UMin => Ip::Ult,
                    SMax => Ip::Sgt,
                    _ => Ip::Slt,
                };
                let c = self.icmp1(st, p, w, &a[0], &a[1])?;
                return self.select(st, &c, &a[0], &a[1], &Ty::Int(w), false);
            }
            _ => {}
        }
        let x = self.ex(st, &a[0], w)?;
        let c = x.as_const();
        Ok(match e {
            UAddSat => {
                let y = self.ex(st, &a[1], w)?;
                let r = bin(B::Add, &x, &y);
                V::s(ite(&bin(B::Ult, &r, &x), &cst128(!0, w), &r))
            }
            USubSat => {
                let y = self.ex(st, &a[1], w)?;
                V::s(ite(&bin(B::Ult, &x, &y), &cst128(0, w), &bin(B::Sub, &x, &y)))
            }
            SAddSat | SSubSat => {
                let y = self.ex(st, &a[1], w)?;
                let op = if e == SAddSat { B::Add } else { B::Sub };
                let t = bin(op, &sext(&x, w + 1), &sext(&y, w + 1));
                let r = extract(&t, 0, w);
                let fits = bin(B::Eq, &sext(&r, w + 1), &t);
                let neg = eqc128(&extract(&t, w, 1), 1);
                V::s(ite(&fits, &r, &ite(&neg, &cst128(1u128 << (w - 1), w), &cst128((1u128 << (w - 1)) - 1, w))))
            }
            UCmp | SCmp => {
                let y = self.ex(st, &a[1], w)?;
                let op = if e == UCmp { B::Ult } else { B::Slt };
                let lt = bin(op, &x, &y);
                let gt = bin(op, &y, &x);
                V::s(ite(&lt, &cst(mask(rw), rw), &ite(&gt, &cst(1, rw), &cst(0, rw))))
            }
            Abs => {
                let z = cst128(0, w);
                V::s(ite(&bin(B::Slt, &x, &z), &bin(B::Sub, &z, &x), &x))
            }
            Ctpop => match c {
                Some(c) => c128(c.count_ones() as u128, w),
                None => {
                    let mut r = cst(0, w);
                    for i in 0..w {
                        r = bin(B::Add, &r, &zext1(&extract(&x, i, 1), w));
                    }
                    V::s(r)
                }
            },
            Ctlz => match c {
                Some(c) => c128((c.leading_zeros() - (128 - w)) as u128, w),
                None => {
                    let mut r = cst(w as u64, w);
                    for i in 0..w {
                        r = ite(&eqc128(&extract(&x, i, 1), 1), &cst((w - 1 - i) as u64, w), &r);
                    }
                    V::s(r)
                }
            },
            Cttz => match c {
                Some(c) => c128((c.trailing_zeros().min(w)) as u128, w),
                None => {
                    let mut r = cst(w as u64, w);
                    for i in (0..w).rev() {
                        r = ite(&eqc128(&extract(&x, i, 1), 1), &cst(i as u64, w), &r);
                    }
                    V::s(r)
                }
            },
            Bswap => match c {
                Some(c) => c128(c.swap_bytes() >> (128 - w), w),
                None => {
                    let mut r = extract(&x, 0, 8);
                    for i in 1..w / 8 {
                        r = concat(&r, &extract(&x, i * 8, 8));
                    }
                    V::s(r)
                }
            },
            Bitreverse => match c {
                Some(c) => c128(c.reverse_bits() >> (128 - w), w),
                None => {
                    let mut r = extract(&x, 0, 1);
                    for i in 1..w {
                        r = concat(&r, &extract(&x, i, 1));
                    }
                    V::s(r)
                }
            },
            Fshl | Fshr => {
                let y = self.ex(st, &a[1], w)?;
                let s = self.ex(st, &a[2], w)?;
                let k = match s.as_const() {
                    Some(k) => (k % w as u128) as u32,
                    None => (self.conc(st, &a[2], w)? % w as u64) as u32,
                };
                if k == 0 {
                    return Ok(if e == Fshl { a[0].clone() } else { a[1].clone() });
                }
                let (l, r) = if e == Fshl { (k, w - k) } else { (w - k, k) };
                let hi = bin(B::Shl, &x, &cst128(l as u128, w));
                let lo = bin(B::LShr, &y, &cst128(r as u128, w));
                V::s(or(&hi, &lo))
            }
            _ => return err("int1"),
        })
    }

    // ---------- environment ----------
    fn sysext(&mut self, st: &mut State, ci: &CallI, e: Ext, a: &[V]) -> R<V> {
        use Ext::*;
        let w = ci.ret.bits().max(1);
        let fail = |s: &mut Exec, st: &mut State, n: u64| -> R<V> {
            s.set_errno(st, n);
            Ok(V::C(mask(w)))
        };
        match e {
            Errno => Ok(V::C(self.g.cell)),
            Getenv => Ok(V::C(0)),
            Sysconf => Ok(V::C(match self.conc(st, &a[0], 32)? {
                30 => 4096,
                _ => 1,
            })),
            ClockGettime => {
                let p = self.conc(st, &a[1], 64)?;
                st.clock += 1;
                st.mem.write(p, 8, 1_700_000_000 + st.clock as u128 / 1000);
                st.mem.write(p + 8, 8, (st.clock as u128 % 1000) * 1_000_000);
                Ok(V::C(0))
            }
            Getrandom => {
                let p = self.conc(st, &a[0], 64)?;
                let n = self.conc(st, &a[1], 64)?;
                st.mem.fill(p, 0, n);
                Ok(V::C(n))
            }
            Syscall => {
                let nr = self.conc(st, &a[0], 64)?;
                match nr {
                    318 => {
                        let p = self.conc(st, &a[1], 64)?;
                        let n = self.conc(st, &a[2], 64)?;
                        st.mem.fill(p, 0, n);
                        Ok(V::C(n))
                    }
                    202 | 24 | 186 => Ok(V::C(0)), // futex, sched_yield, gettid
                    332 => {
                        self.set_errno(st, 38);
                        Ok(V::C(!0))
                    }
                    _ => {
                        self.set_errno(st, 38);
                        Ok(V::C(!0))
                    }
                }
            }
            PthreadCreate => Ok(V::C(0)),
            Open => {
                let p = self.conc(st, &a[0], 64)?;
                let path = self.cstr(st, p)?;
                let fl = self.conc(st, &a[1], 32)?;
                let fs = Arc::make_mut(&mut st.fs);
                let exists = fs.files.contains_key(&path);
                if !exists && fl & 0o100 == 0 {
                    return fail(self, st, 2);
                }
                if exists && fl & 0o200 != 0 && fl & 0o100 != 0 {
                    return fail(self, st, 17);
                }
                if !exists || fl & 0o1000 != 0 {
                    fs.files.insert(path.clone(), Arc::new(vec![]));
                }
                let mut fd = 10;
                while fs.fds.contains_key(&fd) {
                    fd += 1;
                }
                fs.fds.insert(fd, (path, 0, fl & 0o2000 != 0));
                Ok(V::C(fd))
            }
            Close => {
                let fd = self.conc(st, &a[0], 32)?;
                Arc::make_mut(&mut st.fs).fds.remove(&fd);
                Ok(V::C(0))
            }
            Read => {
                let fd = self.conc(st, &a[0], 32)?;
                let p = self.conc(st, &a[1], 64)?;
                let n = self.conc(st, &a[2], 64)?;
                let fs = Arc::make_mut(&mut st.fs);
                let (path, pos, ap) = match fs.fds.get(&fd) {
                    Some(x) => x.clone(),
                    None => return fail(self, st, 9),
                };
                let data = fs.files.get(&path).cloned().unwrap_or_default();
                let avail = (data.len() as u64).saturating_sub(pos);
                let k = n.min(avail);
                fs.fds.insert(fd, (path, pos + k, ap));
                for i in 0..k {
                    match &data[(pos + i) as usize] {
                        Cell8::B(b) => st.mem.write(p + i, 1, *b as u128),
                        Cell8::S(e) => st.mem.write_sym(p + i, 1, e),
                    }
                }
                Ok(V::C(k))
            }
            Write => {
                let fd = self.conc(st, &a[0], 32)?;
                let p = self.conc(st, &a[1], 64)?;
                let n = self.conc(st, &a[2], 64)?;
                self.fwrite(st, fd, p, n)?;
                Ok(V::C(n))
            }
            Writev => {
                let fd = self.conc(st, &a[0], 32)?;
                let iov = self.conc(st, &a[1], 64)?;
                let cnt = self.conc(st, &a[2], 32)?;
                let mut t = 0;
                for k in 0..cnt {
                    let p = self.rd(st, iov + 16 * k, 64, 8)?;
                    let p = self.conc(st, &p, 64)?;
                    let n = self.rd(st, iov + 16 * k + 8, 64, 8)?;
                    let n = self.conc(st, &n, 64)?;
                    self.fwrite(st, fd, p, n)?;
                    t += n;
                }
                Ok(V::C(t))
            }
            Lseek => {
                let fd = self.conc(st, &a[0], 32)?;
                let off = self.conc(st, &a[1], 64)? as i64;
                let wh = self.conc(st, &a[2], 32)?;
                let fs = Arc::make_mut(&mut st.fs);
                let (path, pos, ap) = match fs.fds.get(&fd) {
                    Some(x) => x.clone(),
                    None => return fail(self, st, 9),
                };
                let len = fs.files.get(&path).map_or(0, |d| d.len()) as i64;
                let np = match wh {
                    0 => off,
                    1 => pos as i64 + off,
                    _ => len + off,
                };
                fs.fds.insert(fd, (path, np as u64, ap));
                Ok(V::C(np as u64))
            }
            Fstat | Stat | Statx => {
                // struct stat: mode at 24, size at 48; statx goes through ENOSYS
                if e == Statx {
                    return fail(self, st, 38);
                }
                let path = if e == Fstat {
                    let fd = self.conc(st, &a[0], 32)?;
                    match st.fs.fds.get(&fd) {
                        Some(x) => x.0.clone(),
                        None => return fail(self, st, 9),
                    }
                } else {
                    let p = self.conc(st, &a[0], 64)?;
                    self.cstr(st, p)?
                };
                let len = match st.fs.files.get(&path) {
                    Some(d) => d.len(),
                    None => return fail(self, st, 2),
                };
                let b = self.conc(st, &a[1], 64)?;
                st.mem.fill(b, 0, 144);
                st.mem.write(b + 24, 4, 0o100644);
                st.mem.write(b + 48, 8, len as u128);
                Ok(V::C(0))
            }
            Fcntl => Ok(V::C(0)),
            Unlink => {
                let p = self.conc(st, &a[0], 64)?;
                let path = self.cstr(st, p)?;
                match Arc::make_mut(&mut st.fs).files.remove(&path) {
                    Some(_) => Ok(V::C(0)),
                    None => fail(self, st, 2),
                }
            }
            Rename => {
                let p = self.conc(st, &a[0], 64)?;
                let q = self.conc(st, &a[1], 64)?;
                let (p, q) = (self.cstr(st, p)?, self.cstr(st, q)?);
                let fs = Arc::make_mut(&mut st.fs);
                match fs.files.remove(&p) {
                    Some(d) => {
                        fs.files.insert(q, d);
                        Ok(V::C(0))
                    }
                    None => fail(self, st, 2),
                }
            }
            StrError => {
                let n = self.conc(st, &a[0], 32)?;
                let p = self.conc(st, &a[1], 64)?;
                let mut m = format!("error {}", n as u32).into_bytes();
                m.push(0);
                st.mem.put_bytes(p, &m);
                Ok(V::C(0))
            }
            Mkdir => Ok(V::C(0)),
            Ftruncate => {
                let fd = self.conc(st, &a[0], 32)?;
                let n = self.conc(st, &a[1], 64)? as usize;
                let fs = Arc::make_mut(&mut st.fs);
                if let Some((path, ..)) = fs.fds.get(&fd).cloned() {
                    if let Some(d) = fs.files.get_mut(&path) {
                        Arc::make_mut(d).resize(n, Cell8::B(0));
                    }
                }
                Ok(V::C(0))
            }
            Realpath => {
                let p = self.conc(st, &a[0], 64)?;
                let mut path = self.cstr(st, p)?;
                if !st.fs.files.contains_key(&path) {
                    self.set_errno(st, 2);
                    return Ok(V::C(0));
                }
                path.push(0);
                let q = self.malloc(st, path.len() as u64, 16)?;
                st.mem.put_bytes(q, &path);
                Ok(V::C(q))
            }
            _ => err(format!("unmodelled external {:?}", e)),
        }
    }
    fn fwrite(&mut self, st: &mut State, fd: u64, p: u64, n: u64) -> R<()> {
        if fd < 3 {
            if std::env::var("SYMX_STDERR").is_ok() {
                let b = st.mem.get(p, n);
                eprint!("{}", String::from_utf8_lossy(&b.bytes));
            }
            return Ok(());
        }
        let b = st.mem.get(p, n);
        let fs = Arc::make_mut(&mut st.fs);
        let (path, mut pos, ap) = match fs.fds.get(&fd) {
            Some(x) => x.clone(),
            None => return err("write to a closed descriptor"),
        };
        let d = Arc::make_mut(fs.files.entry(path.clone()).or_default());
        if ap {
            pos = d.len() as u64;
        }
        for i in 0..n as usize {
            let c = match b.sym_byte(i) {
                Some(e) => Cell8::S(e),
                None => Cell8::B(b.bytes[i]),
            };
            let k = pos as usize + i;
            if k < d.len() {
                d[k] = c;
            } else {
                while d.len() < k {
                    d.push(Cell8::B(0));
                }
                d.push(c);
            }
        }
        fs.fds.insert(fd, (path, pos + n, ap));
        Ok(())
    }

    // ---------- driving ----------
    fn inputs(&self, st: &State, p: &Path) -> Vec<u64> {
        st.inputs
            .iter()
            .map(|i| match i {
                In::Var(id, off) => (p.model[*id as usize]).wrapping_add(*off as u64),
                In::Const(c) => *c,
                // a spread of distinct probabilities in [2^-10, 1]
                In::Atom(k) => (0.07 + 0.83 * (((*k as f64) * 0.618033988 + 0.13) % 1.0)).to_bits(),
            })
            .collect()
    }
    fn report(&mut self, st: &State, p: &Path, kind: Kind, msg: String) {
        let mut v = self.g.viols.lock().unwrap();
        let n = v.iter().filter(|x| x.kind == kind).count();
        if n < self.g.cfg.max_viol {
            v.push(Viol { kind, msg, inputs: self.inputs(st, p), real: st.natoms > 0, path: self.stack_trace(st) });
        }
    }
    fn sample(&mut self, st: &State, end: &'static str) {
        self.nsamp += 1;
        // reservoir-like: dense at first, then sparser
        let n = self.nsamp;
        if n > 8 && n & (n - 1) != 0 && n % 97 != 0 {
            return;
        }
        let mut s = self.g.samples.lock().unwrap();
        if s.len() >= self.g.cfg.samples {
            return;
        }
        if st.obs.iter().any(|v| matches!(v, V::S(e) if matches!(e.k, K::Real(..)))) || st.natoms > 0 {
            return;
        }
        let obs = st
            .obs
            .iter()
            .map(|v| match v {
                V::C(c) => *c,
                V::S(e) => st.path.eval(e) as u64,
                V::Big(b) => **b as u64,
                _ => 0,
            })
            .collect();
        s.push(Sample { inputs: self.inputs(st, &st.path), obs, end });
    }
    fn finish(&mut self, mut st: State, e: End) {
        self.g.steps.fetch_add(st.steps, Relaxed);
        self.g.max_path_steps.fetch_max(st.steps, Relaxed);
        let done = matches!(e, End::Done);
        match e {
            End::Done | End::Panicked => {
                self.g.paths.fetch_add(1, Relaxed);
                if !done {
                    self.g.panicked.fetch_add(1, Relaxed);
                }
                {
                    let mut r = self.g.reach.lock().unwrap();
                    for id in &st.reached {
                        *r.entry(*id).or_insert(0) += 1;
                    }
                }
                if st.failed == 0 {
                    self.sample(&st, if done { "done" } else { "panic" });
                }
            }
            End::Violation(k, m) => {
                self.g.paths.fetch_add(1, Relaxed);
                let p = std::mem::take(&mut st.path);
                self.report(&st, &p, k, m);
                let v = self.g.viols.lock().unwrap();
                if v.len() >= 4 * self.g.cfg.max_viol {
                    self.g.stop.store(true, Relaxed);
                    self.g.cv.notify_all();
                }
            }
            End::Error(m) => {
                *self.g.errors.lock().unwrap().entry(m).or_insert(0) += 1;
            }
        }
    }
    fn give(&mut self, local: &mut Vec<State>) {
        if local.len() > 1 && self.g.idle.load(Relaxed) > 0 {
            let mut q = self.g.queue.lock().unwrap();
            if q.len() < self.g.cfg.threads {
                let s = local.remove(0);
                q.push(s);
                self.g.cv.notify_one();
            }
        }
    }
    pub fn work(&mut self) {
        let mut local: Vec<State> = vec![];
        loop {
            let mut st = match local.pop() {
                Some(s) => s,
                None => {
                    let g = self.g.clone();
                    let mut q = g.queue.lock().unwrap();
                    let s = loop {
                        if g.stop.load(Relaxed) {
                            g.cv.notify_all();
                            self.flush();
                            return;
                        }
                        if let Some(s) = q.pop() {
                            break s;
                        }
                        g.idle.fetch_add(1, Relaxed);
                        if g.idle.load(Relaxed) == g.cfg.threads {
                            g.stop.store(true, Relaxed);
                            g.cv.notify_all();
                            self.flush();
                            return;
                        }
                        q = g.cv.wait_timeout(q, std::time::Duration::from_millis(50)).unwrap().0;
                        g.idle.fetch_sub(1, Relaxed);
                    };
                    s
                }
            };
            if self.g.stop.load(Relaxed) {
                self.flush();
                return;
            }
            match self.run(&mut st) {
                Stop::Kill => {
                    self.g.killed.fetch_add(1, Relaxed);
                    self.g.steps.fetch_add(st.steps, Relaxed);
                }
                Stop::End(e) => self.finish(st, e),
                Stop::Choose(c) => {
                    *self.forks.entry((st.top.fid, st.top.pc)).or_insert(0) += 1;
                    {
                        // sym_choose: one path per value
                        let ci = match &st.top.f.code[st.top.pc as usize] {
                            I::Call(ci) => ci.d,
                            _ => -1,
                        };
                        let (id, n) = match &c.k {
                            K::Var { id, hi, .. } => (*id, *hi),
                            _ => unreachable!(),
                        };
                        st.top.pc += 1;
                        self.g.forks.fetch_add(n, Relaxed);
                        for k in (0..=n).rev() {
                            let mut s = if k == 0 { std::mem::replace(&mut st, dummy(&self.g)) } else { st.clone() };
                            let mut m = (*s.path.model).clone();
                            m[id as usize] = k;
                            let eq = eqc(&c, k);
                            self.sol.assume(&mut s.path, &eq, Arc::new(m));
                            if ci >= 0 {
                                s.top.regs[ci as usize] = V::C(k);
                            }
                            local.push(s);
                        }
                    }
                    self.give(&mut local);
                }
                Stop::Split(c) => {
                    *self.forks.entry((st.top.fid, st.top.pc)).or_insert(0) += 1;
                    st.depth += 1;
                    {
                        let (t, f) = self.sol.decide(&st.path, &c);
                        let mut other = st.clone();
                        self.g.forks.fetch_add(1, Relaxed);
                        if let Side::Yes(m) = f {
                            let n = not(&c);
                            self.sol.assume(&mut other.path, &n, m);
                            local.push(other);
                        }
                        if let Side::Yes(m) = t {
                            self.sol.assume(&mut st.path, &c, m);
                            local.push(st);
                        }
                    }
                    self.give(&mut local);
                    if self.g.paths.load(Relaxed) + self.g.killed.load(Relaxed) > self.g.cfg.max_paths {
                        self.g.timed_out.store(true, Relaxed);
                        self.g.stop.store(true, Relaxed);
                        self.g.cv.notify_all();
                    }
                }
            }
        }
    }
    fn flush(&mut self) {
        for (i, c) in self.called.iter().enumerate() {
            if *c {
                self.g.calls[i].store(true, Relaxed);
            }
        }
        let mut f = self.g.forkpc.lock().unwrap();
        for (k, v) in self.forks.drain() {
            *f.entry(k).or_insert(0) += v;
        }
    }
}
pub const E_ATOM: u32 = 1_000_000;
fn zext1(e: &Ex, w: u32) -> Ex {
    zext(e, w)
}
fn eqc128(e: &Ex, c: u128) -> Ex {
    bin(B::Eq, e, &cst128(c, e.w()))
}
fn int_of(t: f64, r: fn(f64) -> f64) -> Option<i64> {
    let v = r(t);
    if v.is_finite() && v.abs() < 9e18 {
        Some(v as i64)
    } else {
        None
    }
}
fn self_cmp(p: Fp, x: f64, y: f64) -> bool {
    match p {
        Fp::Oeq | Fp::Ueq => x == y,
        Fp::One | Fp::Une => x != y,
        Fp::Olt | Fp::Ult => x < y,
        Fp::Ole | Fp::Ule => x <= y,
        Fp::Ogt | Fp::Ugt => x > y,
        Fp::Oge | Fp::Uge => x >= y,
        Fp::False | Fp::Uno => false,
        Fp::True | Fp::Ord => true,
    }
}
fn dummy(g: &Global_) -> State {
    let f = Arc::new(Func { name: String::new(), nparams: 0, nregs: 0, code: vec![], edges: vec![], consts: vec![], nblocks: 0 });
    State {
        mem: Mem::default(),
        top: Frame { f, fid: 0, pc: 0, regs: vec![], ret: -1, sp: 0 },
        stack: vec![],
        sp: g.stack_top,
        brk: g.heap_base,
        free: [0; 48],
        path: Path::default(),
        inputs: vec![],
        obs: vec![],
        reached: vec![],
        steps: 0,
        panic_ok: false,
        hash_const: false,
        real_mode: false,
        fs: Arc::new(Fs::default()),
        natoms: 0,
        depth: 0,
        failed: 0,
        clock: 0,
    }
}
pub fn initial(g: &Global_) -> State {
    let mut st = dummy(g);
    let id = *g.m.fmap.get(&g.cfg.entry).unwrap_or_else(|| panic!("no entry {}", g.cfg.entry));
    let f = g.m.func(id).clone();
    for (a, b) in &g.m.image {
        st.mem.put_bytes(*a, b);
    }
    st.top = Frame { regs: vec![V::C(0); f.nregs as usize], f, fid: id, pc: 0, ret: -1, sp: g.stack_top };
    st
}
