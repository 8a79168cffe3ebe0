//! Symbolic-input interface used by harnesses and by the environment stubs.
//!
//! Under the symbolic executor the `sym_*` functions are intercepted by the
//! engine.  In a native replay build (`--cfg sym_native`) they read the values
//! the solver chose from a replay record.

#[cfg(not(sym_native))]
mod imp {
    extern "C" {
        pub fn sym_u64(lo: u64, hi: u64) -> u64;
        pub fn sym_f64(lo: i64, hi: i64, scale: u64) -> f64;
        pub fn sym_choose(n: u64) -> u64;
        pub fn sym_concretize(v: u64) -> u64;
        pub fn sym_assume(c: bool);
        pub fn sym_assert(c: bool, id: u64);
        pub fn sym_reach(id: u64);
        pub fn sym_observe(v: u64);
        pub fn sym_panic_ok(on: u64);
        pub fn sym_hash_const(on: u64);
        pub fn sym_tier() -> u64;
        pub fn sym_real_mode(on: u64);
        pub fn sym_f64_close(a: f64, b: f64) -> bool;
        pub fn sym_log_atom() -> f64;
        pub fn sym_log(p: *const u8, n: usize);
    }
}

pub mod fault;
pub mod sched;
#[cfg(sym_native)]
pub mod native;
#[cfg(sym_native)]
use native as imp;

#[inline(never)]
pub fn u64_in(lo: u64, hi: u64) -> u64 {
    unsafe { imp::sym_u64(lo, hi) }
}
#[inline(never)]
pub fn byte_in(lo: u8, hi: u8) -> u8 {
    unsafe { imp::sym_u64(lo as u64, hi as u64) as u8 }
}
#[inline(never)]
pub fn bit() -> bool {
    unsafe { imp::sym_u64(0, 1) != 0 }
}
/// A float `k * 2^-scale` with `k` anywhere in `[lo, hi]`.
#[inline(never)]
pub fn f64_in(lo: i64, hi: i64, scale: u64) -> f64 {
    unsafe { imp::sym_f64(lo, hi, scale) }
}
/// A value in `0..n`; every value is explored on a path of its own.
#[inline(never)]
pub fn choose(n: usize) -> usize {
    unsafe { imp::sym_choose(n as u64) as usize }
}
#[inline(never)]
pub fn concretize(v: u64) -> u64 {
    unsafe { imp::sym_concretize(v) }
}
#[inline(never)]
pub fn assume(c: bool) {
    unsafe { imp::sym_assume(c) }
}
#[inline(never)]
pub fn check(c: bool, id: u64) {
    unsafe { imp::sym_assert(c, id) }
}
#[inline(never)]
pub fn reach(id: u64) {
    unsafe { imp::sym_reach(id) }
}
#[inline(never)]
pub fn observe(v: u64) {
    unsafe { imp::sym_observe(v) }
}
#[inline(never)]
pub fn panic_ok(on: bool) {
    unsafe { imp::sym_panic_ok(on as u64) }
}
#[inline(never)]
pub fn hash_const(on: bool) {
    unsafe { imp::sym_hash_const(on as u64) }
}
/// 0 = quick, 1 = thorough.
#[inline(never)]
pub fn tier() -> u64 {
    unsafe { imp::sym_tier() }
}
#[inline(never)]
pub fn real_mode(on: bool) {
    unsafe { imp::sym_real_mode(on as u64) }
}
/// Equality up to rounding: exact equality of the real-algebra terms in the
/// engine's real mode, |a-b| <= 1e-6*max(1,|a|,|b|) natively.
#[inline(never)]
pub fn close(a: f64, b: f64) -> bool {
    unsafe { imp::sym_f64_close(a, b) }
}
/// The logarithm of an arbitrary probability (real-algebra atom).
#[inline(never)]
pub fn log_atom() -> f64 {
    unsafe { imp::sym_log_atom() }
}
/// Debug output.
#[inline(never)]
pub fn log(b: &[u8]) {
    unsafe { imp::sym_log(b.as_ptr(), b.len()) }
}
pub fn observe_bytes(b: &[u8]) {
    observe(b.len() as u64);
    for x in b {
        observe(*x as u64);
    }
}

/// `harnesses! { fn a() {..} fn b() {..} }` defines exported entry points and
/// the table the native replay binary uses.
#[macro_export]
macro_rules! entries {
    ($($n:ident),* $(,)?) => {
        pub const TABLE: &[(&str, fn())] = &[$((stringify!($n), $n as fn())),*];
    };
}
