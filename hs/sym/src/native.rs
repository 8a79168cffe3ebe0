//! Native replay backend.  Input: a list of values in the order the symbolic
//! inputs were created; expected observations; tier.
use std::sync::Mutex;

#[derive(Default)]
pub struct Replay {
    pub inputs: Vec<u64>,
    pub pos: usize,
    pub observed: Vec<u64>,
    pub failed: Vec<u64>,
    pub reached: Vec<u64>,
    pub diverged: bool,
    pub tier: u64,
    pub panic_ok: bool,
}
pub static REPLAY: Mutex<Option<Replay>> = Mutex::new(None);

/// Payload used to leave a path whose assumption is false.
pub struct AssumeFailed;

pub fn with<T>(f: impl FnOnce(&mut Replay) -> T) -> T {
    let mut g = match REPLAY.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    };
    f(g.get_or_insert_with(Replay::default))
}
fn next() -> Option<u64> {
    with(|r| {
        let v = r.inputs.get(r.pos).copied();
        r.pos += 1;
        if v.is_none() {
            r.diverged = true;
        }
        v
    })
}
pub unsafe fn sym_u64(lo: u64, hi: u64) -> u64 {
    let v = next().unwrap_or(lo);
    if v < lo || v > hi {
        with(|r| r.diverged = true);
        return lo;
    }
    v
}
pub unsafe fn sym_f64(lo: i64, hi: i64, scale: u64) -> f64 {
    let v = next().map(|v| v as i64).unwrap_or(lo);
    if v < lo || v > hi {
        with(|r| r.diverged = true);
    }
    (v as f64) * (2f64).powi(-(scale as i32))
}
pub unsafe fn sym_choose(n: u64) -> u64 {
    sym_u64(0, n.saturating_sub(1))
}
pub unsafe fn sym_concretize(v: u64) -> u64 {
    v
}
pub unsafe fn sym_assume(c: bool) {
    if !c {
        std::panic::panic_any(AssumeFailed);
    }
}
pub unsafe fn sym_assert(c: bool, id: u64) {
    if !c {
        with(|r| r.failed.push(id));
    }
}
pub unsafe fn sym_reach(id: u64) {
    with(|r| r.reached.push(id));
}
pub unsafe fn sym_observe(v: u64) {
    with(|r| r.observed.push(v));
}
pub unsafe fn sym_panic_ok(on: u64) {
    with(|r| r.panic_ok = on != 0);
}
pub unsafe fn sym_hash_const(_on: u64) {}
pub unsafe fn sym_tier() -> u64 {
    with(|r| r.tier)
}
pub unsafe fn sym_real_mode(_on: u64) {}
pub unsafe fn sym_f64_close(a: f64, b: f64) -> bool {
    if a.is_nan() || b.is_nan() {
        return false;
    }
    a == b || (a - b).abs() <= 1e-6 * 1f64.max(a.abs()).max(b.abs())
}
pub unsafe fn sym_log_atom() -> f64 {
    f64::from_bits(next().unwrap_or(1f64.to_bits())).ln()
}
pub unsafe fn sym_log(p: *const u8, n: usize) {
    eprintln!("log: {}", String::from_utf8_lossy(std::slice::from_raw_parts(p, n)));
}
