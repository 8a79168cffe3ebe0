//! Environment stub for `rand`: every draw returns an arbitrary value of the
//! documented range, chosen by the solver.
use std::ops::{Range, RangeInclusive};

pub trait Arb: Sized {
    fn arb() -> Self;
}
static FIXED: std::sync::Mutex<Option<f64>> = std::sync::Mutex::new(None);
/// Makes every real draw from the unit interval return this value.
pub fn __fix(x: Option<f64>) {
    *FIXED.lock().unwrap() = x;
}
static SEQ: std::sync::Mutex<Vec<f64>> = std::sync::Mutex::new(Vec::new());
/// Makes the next real draws return these values, the last one first, before
/// what `__fix` has set.
pub fn __fix_seq(x: Vec<f64>) {
    *SEQ.lock().unwrap() = x;
}
impl Arb for f64 {
    fn arb() -> f64 {
        if let Some(x) = SEQ.lock().unwrap().pop() {
            return x;
        }
        if let Some(x) = *FIXED.lock().unwrap() {
            return x;
        }
        sym::f64_in(0, (1 << 53) - 1, 53)
    }
}
impl Arb for f32 {
    fn arb() -> f32 {
        if let Some(x) = SEQ.lock().unwrap().pop() {
            return x as f32;
        }
        if let Some(x) = *FIXED.lock().unwrap() {
            return x as f32;
        }
        sym::f64_in(0, (1 << 24) - 1, 24) as f32
    }
}
impl Arb for bool {
    fn arb() -> bool {
        sym::bit()
    }
}
macro_rules! arb_int {
    ($($t:ty),*) => {$(
        impl Arb for $t { fn arb() -> $t { sym::u64_in(0, (<$t>::MAX as u64) | ((<$t>::MIN != 0) as u64) << (<$t>::BITS - 1)) as $t } }
        impl SampleRange<$t> for Range<$t> { fn one(self) -> $t { assert!(self.start < self.end, "cannot sample empty range"); self.start.wrapping_add(sym::u64_in(0, (self.end.wrapping_sub(self.start) as u64) - 1) as $t) } }
        impl SampleRange<$t> for RangeInclusive<$t> { fn one(self) -> $t { let (a, b) = self.into_inner(); assert!(a <= b, "cannot sample empty range"); a.wrapping_add(sym::u64_in(0, b.wrapping_sub(a) as u64) as $t) } }
    )*};
}
pub trait SampleRange<T> {
    fn one(self) -> T;
}
arb_int!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
impl SampleRange<f64> for Range<f64> {
    fn one(self) -> f64 {
        assert!(self.start < self.end, "cannot sample empty range");
        let r = f64::arb();
        if self.start == 0.0 && self.end == 1.0 {
            r
        } else {
            self.start + r * (self.end - self.start)
        }
    }
}
impl SampleRange<f64> for RangeInclusive<f64> {
    fn one(self) -> f64 {
        let (a, b) = self.into_inner();
        assert!(a <= b, "cannot sample empty range");
        let r = match SEQ.lock().unwrap().pop().or(*FIXED.lock().unwrap()) {
            Some(x) => x,
            None => sym::f64_in(0, 1 << 53, 53),
        };
        if a == 0.0 && b == 1.0 {
            r
        } else {
            a + r * (b - a)
        }
    }
}
impl SampleRange<f32> for Range<f32> {
    fn one(self) -> f32 {
        assert!(self.start < self.end, "cannot sample empty range");
        self.start + f32::arb() * (self.end - self.start)
    }
}
impl SampleRange<f32> for RangeInclusive<f32> {
    fn one(self) -> f32 {
        let (a, b) = self.into_inner();
        assert!(a <= b, "cannot sample empty range");
        a + f32::arb() * (b - a)
    }
}

pub fn random<T: Arb>() -> T {
    T::arb()
}

pub trait RngCore {
    fn next_u32(&mut self) -> u32 {
        u32::arb()
    }
    fn next_u64(&mut self) -> u64 {
        u64::arb()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest {
            *b = u8::arb();
        }
    }
}
pub trait CryptoRng {}

pub trait Rng: RngCore {
    fn gen<T: Arb>(&mut self) -> T {
        T::arb()
    }
    fn gen_range<T, R: SampleRange<T>>(&mut self, r: R) -> T {
        r.one()
    }
    fn gen_bool(&mut self, p: f64) -> bool {
        assert!((0.0..=1.0).contains(&p), "p={:?} is outside range [0.0, 1.0]", p);
        f64::arb() < p
    }
    fn gen_ratio(&mut self, n: u32, d: u32) -> bool {
        (sym::u64_in(0, d as u64 - 1) as u32) < n
    }
    fn sample<T, D: distributions::Distribution<T>>(&mut self, d: D) -> T
    where
        Self: Sized,
    {
        d.sample(self)
    }
}
impl<R: RngCore + ?Sized> Rng for R {}
impl<R: RngCore + ?Sized> RngCore for &mut R {}

pub trait SeedableRng: Sized {
    type Seed: Default;
    fn make() -> Self;
    fn from_seed(_: Self::Seed) -> Self {
        Self::make()
    }
    fn seed_from_u64(_: u64) -> Self {
        Self::make()
    }
    fn from_entropy() -> Self {
        Self::make()
    }
    fn from_rng<R: RngCore>(_: R) -> Result<Self, Error> {
        Ok(Self::make())
    }
}
#[derive(Debug)]
pub struct Error;
pub mod rngs {
    macro_rules! rng {
        ($($n:ident),*) => {$(
            #[derive(Clone, Debug, Default)]
            pub struct $n;
            impl super::RngCore for $n {}
            impl super::CryptoRng for $n {}
            impl super::SeedableRng for $n { type Seed = [u8; 32]; fn make() -> Self { $n } }
        )*};
    }
    rng!(ThreadRng, StdRng, SmallRng, OsRng);
}
pub fn thread_rng() -> rngs::ThreadRng {
    rngs::ThreadRng
}
pub mod distributions {
    use super::*;
    pub trait Distribution<T> {
        fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> T;
    }
    impl<T, D: Distribution<T>> Distribution<T> for &D {
        fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> T {
            (*self).sample(rng)
        }
    }
    pub struct Standard;
    impl<T: Arb> Distribution<T> for Standard {
        fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> T {
            T::arb()
        }
    }
    pub struct Bernoulli(f64);
    impl Bernoulli {
        pub fn new(p: f64) -> Result<Self, Error> {
            Ok(Bernoulli(p))
        }
    }
    impl Distribution<bool> for Bernoulli {
        fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> bool {
            rng.gen_bool(self.0)
        }
    }
    pub struct Uniform<T>(T, T, bool);
    impl<T: Copy> Uniform<T> {
        pub fn new(a: T, b: T) -> Self {
            Uniform(a, b, false)
        }
        pub fn new_inclusive(a: T, b: T) -> Self {
            Uniform(a, b, true)
        }
    }
    impl<T: Copy> From<Range<T>> for Uniform<T> {
        fn from(r: Range<T>) -> Self {
            Uniform(r.start, r.end, false)
        }
    }
    impl<T: Copy> Distribution<T> for Uniform<T>
    where
        Range<T>: SampleRange<T>,
        RangeInclusive<T>: SampleRange<T>,
    {
        fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> T {
            if self.2 {
                (self.0..=self.1).one()
            } else {
                (self.0..self.1).one()
            }
        }
    }
}
/// 0: shuffles keep the order (bound stated by the harness); 1: arbitrary permutation.
pub static SHUFFLE_MODE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(1);
pub mod seq {
    use super::*;
    pub trait SliceRandom {
        type Item;
        fn shuffle<R: Rng + ?Sized>(&mut self, rng: &mut R);
        fn choose<R: Rng + ?Sized>(&self, rng: &mut R) -> Option<&Self::Item>;
        fn choose_mut<R: Rng + ?Sized>(&mut self, rng: &mut R) -> Option<&mut Self::Item>;
    }
    impl<T> SliceRandom for [T] {
        type Item = T;
        fn shuffle<R: Rng + ?Sized>(&mut self, _rng: &mut R) {
            if SHUFFLE_MODE.load(std::sync::atomic::Ordering::Relaxed) == 0 {
                return;
            }
            for i in (1..self.len()).rev() {
                let j = sym::choose(i + 1);
                self.swap(i, j);
            }
        }
        fn choose<R: Rng + ?Sized>(&self, _rng: &mut R) -> Option<&T> {
            if self.is_empty() {
                None
            } else {
                Some(&self[sym::choose(self.len())])
            }
        }
        fn choose_mut<R: Rng + ?Sized>(&mut self, _rng: &mut R) -> Option<&mut T> {
            if self.is_empty() {
                None
            } else {
                let n = self.len();
                Some(&mut self[sym::choose(n)])
            }
        }
    }
    pub trait IteratorRandom: Iterator + Sized {
        fn choose<R: Rng + ?Sized>(self, _rng: &mut R) -> Option<Self::Item> {
            let mut v: Vec<_> = self.collect();
            if v.is_empty() {
                None
            } else {
                let i = sym::choose(v.len());
                Some(v.swap_remove(i))
            }
        }
    }
    impl<I: Iterator> IteratorRandom for I {}
}
pub mod prelude {
    pub use crate::distributions::Distribution;
    pub use crate::rngs::{SmallRng, StdRng, ThreadRng};
    pub use crate::seq::{IteratorRandom, SliceRandom};
    pub use crate::{random, thread_rng, CryptoRng, Rng, RngCore, SeedableRng};
}
