//! `std` as the command-line tool's sources see it in a harness build: the
//! real one, with locks and atomics whose operations are scheduling points.
pub use ::std::*;

pub mod sync {
    pub use ::std::sync::*;
    use ::std::fmt;
    use ::sym::sched::{blocked, sync_point};

    macro_rules! common {
        ($n:ident) => {
            impl<T> $n<T> {
                pub const fn new(t: T) -> Self {
                    $n(::std::sync::$n::new(t))
                }
                pub fn into_inner(self) -> LockResult<T> {
                    self.0.into_inner()
                }
            }
            impl<T: ?Sized> $n<T> {
                pub fn get_mut(&mut self) -> LockResult<&mut T> {
                    self.0.get_mut()
                }
                pub fn is_poisoned(&self) -> bool {
                    self.0.is_poisoned()
                }
                pub fn clear_poison(&self) {
                    self.0.clear_poison()
                }
            }
            impl<T: Default> Default for $n<T> {
                fn default() -> Self {
                    $n::new(T::default())
                }
            }
            impl<T> From<T> for $n<T> {
                fn from(t: T) -> Self {
                    $n::new(t)
                }
            }
            impl<T: ?Sized + fmt::Debug> fmt::Debug for $n<T> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    self.0.fmt(f)
                }
            }
        };
    }
    macro_rules! lock {
        ($s:ident, $t:ident, $l:ident) => {{
            sync_point();
            match $s.0.$t() {
                Ok(g) => Ok(g),
                Err(TryLockError::Poisoned(e)) => Err(e),
                Err(TryLockError::WouldBlock) => {
                    blocked();
                    $s.0.$l()
                }
            }
        }};
    }
    pub struct Mutex<T: ?Sized>(::std::sync::Mutex<T>);
    common!(Mutex);
    impl<T: ?Sized> Mutex<T> {
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            lock!(self, try_lock, lock)
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            sync_point();
            self.0.try_lock()
        }
    }
    pub struct RwLock<T: ?Sized>(::std::sync::RwLock<T>);
    common!(RwLock);
    impl<T: ?Sized> RwLock<T> {
        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            lock!(self, try_read, read)
        }
        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            lock!(self, try_write, write)
        }
        pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
            sync_point();
            self.0.try_read()
        }
        pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
            sync_point();
            self.0.try_write()
        }
    }

    pub mod atomic {
        pub use ::std::sync::atomic::*;
        use ::std::fmt;
        use ::sym::sched::sync_point;

        macro_rules! base {
            ($n:ident, $t:ty) => {
                #[derive(Default)]
                pub struct $n(::std::sync::atomic::$n);
                impl $n {
                    pub const fn new(t: $t) -> Self {
                        $n(::std::sync::atomic::$n::new(t))
                    }
                    pub fn into_inner(self) -> $t {
                        self.0.into_inner()
                    }
                    pub fn get_mut(&mut self) -> &mut $t {
                        self.0.get_mut()
                    }
                    pub fn load(&self, o: Ordering) -> $t {
                        sync_point();
                        self.0.load(o)
                    }
                    pub fn store(&self, t: $t, o: Ordering) {
                        sync_point();
                        self.0.store(t, o)
                    }
                    pub fn compare_exchange(&self, a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t> {
                        sync_point();
                        self.0.compare_exchange(a, b, o, p)
                    }
                    pub fn compare_exchange_weak(&self, a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t> {
                        sync_point();
                        self.0.compare_exchange(a, b, o, p)
                    }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, o: Ordering, p: Ordering, f: F) -> Result<$t, $t> {
                        sync_point();
                        self.0.fetch_update(o, p, f)
                    }
                }
                impl From<$t> for $n {
                    fn from(t: $t) -> Self {
                        $n::new(t)
                    }
                }
                impl fmt::Debug for $n {
                    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                        self.0.fmt(f)
                    }
                }
            };
        }
        macro_rules! ops {
            ($n:ident, $t:ty, $($m:ident)*) => {
                impl $n {$(
                    pub fn $m(&self, t: $t, o: Ordering) -> $t {
                        sync_point();
                        self.0.$m(t, o)
                    }
                )*}
            };
        }
        macro_rules! int {
            ($($n:ident $t:ty;)*) => {$(
                base!($n, $t);
                ops!($n, $t, swap fetch_add fetch_sub fetch_and fetch_nand fetch_or fetch_xor fetch_max fetch_min);
            )*};
        }
        int! {
            AtomicU8 u8; AtomicU16 u16; AtomicU32 u32; AtomicU64 u64; AtomicUsize usize;
            AtomicI8 i8; AtomicI16 i16; AtomicI32 i32; AtomicI64 i64; AtomicIsize isize;
        }
        base!(AtomicBool, bool);
        ops!(AtomicBool, bool, swap fetch_and fetch_nand fetch_or fetch_xor);
    }
}
