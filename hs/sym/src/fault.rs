//! Failing system calls.  While a budget is set, every open, read and write on a
//! file may fail or be cut short, each possibility on a path of its own.
use core::sync::atomic::{AtomicU64, Ordering::Relaxed};

static BUDGET: AtomicU64 = AtomicU64::new(0);
static HARD: AtomicU64 = AtomicU64::new(0);

/// Allows up to `n` faults from here on; 0 stops them.
pub fn allow(n: u64) {
    BUDGET.store(n, Relaxed);
    HARD.store(0, Relaxed);
}
/// How many faults that no caller can make up for (as opposed to interrupted or
/// short calls) have happened since `allow`.
pub fn hard() -> u64 {
    HARD.load(Relaxed)
}

static KEEP: AtomicU64 = AtomicU64::new(0);
static OUTPUT: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());
/// Keeps what is printed while `f` runs.
pub fn printed(f: impl FnOnce()) -> Vec<u8> {
    OUTPUT.lock().unwrap().clear();
    KEEP.store(1, Relaxed);
    f();
    let _ = std::io::Write::flush(&mut std::io::stdout());
    KEEP.store(0, Relaxed);
    std::mem::take(&mut *OUTPUT.lock().unwrap())
}

#[cfg(not(sym_native))]
mod raw {
    extern "C" {
        pub fn sym_raw_write(fd: i32, p: *const u8, n: usize) -> isize;
        pub fn sym_raw_read(fd: i32, p: *mut u8, n: usize) -> isize;
        pub fn sym_raw_open(p: *const u8, flags: i32, mode: u32) -> i32;
        pub fn __errno_location() -> *mut i32;
    }
}
#[cfg(sym_native)]
mod raw {
    extern "C" {
        fn syscall(n: i64, ...) -> i64;
        pub fn __errno_location() -> *mut i32;
    }
    pub unsafe fn sym_raw_write(fd: i32, p: *const u8, n: usize) -> isize {
        syscall(1, fd as i64, p, n) as isize
    }
    pub unsafe fn sym_raw_read(fd: i32, p: *mut u8, n: usize) -> isize {
        syscall(0, fd as i64, p, n) as isize
    }
    pub unsafe fn sym_raw_open(p: *const u8, flags: i32, mode: u32) -> i32 {
        syscall(2, p, flags as i64, mode as i64) as i32
    }
}
unsafe fn fail(e: i32) {
    *raw::__errno_location() = e;
}
fn spend(hard: bool) {
    BUDGET.store(BUDGET.load(Relaxed) - 1, Relaxed);
    if hard {
        HARD.store(HARD.load(Relaxed) + 1, Relaxed);
    }
}
/// Descriptors of the files the program was told to use (relative paths), as
/// opposed to those the runtime opens for itself.
static OURS: AtomicU64 = AtomicU64::new(0);
fn on(fd: i32) -> bool {
    fd > 2 && fd < 64 && OURS.load(Relaxed) >> fd & 1 == 1 && BUDGET.load(Relaxed) > 0
}
/// Where a call that transfers fewer bytes than asked for stops.
fn cut(n: usize) -> usize {
    match crate::choose(3) {
        0 => 1,
        1 => (n + 1) / 2,
        _ => n - 1,
    }
}
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn write(fd: i32, p: *const u8, n: usize) -> isize {
    if fd == 1 && KEEP.load(Relaxed) == 1 {
        OUTPUT.lock().unwrap().extend_from_slice(core::slice::from_raw_parts(p, n));
        return n as isize;
    }
    if on(fd) && n > 1 {
        match crate::choose(6) {
            0 => {}
            1 => {
                spend(false);
                return raw::sym_raw_write(fd, p, cut(n));
            }
            2 => {
                spend(false);
                fail(4); // EINTR
                return -1;
            }
            3 => {
                spend(true);
                return 0;
            }
            k => {
                spend(true);
                fail(if k == 4 { 28 } else { 5 }); // ENOSPC, EIO
                return -1;
            }
        }
    }
    raw::sym_raw_write(fd, p, n)
}
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn read(fd: i32, p: *mut u8, n: usize) -> isize {
    if on(fd) && n > 1 {
        match crate::choose(4) {
            0 => {}
            1 => {
                spend(false);
                return raw::sym_raw_read(fd, p, cut(n.min(300)));
            }
            2 => {
                spend(false);
                fail(4);
                return -1;
            }
            _ => {
                spend(true);
                fail(5);
                return -1;
            }
        }
    }
    raw::sym_raw_read(fd, p, n)
}
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn open64(p: *const u8, flags: i32, mode: u32) -> i32 {
    let ours = *p != b'/';
    if ours && BUDGET.load(Relaxed) > 0 {
        match crate::choose(4) {
            0 => {}
            1 => {
                spend(false);
                fail(4);
                return -1;
            }
            k => {
                spend(true);
                fail(if k == 2 { 13 } else { 24 }); // EACCES, EMFILE
                return -1;
            }
        }
    }
    let fd = raw::sym_raw_open(p, flags, mode);
    if fd >= 0 && fd < 64 {
        let m = OURS.load(Relaxed) & !(1 << fd);
        OURS.store(m | (ours as u64) << fd, Relaxed);
    }
    fd
}
