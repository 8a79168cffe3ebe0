//! Classification of functions the engine models itself.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ov {
    UAdd,
    USub,
    UMul,
    SAdd,
    SSub,
    SMul,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ext {
    /// has a body, interpret it
    Body,
    Nop,
    Unknown,
    // engine interface
    SymU64,
    SymF64,
    SymChoose,
    SymConcretize,
    SymAssume,
    SymAssert,
    SymReach,
    SymObserve,
    SymPanicOk,
    SymHashConst,
    SymHashFin,
    SymTier,
    SymRealMode,
    SymClose,
    SymLogAtom,
    SymPanic,
    SymLog,
    // memory
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    Memcpy,
    Memset,
    Bcmp,
    Memcmp,
    Strlen,
    // arithmetic intrinsics
    Over(Ov),
    UAddSat,
    USubSat,
    SAddSat,
    SSubSat,
    UMax,
    UMin,
    SMax,
    SMin,
    UCmp,
    SCmp,
    Abs,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitreverse,
    Fshl,
    Fshr,
    Expect,
    Assume,
    TlsAddr,
    Trap,
    ReduceOr,
    ReduceAnd,
    ReduceAdd,
    ReduceXor,
    Movmsk,
    // floating point
    F1(F1),
    F2(F2),
    Fma,
    Powi,
    IsFpClass,
    FpToISat(bool),
    ObjectSize,
    // libc
    Write,
    Writev,
    Read,
    Open,
    Close,
    Fstat,
    Statx,
    Stat,
    Lseek,
    Fcntl,
    Getenv,
    Errno,
    Syscall,
    ClockGettime,
    Getrandom,
    Abort,
    Zero,
    MinusOne,
    PthreadCreate,
    Unlink,
    Rename,
    StrError,
    Mkdir,
    Ftruncate,
    Realpath,
    Sysconf,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum F1 {
    Log,
    Log2,
    Log10,
    Ln1p,
    Exp,
    Exp2,
    ExpM1,
    Sqrt,
    Fabs,
    Floor,
    Ceil,
    Trunc,
    Round,
    RoundEven,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum F2 {
    Pow,
    Min,
    Max,
    CopySign,
    Minimum,
    Maximum,
    MinNumSz,
    MaxNumSz,
}

pub fn classify(name: &str, has_body: bool) -> Ext {
    use Ext::*;
    let e = match name {
        "sym_u64" => SymU64,
        "sym_f64" => SymF64,
        "sym_choose" => SymChoose,
        "sym_concretize" => SymConcretize,
        "sym_assume" => SymAssume,
        "sym_assert" => SymAssert,
        "sym_reach" => SymReach,
        "sym_observe" => SymObserve,
        "sym_panic_ok" => SymPanicOk,
        "sym_hash_const" => SymHashConst,
        "sym_hash_fin" => SymHashFin,
        "sym_tier" => SymTier,
        "sym_real_mode" => SymRealMode,
        "sym_f64_close" => SymClose,
        "sym_log_atom" => SymLogAtom,
        "sym_panic" => SymPanic,
        "sym_log" => SymLog,
        "malloc" => Malloc,
        "calloc" => Calloc,
        "realloc" => Realloc,
        "free" => Free,
        "posix_memalign" => PosixMemalign,
        "bcmp" => Bcmp,
        "memcmp" => Memcmp,
        "memcpy" | "memmove" => Memcpy,
        "memset" => Memset,
        "strlen" => Strlen,
        "write" | "sym_raw_write" => Write,
        "writev" => Writev,
        "read" | "sym_raw_read" => Read,
        "open64" | "open" | "sym_raw_open" => Open,
        "close" => Close,
        "fstat64" | "fstat" => Fstat,
        "stat64" | "stat" | "lstat64" | "lstat" => Stat,
        "statx" => Statx,
        "lseek64" | "lseek" => Lseek,
        "fcntl" | "fcntl64" => Fcntl,
        "getenv" => Getenv,
        "__errno_location" => Errno,
        "syscall" => Syscall,
        "clock_gettime" => ClockGettime,
        "getrandom" => Getrandom,
        "abort" => Abort,
        "unlink" => Unlink,
        "rename" => Rename,
        "__xpg_strerror_r" | "strerror_r" => StrError,
        "mkdir" => Mkdir,
        "ftruncate64" | "ftruncate" => Ftruncate,
        "realpath" => Realpath,
        "sysconf" => Sysconf,
        "pthread_create" => PthreadCreate,
        "isatty" | "dlsym" | "gettid" | "getpid" | "sched_yield" | "nanosleep" | "clock_nanosleep" | "sigaction" | "signal" | "sigaltstack" | "poll" | "dl_iterate_phdr" | "__cxa_thread_atexit_impl" | "munmap" | "mprotect" | "flock" | "fsync" | "fdatasync" | "_Unwind_Backtrace" | "_Unwind_GetIP" | "_Unwind_GetIPInfo" | "ioctl" | "posix_fadvise64" => Zero,
        n if n.starts_with("pthread_") => Zero,
        "sched_getaffinity" | "mmap64" | "mmap" | "readlink" | "getcwd" | "ftruncate_" | "copy_file_range" | "sendfile64" | "opendir" => MinusOne,
        "log" => F1(self::F1::Log),
        "exp" => F1(self::F1::Exp),
        "log2" => F1(self::F1::Log2),
        "log10" => F1(self::F1::Log10),
        "exp2" => F1(self::F1::Exp2),
        "expm1" => F1(self::F1::ExpM1),
        "log1p" => F1(self::F1::Ln1p),
        "pow" => F2(self::F2::Pow),
        "floor" => F1(self::F1::Floor),
        "ceil" => F1(self::F1::Ceil),
        "trunc" => F1(self::F1::Trunc),
        "round" => F1(self::F1::Round),
        "fmax" => F2(self::F2::Max),
        "fmin" => F2(self::F2::Min),
        _ => {
            if let Some(n) = name.strip_prefix("llvm.") {
                intrinsic(n)
            } else if has_body {
                Body
            } else {
                Unknown
            }
        }
    };
    if has_body && !name.starts_with("sym_") {
        // a definition in the module wins, except for the C memory primitives
        return match e {
            Bcmp | Memcmp | Memcpy | Memset | Strlen => e,
            _ => Body,
        };
    }
    e
}
fn intrinsic(n: &str) -> Ext {
    use Ext::*;
    let base = |p: &str| n == p || n.starts_with(&format!("{}.", p));
    const NOPS: &[&str] = &["lifetime.start", "lifetime.end", "experimental.noalias.scope.decl", "assume", "dbg.value", "dbg.declare", "prefetch", "donothing", "invariant.start", "invariant.end", "x86.sse2.pause", "var.annotation", "va_start", "va_end"];
    if NOPS.iter().any(|p| base(p)) {
        return if base("assume") { Assume } else { Nop };
    }
    let tab: &[(&str, Ext)] = &[
        ("memcpy", Memcpy),
        ("memmove", Memcpy),
        ("memset", Memset),
        ("memcpy.inline", Memcpy),
        ("uadd.with.overflow", Over(Ov::UAdd)),
        ("usub.with.overflow", Over(Ov::USub)),
        ("umul.with.overflow", Over(Ov::UMul)),
        ("sadd.with.overflow", Over(Ov::SAdd)),
        ("ssub.with.overflow", Over(Ov::SSub)),
        ("smul.with.overflow", Over(Ov::SMul)),
        ("uadd.sat", UAddSat),
        ("usub.sat", USubSat),
        ("sadd.sat", SAddSat),
        ("ssub.sat", SSubSat),
        ("umax", UMax),
        ("umin", UMin),
        ("smax", SMax),
        ("smin", SMin),
        ("ucmp", UCmp),
        ("scmp", SCmp),
        ("abs", Abs),
        ("ctlz", Ctlz),
        ("cttz", Cttz),
        ("ctpop", Ctpop),
        ("bswap", Bswap),
        ("bitreverse", Bitreverse),
        ("fshl", Fshl),
        ("fshr", Fshr),
        ("expect", Expect),
        ("expect.with.probability", Expect),
        ("threadlocal.address", TlsAddr),
        ("trap", Trap),
        ("ubsantrap", Trap),
        ("vector.reduce.or", ReduceOr),
        ("vector.reduce.and", ReduceAnd),
        ("vector.reduce.add", ReduceAdd),
        ("vector.reduce.xor", ReduceXor),
        ("x86.sse2.pmovmskb.128", Movmsk),
        ("log", F1(self::F1::Log)),
        ("log2", F1(self::F1::Log2)),
        ("log10", F1(self::F1::Log10)),
        ("exp", F1(self::F1::Exp)),
        ("exp2", F1(self::F1::Exp2)),
        ("sqrt", F1(self::F1::Sqrt)),
        ("fabs", F1(self::F1::Fabs)),
        ("floor", F1(self::F1::Floor)),
        ("ceil", F1(self::F1::Ceil)),
        ("trunc", F1(self::F1::Trunc)),
        ("round", F1(self::F1::Round)),
        ("roundeven", F1(self::F1::RoundEven)),
        ("rint", F1(self::F1::RoundEven)),
        ("nearbyint", F1(self::F1::RoundEven)),
        ("pow", F2(self::F2::Pow)),
        ("minnum", F2(self::F2::Min)),
        ("maxnum", F2(self::F2::Max)),
        ("minimumnum", F2(self::F2::MinNumSz)),
        ("maximumnum", F2(self::F2::MaxNumSz)),
        ("minimum", F2(self::F2::Minimum)),
        ("maximum", F2(self::F2::Maximum)),
        ("copysign", F2(self::F2::CopySign)),
        ("powi", Powi),
        ("fma", Fma),
        ("fmuladd", Fma),
        ("is.fpclass", IsFpClass),
        ("fptoui.sat", FpToISat(false)),
        ("fptosi.sat", FpToISat(true)),
        ("objectsize", ObjectSize),
    ];
    let mut best: Option<(usize, Ext)> = None;
    for (p, e) in tab {
        if base(p) && best.map_or(true, |b| p.len() > b.0) {
            best = Some((p.len(), *e));
        }
    }
    best.map(|b| b.1).unwrap_or(Unknown)
}
