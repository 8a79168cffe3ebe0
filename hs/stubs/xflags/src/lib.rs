//! xflags 0.3.2 (Aleksey Kladov, MIT OR Apache-2.0); the process arguments are
//! those a harness sets and `exit` is a panic.
use std::fmt;
pub use xflags_macros::{parse_or_exit, xflags};

pub type Result<T, E = Error> = std::result::Result<T, E>;

/// An error occurred when parssing command line arguments.
///
/// Either the command line was syntactically invalid, or `--help` was
/// explicitly requested.
#[derive(Debug)]
pub struct Error {
    msg: String,
    help: bool,
}

impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(&self.msg, f)
    }
}

impl std::error::Error for Error {}

impl Error {
    /// Creates a new `Error` from a given message.
    ///
    /// Use this to report custom validation errors.
    pub fn new(message: impl Into<String>) -> Error {
        Error { msg: message.into(), help: false }
    }

    /// Error that carries `--help` message.
    pub fn is_help(&self) -> bool {
        self.help
    }

    /// Prints the error and exists the process.
    pub fn exit(self) -> ! {
        let f = *ON_EXIT.lock().unwrap();
        f(self.is_help());
        panic!("exit: {self}")
    }
}

static ARGS: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());

/// The arguments (without the program's name) of the next parser made from the environment.
pub fn __set_args(args: &[&str]) {
    *ARGS.lock().unwrap() = args.iter().map(|s| s.to_string()).collect();
}
static ON_EXIT: std::sync::Mutex<fn(bool)> = std::sync::Mutex::new(|_| ());
/// Called instead of ending the process; told whether help was asked for.
pub fn __on_exit(f: fn(bool)) {
    *ON_EXIT.lock().unwrap() = f;
}
pub(crate) fn take_args() -> Vec<std::ffi::OsString> {
    ARGS.lock().unwrap().iter().map(|s| s.into()).collect()
}

/// Private impl details for macros.
#[doc(hidden)]
pub mod rt;
