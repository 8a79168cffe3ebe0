#![allow(clippy::all, unused_imports, dead_code)]
//! Harnesses over the library's public interface.
pub mod util;
#[cfg(feature = "model")]
pub mod model;
#[cfg(feature = "tok")]
pub mod tok;
#[cfg(feature = "ser")]
pub mod ser;
#[cfg(feature = "proc")]
pub mod proc;
#[cfg(feature = "lat")]
pub mod lat;
pub const TABLE: &[&[(&str, fn())]] = &[
    #[cfg(feature = "model")]
    model::TABLE,
    #[cfg(feature = "tok")]
    tok::TABLE,
    #[cfg(feature = "ser")]
    ser::TABLE,
    #[cfg(feature = "proc")]
    proc::TABLE,
    #[cfg(feature = "lat")]
    lat::TABLE,
];
