//! Harnesses over the Python module's functions.
#[path = "../../../lib/src/util.rs"]
pub mod util;
#[cfg(feature = "module")]
#[path = "module.rs"]
pub mod h_module;
pub const TABLE: &[&[(&str, fn())]] = &[
    #[cfg(feature = "module")]
    h_module::TABLE,
];
