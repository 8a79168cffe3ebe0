//! Harnesses over the command-line tool's modules.
#[path = "../../../lib/src/util.rs"]
pub mod util;
#[path = "common.rs"]
pub mod common;
#[cfg(feature = "filter")]
#[path = "filter.rs"]
pub mod h_filter;
#[cfg(feature = "merge")]
#[path = "merge.rs"]
pub mod h_merge;
#[cfg(feature = "prune")]
#[path = "prune.rs"]
pub mod h_prune;
#[cfg(feature = "generate")]
#[path = "generate.rs"]
pub mod h_generate;
#[cfg(feature = "mine")]
#[path = "mine.rs"]
pub mod h_mine;
#[cfg(feature = "regex")]
#[path = "regex.rs"]
pub mod h_regex;
#[cfg(feature = "cmds")]
#[path = "cmds.rs"]
pub mod h_cmds;
#[cfg(feature = "load")]
#[path = "load.rs"]
pub mod h_load;
#[cfg(feature = "main")]
#[path = "main.rs"]
pub mod h_main;
pub const TABLE: &[&[(&str, fn())]] = &[
    #[cfg(feature = "filter")]
    h_filter::TABLE,
    #[cfg(feature = "merge")]
    h_merge::TABLE,
    #[cfg(feature = "prune")]
    h_prune::TABLE,
    #[cfg(feature = "generate")]
    h_generate::TABLE,
    #[cfg(feature = "mine")]
    h_mine::TABLE,
    #[cfg(feature = "regex")]
    h_regex::TABLE,
    #[cfg(feature = "cmds")]
    h_cmds::TABLE,
    #[cfg(feature = "load")]
    h_load::TABLE,
    #[cfg(feature = "main")]
    h_main::TABLE,
];
