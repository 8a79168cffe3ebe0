//! Environment stub for `env_logger`: logging stays off.
use log::LevelFilter;
pub const DEFAULT_FILTER_ENV: &str = "RUST_LOG";
pub const DEFAULT_WRITE_STYLE_ENV: &str = "RUST_LOG_STYLE";
#[derive(Default)]
pub struct Env;
impl Env {
    pub fn new() -> Env {
        Env
    }
    pub fn filter<E>(self, _: E) -> Env {
        Env
    }
    pub fn filter_or<E, V>(self, _: E, _: V) -> Env {
        Env
    }
    pub fn default_filter_or<V>(self, _: V) -> Env {
        Env
    }
}
impl From<&str> for Env {
    fn from(_: &str) -> Env {
        Env
    }
}
#[derive(Default)]
pub struct Builder;
impl Builder {
    pub fn new() -> Builder {
        Builder
    }
    pub fn from_default_env() -> Builder {
        Builder
    }
    pub fn from_env<E: Into<Env>>(_: E) -> Builder {
        Builder
    }
    pub fn parse_env<E: Into<Env>>(&mut self, _: E) -> &mut Builder {
        self
    }
    pub fn parse_default_env(&mut self) -> &mut Builder {
        self
    }
    pub fn parse_filters(&mut self, _: &str) -> &mut Builder {
        self
    }
    pub fn filter(&mut self, _: Option<&str>, _: LevelFilter) -> &mut Builder {
        self
    }
    pub fn filter_level(&mut self, _: LevelFilter) -> &mut Builder {
        self
    }
    pub fn filter_module(&mut self, _: &str, _: LevelFilter) -> &mut Builder {
        self
    }
    pub fn init(&mut self) {}
    pub fn try_init(&mut self) -> Result<(), log::SetLoggerError> {
        Ok(())
    }
}
pub fn init() {}
pub fn try_init() -> Result<(), log::SetLoggerError> {
    Ok(())
}
pub fn builder() -> Builder {
    Builder
}
