//! Stand-in: nothing is traced.
pub struct EnvFilter;
pub struct Directive;
impl From<tracing::metadata::LevelFilter> for Directive {
    fn from(_: tracing::metadata::LevelFilter) -> Self {
        Directive
    }
}
impl EnvFilter {
    pub fn builder() -> Self {
        EnvFilter
    }
    pub fn with_default_directive(self, _: Directive) -> Self {
        self
    }
    pub fn from_env(self) -> Result<Self, std::io::Error> {
        Ok(self)
    }
    pub fn from_default_env() -> Self {
        EnvFilter
    }
}
pub fn fmt() -> Fmt {
    Fmt
}
pub struct Fmt;
impl Fmt {
    pub fn with_env_filter<T>(self, _: T) -> Self {
        self
    }
    pub fn with_writer<T>(self, _: T) -> Self {
        self
    }
    pub fn init(self) {}
}
