//! Stand-in for env_logger: nothing is logged.
#[derive(Default)]
pub struct Env;
impl Env {
    pub fn default_filter_or<T>(self, _: T) -> Self {
        self
    }
}
#[derive(Default)]
pub struct Builder;
impl Builder {
    pub fn new() -> Self {
        Builder
    }
    pub fn from_env<T>(_: T) -> Self {
        Builder
    }
    pub fn from_default_env() -> Self {
        Builder
    }
    pub fn init(&mut self) {}
}
pub fn init() {}
