//! Stand-in for `tracing`: events are type-checked and dropped (logging is outside every property).
#[macro_export]
macro_rules! event { ($($t:tt)*) => {{}}; }
pub use event as trace;
pub use event as debug;
pub use event as info;
pub use event as warn;
pub use event as error;
#[derive(Clone, Default, Debug)]
pub struct Span;
impl Span {
    pub fn current() -> Self { Span }
    pub fn entered(self) -> Self { self }
    pub fn in_scope<T>(&self, f: impl FnOnce() -> T) -> T { f() }
}
#[macro_export]
macro_rules! span { ($($t:tt)*) => { $crate::Span }; }
pub use span as info_span;
pub use span as debug_span;
pub use span as error_span;
pub use span as trace_span;
