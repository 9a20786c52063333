//! Empty bodies for logging: no property of openraft depends on what is logged.
pub use tracing_attributes::instrument;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Level(u8);
impl Level {
    pub const ERROR: Level = Level(1);
    pub const WARN: Level = Level(2);
    pub const INFO: Level = Level(3);
    pub const DEBUG: Level = Level(4);
    pub const TRACE: Level = Level(5);
}

#[derive(Clone, Debug, Default)]
pub struct Span;
impl Span {
    pub fn current() -> Span {
        Span
    }
    pub fn none() -> Span {
        Span
    }
    pub fn or_current(self) -> Span {
        self
    }
    pub fn enter(&self) -> Span {
        Span
    }
}

pub trait Instrument: Sized {
    fn instrument(self, _span: Span) -> Self {
        self
    }
    fn in_current_span(self) -> Self {
        self
    }
}
impl<T: Sized> Instrument for T {}

#[macro_export]
macro_rules! trace { ($($t:tt)*) => { { } }; }
#[macro_export]
macro_rules! debug { ($($t:tt)*) => { { } }; }
#[macro_export]
macro_rules! info { ($($t:tt)*) => { { } }; }
#[macro_export]
macro_rules! warn { ($($t:tt)*) => { { } }; }
#[macro_export]
macro_rules! error { ($($t:tt)*) => { { } }; }
#[macro_export]
macro_rules! event { ($($t:tt)*) => { { } }; }
#[macro_export]
macro_rules! enabled { ($($t:tt)*) => { false }; }
#[macro_export]
macro_rules! span { ($($t:tt)*) => { $crate::Span }; }
#[macro_export]
macro_rules! trace_span { ($($t:tt)*) => { $crate::Span }; }
#[macro_export]
macro_rules! debug_span { ($($t:tt)*) => { $crate::Span }; }
#[macro_export]
macro_rules! info_span { ($($t:tt)*) => { $crate::Span }; }
#[macro_export]
macro_rules! warn_span { ($($t:tt)*) => { $crate::Span }; }
#[macro_export]
macro_rules! error_span { ($($t:tt)*) => { $crate::Span }; }
