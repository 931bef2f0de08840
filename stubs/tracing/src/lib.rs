//! Analysis stub: logging is erased (it has no observable protocol effect).
pub use tracing_attributes::instrument;
#[macro_export] macro_rules! trace { ($($t:tt)*) => { () }; }
#[macro_export] macro_rules! debug { ($($t:tt)*) => { () }; }
#[macro_export] macro_rules! info { ($($t:tt)*) => { () }; }
#[macro_export] macro_rules! warn { ($($t:tt)*) => { () }; }
#[macro_export] macro_rules! error { ($($t:tt)*) => { () }; }
#[macro_export] macro_rules! event { ($($t:tt)*) => { () }; }
#[macro_export] macro_rules! span { ($($t:tt)*) => { $crate::Span }; }
#[macro_export] macro_rules! info_span { ($($t:tt)*) => { $crate::Span }; }
#[macro_export] macro_rules! debug_span { ($($t:tt)*) => { $crate::Span }; }
pub struct Span;
pub struct Entered;
impl Span { pub fn enter(&self) -> Entered { Entered } pub fn entered(self) -> Entered { Entered } pub fn current() -> Self { Span } }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Level;
impl Level { pub const ERROR: Level = Level; pub const WARN: Level = Level; pub const INFO: Level = Level; pub const DEBUG: Level = Level; pub const TRACE: Level = Level; }
