//! For replays: the real standard collections.
pub use std::boxed::Box;
pub use std::collections::*;
pub use std::sync::Arc;
pub use std::vec;
pub use std::vec::Vec;
/// The bound of the stand-ins, which some harnesses take their sizes from.
pub const CAP: usize = match option_env!("VCOLL_CAP") {
    Some(s) => (s.as_bytes()[0] - b'0') as usize,
    None => 4,
};
