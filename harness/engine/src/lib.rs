//! Choice-tape property engine: every random decision a property makes is one recorded draw of the
//! tape, so that replay, coverage-guided mutation and shrinking all work on a plain `Vec<u64>`.
pub mod alloc;
pub mod cov;
pub mod json;
pub mod rng;
pub mod runner;
pub mod tape;
pub mod work;

pub use runner::{lib, sub, Ctx, Fail, Sub, R};
pub use tape::{Dict, Tape};

/// Fails the case with a formatted message unless the condition holds.
#[macro_export]
macro_rules! check {
    ($c:expr, $($m:tt)*) => {
        if !$c {
            return Err($crate::Fail::new(format!($($m)*)));
        }
    };
}
/// The same for assumptions about the check itself.
#[macro_export]
macro_rules! sane {
    ($c:expr, $($m:tt)*) => {
        if !$c {
            return Err($crate::Fail::internal(format!($($m)*)));
        }
    };
}
