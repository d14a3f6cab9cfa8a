pub mod common;
pub mod entries;
pub mod trig;
#[cfg(feature = "std")]
pub mod memory;
#[cfg(feature = "std")]
pub mod user;
