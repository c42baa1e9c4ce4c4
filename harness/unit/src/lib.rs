//! Unit-level parts of the checks; each is a feature of its own.
pub mod parts;
pub mod rpc;
pub use kit::*;
