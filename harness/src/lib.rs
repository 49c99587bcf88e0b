//! Property-based tests of unicode-normalization against an independent reference (see /verif/DESIGN.md).
extern crate alloc as alloc_crate;
pub use vpcore::{alloc, engine, fuel, gen, refimpl, source, ucd};
pub mod lib_api;
pub mod props;
