//! The parts of the harness that do not touch the library under test.
pub mod alloc;
pub mod cli;
pub mod engine;
pub mod fuel;
pub mod gen;
pub mod refimpl;
pub mod source;
pub mod ucd;
