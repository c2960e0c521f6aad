//! The TLA+ specification compiled to Rust by tools/tla2rust.py.
pub mod spec;
pub mod seq;
pub mod value;
