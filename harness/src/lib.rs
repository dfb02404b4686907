//! Property-based checks of httlib-rs.

pub mod alloc;
pub mod dict;
#[macro_use]
pub mod engine;
pub mod gen;
pub mod guided;
pub mod oracle;
pub mod props;
pub mod src;
pub mod types;
