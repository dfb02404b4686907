//! Reference models the code under test is compared with. Nothing here calls
//! or copies the code under test.

pub mod hpack;
pub mod huff;
pub mod proto;
pub mod tables;
