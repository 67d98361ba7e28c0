//! The part of the harness that does not touch the crate under test: cases, generators, reference model.
pub mod case;
pub mod data;
#[cfg(all(feature = "pbt", not(miri)))]
pub mod gen;
#[cfg(all(feature = "pbt", not(miri)))]
pub mod props;
pub mod refimpl;
pub mod selftest;
pub mod tag;
pub mod shrink;
