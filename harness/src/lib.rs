pub use hcore::*;

pub mod build;
#[cfg(all(feature = "pbt", not(miri)))]
pub mod deep;
pub mod exec;
pub mod place;
pub mod portable;
#[cfg(all(feature = "pbt", target_arch = "x86_64", not(miri)))]
pub mod step;
#[cfg(feature = "cov")]
pub mod cov;
#[cfg(feature = "cov")]
pub mod guided;
#[cfg(all(feature = "pbt", target_arch = "x86_64", not(miri)))]
pub mod cpu;
#[cfg(all(feature = "pbt", target_arch = "x86_64", not(miri)))]
pub mod raw;
