//! The crate's own switch to the portable code, where it exists.
#[cfg(feature = "bench")]
pub fn force(s: &mut blake2s_simd::State) {
    blake2s_simd::benchmarks::force_portable(s)
}
#[cfg(feature = "bench")]
pub fn force_sp(s: &mut blake2s_simd::blake2sp::State) {
    blake2s_simd::benchmarks::force_portable_blake2sp(s)
}
#[cfg(not(feature = "bench"))]
pub fn force(_: &mut blake2s_simd::State) {}
#[cfg(not(feature = "bench"))]
pub fn force_sp(_: &mut blake2s_simd::blake2sp::State) {}
