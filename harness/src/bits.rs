//! Random bit patterns and scalar reference computations on them.
use crate::rng::Rng;
use bitboost::bitblock::BitBlocks;

/// `n` u32 words with one of several shapes.
pub fn words(rng: &mut Rng, n: usize) -> Vec<u32> {
    match rng.below(9) {
        0 => vec![!0u32; n],
        1 => vec![0u32; n],
        2 => (0..n).map(|_| rng.u32()).collect(),
        3 => (0..n).map(|_| rng.u32() & rng.u32() & rng.u32()).collect(),
        4 => (0..n).map(|_| rng.u32() | rng.u32() | rng.u32()).collect(),
        5 => { let mut v = vec![0u32; n]; let i = rng.below(n); v[i] = 1 << rng.below(32); v }          // one bit
        6 => { let mut v = vec![!0u32; n]; let i = rng.below(n); v[i] &= !(1 << rng.below(32)); v }     // one hole
        7 => { let p = rng.f64(); (0..n).map(|_| if rng.chance(p) { rng.u32() } else { 0 }).collect() } // zero words
        _ => (0..n).map(|_| rng.mask32()).collect(),
    }
}

/// Number of 256-bit blocks, with emphasis on the 16-block boundaries of the counting kernels.
pub fn nblocks(rng: &mut Rng, hi: usize) -> usize {
    const B: [usize; 14] = [1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 48, 49];
    let n = if rng.chance(0.4) { *rng.pick(&B) } else if rng.chance(0.7) { rng.range(1, 40.min(hi)) } else { rng.range(1, hi) };
    n.min(if crate::gen::tiny() { 2 } else { hi }).max(1)
}

pub fn blocks_of(v: &[u32]) -> BitBlocks { BitBlocks::from_iter(v.len(), v.iter().cloned()) }

pub fn bit(v: &[u32], i: usize) -> bool { v[i / 32] >> (i % 32) & 1 == 1 }
