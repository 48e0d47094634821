//! Exact (f64 / integer) reference computations shared by several monitors.

/// Discretization level of a gradient, computed in f64. Returns (level, distance to the nearest
/// rounding tie in level units): callers skip comparisons that sit on a tie.
pub fn level(v: f64, lo: f64, hi: f64, nbits: usize) -> (u64, f64) {
    let max = ((1u64 << nbits) - 1) as f64;
    let c = v.max(lo).min(hi);
    let x = (c - lo) / (hi - lo) * max;
    let f = x - x.floor();
    (x.round() as u64, (f - 0.5).abs())
}

pub fn linproj(sum: f64, count: f64, lo: f64, hi: f64, nbits: usize) -> f64 {
    let max = ((1u64 << nbits) - 1) as f64;
    sum / max * (hi - lo) + count * lo
}

/// f64 relative/absolute closeness.
pub fn close(a: f64, b: f64, rel: f64, abs: f64) -> bool {
    if !a.is_finite() || !b.is_finite() { return a == b; }
    (a - b).abs() <= abs + rel * a.abs().max(b.abs())
}
