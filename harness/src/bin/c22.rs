//! C22: histogram binning and rank queries.
use bbmon::driver::{main as run, Ctx};
use bbmon::rng::{hash_u64, Rng};
use bitboost::binner::Binner;

fn gen_limits(rng: &mut Rng) -> (f32, f32) {
    match rng.below(8) {
        0 => (0.0, 1.0), 1 => (-1.0, 1.0), 2 => (-1.25, 1.25),
        3 => { let a = rng.frange(-1000.0, 1000.0) as f32; (a, a + rng.f32() * 10.0 + 0.01) }
        4 => { let a = rng.normal() as f32; (a, a) }                       // constant
        5 => (-1.0e6, 1.0e6), 6 => (0.0, 1.0e-5),
        _ => { let a = rng.normal() * 100.0; let b = rng.normal() * 100.0; (a.min(b) as f32, a.max(b) as f32) }
    }
}

fn gen_values(rng: &mut Rng, (lo, hi): (f32, f32), n: usize, nb: usize, inside: bool) -> Vec<f32> {
    let mode = rng.below(6);
    (0..n).map(|_| {
        let v = match mode {
            0 => lo + rng.f32() * (hi - lo),
            1 => (lo as f64 + (hi as f64 - lo as f64) * rng.below(nb + 1) as f64 / nb as f64) as f32, // edges
            2 => *rng.pick(&[lo, hi, lo + (hi - lo) * 0.5]),
            3 => lo + rng.f32() * rng.f32() * rng.f32() * (hi - lo),
            4 => lo + (hi - lo) * (rng.f32() * 3.0 - 1.0),
            _ => lo + (hi - lo).max(1e-20) * (rng.f32() * 3.0 - 1.0) * 10.0f32.powi(rng.below(19) as i32), // far outside
        };
        if inside { v.max(lo).min(hi) } else { v }
    }).collect()
}

/// Is `bin` the bin of `v`, up to float rounding at its edges?
fn bin_ok(bin: usize, v: f32, (lo, hi): (f32, f32), nb: usize) -> bool {
    let (v, lo, hi) = (v as f64, lo as f64, hi as f64);
    if hi <= lo { return if v < lo { bin == 0 } else if v > hi { bin == nb - 1 } else { bin == 0 || bin == nb - 1 }; }
    let delta = (hi - lo) / nb as f64;
    let eps = 4e-7 * (lo.abs() + hi.abs() + v.abs()) + 1e-6 * (v - lo).abs();
    let low = lo + bin as f64 * delta;
    let below = bin == 0 || v >= low - eps;
    let above = bin == nb - 1 || v < low + delta + eps;
    below && above
}

fn binning(ctx: &mut Ctx) {
    let limits = gen_limits(&mut ctx.rng);
    let nb = if ctx.rng.below(150) == 0 { 70_000 } else if ctx.rng.chance(0.3) { 1 + ctx.rng.below(3) } else { *ctx.rng.pick(&[4usize, 15, 16, 64, 255, 256, 1000, 1024, 4096]) };
    let n = if ctx.rng.chance(0.2) { 1 + ctx.rng.below(3) } else { if ctx.rng.below(3000) == 0 && !bbmon::gen::tiny() { ctx.rng.range(60_000, 200_000) } else { ctx.rng.range(1, 800) } };
    let inside = ctx.rng.chance(0.5);
    let vals = gen_values(&mut ctx.rng, limits, n, nb, inside);
    let d = format!("{} values, {} bins, limits {:?}", n, nb, limits);
    // each bin collects the values themselves
    let mut bins: Vec<Vec<f32>> = vec![Vec::new(); nb];
    {
        let mut b = Binner::new(&mut bins, limits);
        for &v in &vals { b.insert(v, v, |bin, x| bin.push(x)); }
        for &v in vals.iter().take(50) {
            let k = b.get_bin(v);
            ctx.check(k < nb && bin_ok(k, v, limits, nb), "get_bin", || format!("value {} put into bin {} [{}]", v, k, d));
        }
        // representatives: the lower edge of each bin
        for k in 0..nb.min(40) {
            let k = if nb > 40 { ctx.rng.below(nb) } else { k };
            let want = limits.0 as f64 + k as f64 * (limits.1 as f64 - limits.0 as f64) / nb as f64;
            let got = b.bin_representative(k) as f64;
            let eps = 1e-6 * (limits.0.abs() + limits.1.abs()) as f64 + 1e-6 * (want - limits.0 as f64).abs();
            ctx.check((got - want).abs() <= eps, "bin_representative", || format!("bin {} is represented by {} instead of {} [{}]", k, got, want, d));
        }
    }
    {
        // past the last bin: the last representative
        let b = Binner::new(&mut bins, limits);
        let last = b.bin_representative(nb - 1);
        for k in [nb, nb + 1, 10 * nb + 7] {
            let got = b.bin_representative(k);
            ctx.check(got.to_bits() == last.to_bits(), "bin_representative-past-the-end", || format!("bin {} of {} is represented by {} instead of the last bin's {} [{}]", k, nb, got, last, d));
        }
    }
    let total: usize = bins.iter().map(|b| b.len()).sum();
    ctx.check(total == n, "insertions-lost", || format!("{} of {} values were stored [{}]", total, n, d));
    for (k, b) in bins.iter().enumerate() {
        for &v in b {
            if !bin_ok(k, v, limits, nb) { ctx.violation("wrong-bin", format!("value {} put into bin {} [{}]", v, k, d)); return; }
        }
    }
    let mut sa: Vec<u32> = bins.iter().flatten().map(|v| v.to_bits()).collect();
    let mut sb: Vec<u32> = vals.iter().map(|v| v.to_bits()).collect();
    sa.sort_unstable(); sb.sort_unstable();
    ctx.check(sa == sb, "insertions-differ", || format!("the stored values are not the inserted ones [{}]", d));
    // monotone: larger values never go to a lower bin
    let (mut mx, mut ok) = (f32::NEG_INFINITY, true);
    for b in &bins { for &v in b { if v < mx && bins.len() > 1 { /* within a bin any order */ } } 
        let lo = b.iter().cloned().fold(f32::INFINITY, f32::min);
        if lo < mx { ok = false; }
        mx = b.iter().cloned().fold(mx, f32::max);
    }
    ctx.check(ok, "bins-not-monotone", || format!("a larger value is in a lower bin [{}]", d));
    ctx.count("insertions", n as u64);
    // quantiles
    let mut counts: Vec<u32> = bins.iter().map(|b| b.len() as u32).collect();
    let mut sorted = vals.clone();
    sorted.sort_by(|a, b| a.partial_cmp(b).unwrap());
    if inside && limits.1 > limits.0 {
        let b = Binner::new(&mut counts, limits);
        let delta = (limits.1 as f64 - limits.0 as f64) / nb as f64;
        for _ in 0..8 {
            let r = ctx.rng.below(n);
            let k = b.bin_with_rank(r as u32, |&c| c);
            let q = sorted[r] as f64;
            let lo = b.bin_representative(k) as f64;
            let eps = 2e-6 * (limits.0.abs() + limits.1.abs()) as f64;
            ctx.check(q >= lo - eps && q <= lo + delta + eps, "quantile", || format!("rank {}: exact quantile {} but estimate bin {} starts at {} (width {}) [{}]", r, q, k, lo, delta, d));
            ctx.count("quantiles", 1);
        }
    }
    ctx.observe(vals.iter().fold(hash_u64(nb as u64, n as u64), |h, v| hash_u64(h, v.to_bits() as u64)));
    ctx.sample(|| d.clone());
}

fn ranks(ctx: &mut Ctx) {
    let nb = if ctx.rng.below(100) == 0 { 70_000 } else { *ctx.rng.pick(&[1usize, 2, 3, 8, 15, 64, 256, 1024]) };
    let dense = ctx.rng.f64();
    let big = *ctx.rng.pick(&[1usize, 3, 50, 3000, 60_000]);
    let mut bins: Vec<u32> = (0..nb).map(|_| if ctx.rng.chance(dense) { 1 + ctx.rng.below(big) as u32 } else { 0 }).collect();
    if bins.iter().all(|&c| c == 0) { let i = ctx.rng.below(nb); bins[i] = 1 + ctx.rng.below(big) as u32; }
    // rarely contents near the limit of the rank type
    if ctx.rng.below(40) == 0 && nb <= 1024 {
        let room = (u32::MAX as u64 - bins.iter().map(|&c| c as u64).sum::<u64>()) as usize;
        let i = ctx.rng.below(nb);
        bins[i] += (room - ctx.rng.below(room / 2)) as u32;
    }
    let total: u32 = bins.iter().sum();
    let copy = bins.clone();
    let want = |r: u32| -> (usize, u32, u32) {
        let mut acc = 0;
        for (i, &c) in copy.iter().enumerate() { if acc + c > r { return (i, acc, acc + c); } acc += c; }
        unreachable!()
    };
    let d = format!("{} bins, total {}", nb, total);
    let b = Binner::new(&mut bins, (0.0, 1.0));
    for _ in 0..5 {
        let r = match ctx.rng.below(4) { 0 => 0, 1 => total - 1, _ => ctx.rng.below(total as usize) as u32 };
        let got = b.bin_with_rank(r, |&c| c);
        ctx.check(got == want(r).0, "bin_with_rank", || format!("rank {}: bin {} instead of {} [{}]", r, got, want(r).0, d));
        ctx.count("ranks", 1);
    }
    let k = ctx.rng.range(1, 30);
    let mut rs: Vec<u32> = (0..k).map(|_| match ctx.rng.below(6) { 0 => 0, 1 => total - 1, _ => ctx.rng.below(total as usize) as u32 }).collect();
    rs.sort_unstable();
    let got: Vec<usize> = b.rank_iter(rs.iter().cloned(), |&c| c).collect();
    let w: Vec<usize> = rs.iter().map(|&r| want(r).0).collect();
    ctx.check(got == w, "rank_iter", || format!("ranks {:?}: bins {:?} instead of {:?} [{}]", rs, got, w, d));
    let exact = total < 1 << 23;
    // same with f32 weights, stepping by hand and reading the cumulated content
    let fr: Vec<f32> = rs.iter().map(|&r| r as f32 + if ctx.rng.chance(0.5) { 0.5 } else { 0.0 }).collect();
    if !exact { rs.clear(); }
    let fr = if exact { fr } else { vec![] };
    let mut it = b.rank_iter(fr.iter().cloned(), |&c| c as f32);
    for (i, &r) in rs.iter().enumerate() {
        let (wb, wlo, whi) = want(r);
        let g = it.next();
        ctx.check(g == Some(wb), "rank_iter:f32", || format!("rank {}: {:?} instead of {} [{}]", fr[i], g, wb, d));
        let acc = it.accum();
        ctx.check(acc == (wlo as f32, whi as f32), "rank_iter:accum", || format!("rank {}: cumulated content {:?} instead of {:?} [{}]", fr[i], acc, (wlo, whi), d));
        if !ctx.violations.is_empty() { return; }
    }
    ctx.check(it.next().is_none(), "rank_iter:end", || "yields more bins than ranks".to_string());
    let _ = it;
    let i = ctx.rng.below(nb);
    let v = b.bin_value(i);
    ctx.check(v == copy[i], "bin_value", || format!("bin {} reads {}", i, v));
    ctx.count("ranks", 2 * k as u64);
    ctx.observe(copy.iter().chain(&rs).fold(nb as u64, |h, &x| hash_u64(h, x as u64)));
}

pub fn dispatch(ctx: &mut Ctx) {
    if ctx.case_index % 2 == 0 { binning(ctx) } else { ranks(ctx) }
}

fn main() { run("C22", dispatch); }
