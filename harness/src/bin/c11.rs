//! C11: sampling of examples and features.
use bbmon::driver::{main as run, Ctx};
use bbmon::gen::*;
use bbmon::probe::bag;
use bbmon::rng::{hash_u64, Rng};
use bitboost::config::Config;
use bitboost::data::Data;
use bitboost::dataset::Dataset;

/// log10 of n choose k
fn log_choose(n: usize, k: usize) -> f64 {
    (0..k.min(n - k)).map(|i| ((n - i) as f64 / (i + 1) as f64).log10()).sum()
}

fn useful(t: &Table) -> Vec<usize> { (0..t.nfeat()).filter(|&f| is_useful(&t.cols[f])).collect() }

type Sample = (Vec<usize>, Vec<usize>);

fn samples(config: &Config, data: &Data, updates: usize, mut grads: impl FnMut(usize) -> Vec<f32>) -> Vec<Sample> {
    let mut ds = Dataset::new(config, data);
    (0..updates).map(|u| {
        let g = grads(u);
        ds.update(config, &g, (-1.0, 1.0));
        (bag(&ds), ds.active_features().to_vec())
    }).collect()
}

fn structure(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    let n = gen_n_wide(&mut rng, 2, if ctx.thorough { 6000 } else { 2000 });
    let mut k = gen_knobs(&mut rng, n);
    k.max_nbins = *rng.pick(&[2usize, 8, 16]);
    k.example_fraction = if rng.chance(0.3) { *rng.pick(&[1.0f32, 0.5, 0.25, 0.75]) } else { rng.frange(0.02, 1.0) as f32 };
    k.feature_fraction = if rng.chance(0.3) { *rng.pick(&[1.0f32, 0.5, 0.25, 0.75]) } else { rng.frange(0.1, 1.0) as f32 };
    k.sample_freq = *rng.pick(&[1usize, 1, 2, 3, 4, 7]);
    let mut nfeat = rng.range(1, 14);
    if n < 400 && rng.below(8) == 0 && !tiny() { nfeat = rng.range(45, 90); }
    let (hc, nu) = (rng.chance(0.5), rng.chance(0.7));
    let table = gen_table(&mut rng, &TableOpts { n, nfeat, locard: true, hicard: hc, numeric: nu, constants: true, max_nbins: k.max_nbins, target: Target::Regression, tame: true });
    let us = useful(&table);
    let want_b = (n as f32 * k.example_fraction).round() as usize;
    let want_f = (us.len() as f32 * k.feature_fraction).round() as usize;
    if us.is_empty() || want_b == 0 || want_f == 0 { ctx.observe_trivial(); return; }
    let d = format!("{} | fractions {}/{} freq {} seed {}", table.describe(), k.feature_fraction, k.example_fraction, k.sample_freq, k.random_seed);
    let config = k.to_config();
    let data = match ctx.run("load", &d, || table.to_data(&config)) { Some(x) => x, None => return };
    let mut ds = match ctx.run("dataset", &d, || Dataset::new(&config, &data)) { Some(x) => x, None => return };
    let updates = rng.range(2, 16);
    let mut prev: Option<Sample> = None;
    let mut all: Vec<Sample> = Vec::new();
    let mut gr = rng.clone();
    let mut grads = |n: usize| -> Vec<f32> { (0..n).map(|_| gr.f32() * 2.0 - 1.0).collect() };
    for u in 1..=updates {
        let g = grads(n);
        if ctx.run("update", &d, || ds.update(&config, &g, (-1.0, 1.0))).is_none() { return; }
        let d = format!("update {} | {}", u, d);
        let sampling = k.example_fraction < 1.0;
        if ds.example_sampling_enabled() != sampling { ctx.violation("sampling-flag", d.clone()); return; }
        if ds.feature_sampling_enabled() != (want_f < us.len()) { ctx.violation("feature-sampling-flag", d.clone()); return; }
        let b = bag(&ds);
        let f = ds.active_features().to_vec();
        if b.len() != want_b || ds.nactive_examples() != want_b { ctx.violation("bag-size", format!("{} examples instead of {} [{}]", b.len(), want_b, d)); return; }
        if f.len() != want_f || ds.nactive_features() != want_f { ctx.violation("feature-count", format!("{} features instead of {} [{}]", f.len(), want_f, d)); return; }
        if b.windows(2).any(|w| w[0] >= w[1]) || b[want_b - 1] >= n { ctx.violation("bag-order", format!("examples are not distinct, ascending and in range [{}]", d)); return; }
        let mut fs = f.clone(); fs.sort_unstable(); fs.dedup();
        if fs.len() != want_f { ctx.violation("feature-duplicates", format!("{:?} [{}]", f, d)); return; }
        if let Some(x) = f.iter().find(|x| !us.contains(x)) { ctx.violation("useless-feature", format!("constant feature {} is active [{}]", x, d)); return; }
        if sampling {
            let rest: Vec<usize> = ds.inactive_examples_iter().collect();
            let mut inb = vec![false; n];
            for &i in &b { inb[i] = true; }
            let want: Vec<usize> = (0..n).filter(|&i| !inb[i]).collect();
            if rest != want { ctx.violation("complement", format!("{} other examples listed instead of {} [{}]", rest.len(), want.len(), d)); return; }
            for (l, &g) in b.iter().enumerate() { if ds.map_index(l) != g { ctx.violation("map_index", format!("position {} maps to {} instead of {} [{}]", l, ds.map_index(l), g, d)); return; } }
            ctx.count("out_of_bag_listed", rest.len() as u64);
        }
        let s = (b, f);
        let resample = u == 1 || u % k.sample_freq == 0;
        if let Some(p) = &prev {
            if !resample && *p != s { ctx.violation("resampled-too-often", format!("the sample changed [{}]", d)); return; }
            if resample {
                ctx.count("resamples", 1);
                if sampling && log_choose(n, want_b) > 12.0 && p.0 == s.0 { ctx.violation("examples-not-resampled", format!("the bag did not change [{}]", d)); return; }
                if log_choose(us.len(), want_f) > 12.0 && p.1 == s.1 { ctx.violation("features-not-resampled", format!("the features did not change [{}]", d)); return; }
            } else { ctx.count("updates_frozen", 1); }
        }
        all.push(s.clone());
        prev = Some(s);
    }
    // a function of the seed, not of the gradients (nor of anything done before in the process)
    let mut r2 = rng.clone();
    let again = match ctx.run("repeat", &d, || samples(&config, &data, updates, |_| (0..n).map(|_| r2.f32() - 0.5).collect())) { Some(x) => x, None => return };
    if again != all { ctx.violation("not-a-function-of-the-seed", format!("a second run with the same seed samples differently [{}]", d)); return; }
    if want_b < n && log_choose(n, want_b) > 12.0 {
        let mut c2 = k.clone();
        c2.random_seed = if rng.chance(0.5) { k.random_seed.wrapping_add(1 + rng.u64() % 1000) } else { k.random_seed ^ (1u64 << rng.below(64)) };
        let config2 = c2.to_config();
        if let Some(o) = ctx.run("other-seed", &d, || samples(&config2, &data, 1, |_| vec![0.5; n])) {
            ctx.count("other_seeds", 1);
            if o[0].0 == all[0].0 { ctx.violation("seed-ignored", format!("seed {} samples the same examples [{}]", c2.random_seed, d)); return; }
        }
    }
    if want_b < n || want_f < us.len() { ctx.observe(hash_u64(ctx.case_seed, updates as u64)); } else { ctx.observe_trivial(); }
    ctx.sample(|| format!("{} updates={}", d, updates));
}

/// Inclusion counts of every example and feature, and of neighbouring pairs, over many samples.
fn fairness(ctx: &mut Ctx) {
    let mut rng: Rng = ctx.rng.clone();
    let n = *rng.pick(&[5usize, 12, 31, 64, 100, 150]);
    let m = rng.range(3, 9);
    let draws = if ctx.thorough { 12000 } else { 3000 };
    let mut k = Knobs::default();
    k.max_nbins = 4;
    k.example_fraction = *rng.pick(&[0.2f32, 0.5, 0.8, 0.95]);
    k.feature_fraction = *rng.pick(&[0.34f32, 0.5, 0.7]);
    k.random_seed = rng.u64() >> 20;
    let cols: Vec<Vec<f32>> = (0..m).map(|f| (0..n).map(|i| ((i + f) % 2) as f32).collect()).collect();
    let table = Table { n, cols, cat: vec![true; m], target: vec![0.0; n], kinds: vec!["two-cat"; m] };
    let kb = (n as f32 * k.example_fraction).round() as usize;
    let kf = (m as f32 * k.feature_fraction).round() as usize;
    if kb == 0 || kb == n || kf == 0 || kf == m { ctx.observe_trivial(); return; }
    let one_seed = rng.chance(0.5);
    let d = format!("n={} m={} fractions {}/{} {}", n, m, k.example_fraction, k.feature_fraction, if one_seed { "one seed, many updates" } else { "many seeds" });
    let config = k.to_config();
    let data = match ctx.run("load", &d, || table.to_data(&config)) { Some(x) => x, None => return };
    let got: Option<Vec<Sample>> = ctx.run("sampling", &d, || {
        if one_seed { samples(&config, &data, draws, |_| vec![0.5; n]) }
        else {
            (0..draws).map(|i| { let mut c = k.clone(); c.random_seed = k.random_seed + i as u64; samples(&c.to_config(), &data, 1, |_| vec![0.5; n]).pop().unwrap() }).collect()
        }
    });
    let got = match got { Some(x) => x, None => return };
    let (mut ce, mut cf, mut ce2) = (vec![0u32; n], vec![0u32; m], vec![0u32; n]);
    for (b, f) in &got {
        for &i in b { ce[i] += 1; }
        for w in b.windows(2) { if w[1] == w[0] + 1 { ce2[w[0]] += 1; } }
        for &i in f { cf[i] += 1; }
    }
    let t = draws as f64;
    let mut worst: f64 = 0.0;
    let mut z = |c: u32, p: f64| -> f64 { let z = (c as f64 - t * p) / (t * p * (1.0 - p)).sqrt(); worst = worst.max(z.abs()); z };
    let (pe, pf) = (kb as f64 / n as f64, kf as f64 / m as f64);
    let pp = pe * (kb as f64 - 1.0) / (n as f64 - 1.0);
    let mut bad: Option<(&str, String)> = None;
    for i in 0..n { let x = z(ce[i], pe); if x.abs() > 6.5 { bad = Some(("example-bias", format!("example {} is in {} of {} bags, expected {} (z {:.1})", i, ce[i], draws, t * pe, x))); } }
    for i in 0..m { let x = z(cf[i], pf); if x.abs() > 6.5 { bad = Some(("feature-bias", format!("feature {} is active in {} of {} samples, expected {} (z {:.1})", i, cf[i], draws, t * pf, x))); } }
    if t * pp > 100.0 {
        for i in 0..n - 1 { let x = z(ce2[i], pp); if x.abs() > 6.5 { bad = Some(("pair-bias", format!("examples {} and {} are together in {} of {} bags, expected {} (z {:.1})", i, i + 1, ce2[i], draws, t * pp, x))); } }
    }
    ctx.maximum("worst_abs_z_x100", (worst * 100.0) as u64);
    if let Some((s, m)) = bad { ctx.violation(s, format!("{} [{}]", m, d)); return; }
    ctx.count("fairness_draws", draws as u64);
    ctx.observe(hash_u64(ctx.case_seed, 77));
    ctx.sample(|| d);
}

/// Large data sets: each stretch of the examples gets its share of every bag.
fn spread(ctx: &mut Ctx) {
    let mut rng: Rng = ctx.rng.clone();
    let n = rng.range(3_000, 90_000);
    let mut k = Knobs::default();
    k.max_nbins = 2;
    k.example_fraction = *rng.pick(&[0.1f32, 0.3, 0.5, 0.8]);
    k.random_seed = rng.u64() >> 3;
    let table = Table { n, cols: vec![(0..n).map(|i| (i % 2) as f32).collect()], cat: vec![true], target: vec![0.0; n], kinds: vec!["two-cat"] };
    let d = format!("n={} fraction {} seed {}", n, k.example_fraction, k.random_seed);
    let config = k.to_config();
    let data = match ctx.run("load", &d, || table.to_data(&config)) { Some(x) => x, None => return };
    let draws = 6;
    let got = match ctx.run("sampling", &d, || samples(&config, &data, draws, |_| vec![0.5; n])) { Some(x) => x, None => return };
    let kb = (n as f32 * k.example_fraction).round() as usize;
    let p = kb as f64 / n as f64;
    let parts = 16;
    let mut sum = vec![0usize; parts];
    let mut size = vec![0usize; parts];
    for i in 0..n { size[i * parts / n] += 1; }
    let mut worst = 0.0f64;
    for (u, (b, _)) in got.iter().enumerate() {
        if b.len() != kb { ctx.violation("bag-size", format!("{} examples instead of {} [{}]", b.len(), kb, d)); return; }
        let mut c = vec![0usize; parts];
        for &i in b { if i < n { c[i * parts / n] += 1; } }
        for j in 0..parts {
            let m = size[j] as f64;
            let z = (c[j] as f64 - m * p) / (m * p * (1.0 - p)).sqrt();
            worst = worst.max(z.abs());
            if z.abs() > 7.0 { ctx.violation("stretch-bias", format!("update {}: {} of the {} examples in stretch {} of {} are in the bag, expected {:.0} (z {:.1}) [{}]", u + 1, c[j], size[j], j, parts, m * p, z, d)); return; }
            sum[j] += c[j];
        }
    }
    for j in 0..parts {
        let m = (size[j] * draws) as f64;
        let z = (sum[j] as f64 - m * p) / (m * p * (1.0 - p)).sqrt();
        if z.abs() > 7.0 { ctx.violation("stretch-bias", format!("stretch {} of {}: {} selections in {} bags, expected {:.0} (z {:.1}) [{}]", j, parts, sum[j], draws, m * p, z, d)); return; }
    }
    // one bag says little about the next
    let (a, b) = (&got[0].0, &got[1].0);
    let mut ina = vec![false; n];
    for &i in a { ina[i] = true; }
    let both = b.iter().filter(|&&i| ina[i]).count() as f64;
    let (e, v) = (kb as f64 * p, kb as f64 * p * (1.0 - p) * (1.0 - p));
    let z = (both - e) / v.sqrt();
    if z.abs() > 7.0 { ctx.violation("bags-related", format!("two consecutive bags share {} examples, expected {:.0} (z {:.1}) [{}]", both, e, z, d)); return; }
    ctx.maximum("worst_stretch_abs_z_x100", (worst * 100.0) as u64);
    ctx.count("stretches_compared", (parts * draws) as u64);
    ctx.observe(hash_u64(ctx.case_seed, 78));
}

pub fn dispatch(ctx: &mut Ctx) {
    if ctx.case_index % 40 == 7 && !tiny() { return spread(ctx); }
    if ctx.case_index % 5 == 4 && !tiny() { fairness(ctx) } else { structure(ctx) }
}

fn main() { run("C11", dispatch); }
