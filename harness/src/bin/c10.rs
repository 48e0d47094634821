//! C10: the discretized candidate splits describe the data exactly.
use bbmon::driver::{main as run, Ctx};
use bbmon::gen::*;
use bbmon::probe::bag;
use bbmon::rng::hash_u64;
use bbmon::session::*;
use bitboost::data::FeatType;
use bitboost::dataset::Dataset;

const QBINS: f64 = 512.0;

fn case(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    let n = gen_n_wide(&mut rng, 1, if ctx.thorough { 6000 } else { 2500 });
    let mut k = gen_knobs(&mut rng, n);
    let table = gen_session_table(&mut rng, &k, n, false);
    if nuseful(&table) == 0 { ctx.observe_trivial(); return; }
    if (nuseful(&table) as f32 * k.feature_fraction).round() < 1.0 { k.feature_fraction = 1.0; }
    let d = format!("{} | max_nbins {} fractions {}/{} freq {} seed {}", table.describe(), k.max_nbins, k.feature_fraction, k.example_fraction, k.sample_freq, k.random_seed);
    let mut config = k.to_config();
    let csv = rng.chance(0.2);
    let data = match ctx.run("load", &d, || make_data(&mut rng, &table, &mut config, csv)) {
        Some(Ok(x)) => x,
        Some(Err(e)) => { ctx.violation("load-error", format!("{} [{}]", e, d)); return; }
        None => return,
    };
    let mut ds = match ctx.run("dataset", &d, || Dataset::new(&config, &data)) { Some(x) => x, None => return };
    let updates = rng.range(1, 5);
    let mut prev: Option<Vec<(usize, Vec<Vec<u32>>)>> = None;
    for u in 1..=updates {
        let (mut grads, (lo, hi), _) = gen_grads(&mut rng, &table, k.discr_nbits);
        let kind = rng.below(6);
        if kind == 0 { for g in grads.iter_mut() { *g = 0.0; } }
        if kind == 1 { for (i, g) in grads.iter_mut().enumerate() { if i % 7 != 0 { *g *= 1e-3; } } }
        if ctx.run("update", &d, || ds.update(&config, &grads, (lo, hi))).is_none() { return; }
        let d = format!("update {} | {}", u, d);
        let b = bag(&ds);
        let nb = b.len();
        let active = ds.active_features().to_vec();
        let snapshot: Vec<(usize, Vec<Vec<u32>>)> = active.iter().map(|&f| (f, (0..ds.get_nbins(f)).map(|s| ds.get_bitvec(f, s).cast::<u32>().to_vec()).collect())).collect();
        let resample = u == 1 || u % k.sample_freq == 0;
        if !resample {
            if Some(&snapshot) != prev.as_ref() { ctx.violation("changed-without-resampling", format!("[{}]", d)); return; }
            ctx.count("updates_frozen", 1);
            continue;
        }
        ctx.count("updates", 1);
        let supercats = ds.get_supercats().clone();
        for (f, bits) in &snapshot {
            let f = *f;
            let col = &table.cols[f];
            let df = format!("feature {} ({}) | {}", f, table.kinds[f], d);
            let words = (nb + 255) / 256 * 8;
            let nbins = bits.len();
            if nbins == 0 || nbins > k.max_nbins.max(1) { ctx.violation("split-count", format!("{} candidate splits [{}]", nbins, df)); return; }
            for w in bits {
                if w.len() != words { ctx.violation("bit-length", format!("{} words for {} examples [{}]", w.len(), nb, df)); return; }
                for i in nb..words * 32 { if w[i / 32] >> (i % 32) & 1 == 1 { ctx.violation("bits-beyond-bag", format!("bit {} is set beyond {} examples [{}]", i, nb, df)); return; } }
            }
            let sv: Vec<f32> = (0..nbins).map(|s| ds.get_split_value(f, s)).collect();
            let ty = data.feat_type(f);
            let distinct = { let mut x: Vec<u32> = col.iter().map(|v| v.to_bits()).collect(); x.sort_unstable(); x.dedup(); x.len() };
            // what kind of column it must be
            let card = col.iter().cloned().fold(0.0f32, f32::max) as usize + 1;
            let want_ty = if !table.cat[f] { FeatType::Numerical } else if card > k.max_nbins { FeatType::HiCardCat } else { FeatType::LoCardCat };
            if ty != want_ty { ctx.violation("feature-kind", format!("{:?} instead of {:?} [{}]", ty, want_ty, df)); return; }
            ctx.count("bits_compared", (nbins * nb) as u64);
            match ty {
                FeatType::LoCardCat => {
                    let want = if card == 2 { 1 } else { card };
                    if nbins != want { ctx.violation("locard:split-count", format!("{} splits for {} categories [{}]", nbins, card, df)); return; }
                    for s in 0..nbins {
                        if sv[s] != s as f32 { ctx.violation("locard:split-value", format!("split {} has value {} [{}]", s, sv[s], df)); return; }
                        for (l, &g) in b.iter().enumerate() {
                            if (bits[s][l / 32] >> (l % 32) & 1 == 1) != (col[g] == s as f32) {
                                ctx.violation("locard:bits", format!("example {} (position {}) with category {}: bit of split {} is wrong [{}]", g, l, col[g], s, df)); return;
                            }
                        }
                    }
                    ctx.count("locard_features", 1);
                }
                FeatType::HiCardCat => {
                    let sc = &supercats[f];
                    if sc.len() != card { ctx.violation("hicard:groups", format!("groups for {} of {} categories [{}]", sc.len(), card, df)); return; }
                    for s in 0..nbins {
                        if sv[s] != s as f32 { ctx.violation("hicard:split-value", format!("split {} has value {} [{}]", s, sv[s], df)); return; }
                        for (l, &g) in b.iter().enumerate() {
                            if (bits[s][l / 32] >> (l % 32) & 1 == 1) != (sc[col[g] as usize] as usize <= s) {
                                ctx.violation("hicard:bits", format!("example {} with category {} in group {}: bit of split {} is wrong [{}]", g, col[g], sc[col[g] as usize], s, df)); return;
                            }
                        }
                    }
                    // groups ordered by mean gradient
                    let mut sums = vec![(0.0f64, 0u64); card];
                    for &g in &b { let e = &mut sums[col[g] as usize]; e.0 += grads[g] as f64; e.1 += 1; }
                    let mut cats: Vec<(f64, u64, usize)> = sums.iter().enumerate().filter(|x| x.1 .1 > 0)
                        .map(|(c, &(s, m))| (s / m as f64, m, sc[c] as usize)).collect();
                    cats.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
                    let bw = (hi as f64 - lo as f64) / QBINS;
                    let eps = 1e-5 * (lo.abs().max(hi.abs()) as f64) + 1e-9;
                    let mut best: (f64, usize) = (f64::NEG_INFINITY, 0); // highest group seen so far and its mean
                    for &(m, _, g) in &cats {
                        if g > nbins { ctx.violation("hicard:group-range", format!("group {} of {} splits [{}]", g, nbins, df)); return; }
                        if g < best.1 && m > best.0 + eps { ctx.violation("hicard:group-order", format!("mean gradient {} is in group {} but {} in group {} [{}]", m, g, best.0, best.1, df)); return; }
                        if g > best.1 { best = (m, g); }
                    }
                    // a split near every quantile of the bag, categories ranked by mean gradient
                    let quant = |r: usize| -> f64 { let mut a = 0; for &(m, c, _) in &cats { a += c as usize; if a > r { return m.max(lo as f64).min(hi as f64); } } cats.last().unwrap().0.max(lo as f64).min(hi as f64) };
                    for i in 1..=k.max_nbins {
                        let r = ((i as f64 * nb as f64 / (k.max_nbins + 1) as f64).round() as usize).saturating_sub(1);
                        let (q0, q1) = (quant(r.saturating_sub(1)), quant(r + 1));
                        let ok = (0..nbins).any(|s| cats.iter().all(|&(m, _, g)| !(m <= q0 - 2.0 * bw - eps && g > s) && !(m > q1 + 2.0 * bw + eps && g <= s)));
                        if !ok { ctx.violation("hicard:quantiles", format!("no group boundary near quantile {} of {} (mean gradient {}..{}) [{}]", i, k.max_nbins, q0, q1, df)); return; }
                    }
                    ctx.count("hicard_features", 1);
                }
                FeatType::Numerical => {
                    let (mut mn, mut mx) = (f32::INFINITY, f32::NEG_INFINITY);
                    for &v in col { mn = mn.min(v); mx = mx.max(v); }
                    let scale = mn.abs().max(mx.abs()) as f64;
                    let eps = 1e-6 * scale;
                    for s in 0..nbins {
                        if !(sv[s] as f64 >= mn as f64 - eps && sv[s] as f64 <= mx as f64 + eps) { ctx.violation("num:split-range", format!("split value {} outside [{}, {}] [{}]", sv[s], mn, mx, df)); return; }
                        if s > 0 && sv[s] < sv[s - 1] { ctx.violation("num:split-order", format!("split values {} then {} [{}]", sv[s - 1], sv[s], df)); return; }
                        for (l, &g) in b.iter().enumerate() {
                            if (bits[s][l / 32] >> (l % 32) & 1 == 1) != (col[g] < sv[s]) {
                                ctx.violation("num:bits", format!("example {} with value {}: bit of split {} (value {}) is wrong [{}]", g, col[g], s, sv[s], df)); return;
                            }
                        }
                    }
                    // splits near the quantiles weighted by |gradient|
                    let bw = (mx as f64 - mn as f64) / QBINS + eps;
                    // a missing value counts as the smallest
                    let mut vals: Vec<(f64, f64)> = b.iter().map(|&g| (if col[g].is_nan() { mn } else { col[g] } as f64, grads[g].abs() as f64 + f32::EPSILON as f64)).collect();
                    vals.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
                    let total: f64 = vals.iter().map(|v| v.1).sum();
                    let tol = total * 5e-4;
                    let mut cum = Vec::with_capacity(nb + 1);
                    let mut a = 0.0;
                    cum.push(0.0);
                    for v in &vals { a += v.1; cum.push(a); }
                    let weight_upto = |x: f64| cum[vals.partition_point(|v| v.0 <= x)];
                    let near: Vec<(f64, f64)> = sv.iter().map(|&s| (weight_upto(s as f64 - 2.0 * bw), weight_upto(s as f64 + bw))).collect();
                    for i in 1..=k.max_nbins {
                        let w = total * i as f64 / (k.max_nbins + 1) as f64;
                        if !near.iter().any(|&(x, y)| x <= w + tol && y >= w - tol) {
                            ctx.violation("num:quantiles", format!("no split value near the weighted quantile {} of {} [{}]", i, k.max_nbins, df)); return;
                        }
                    }
                    for (s, &(x, y)) in near.iter().enumerate() {
                        let ok = (1..=k.max_nbins).any(|i| { let w = total * i as f64 / (k.max_nbins + 1) as f64; x <= w + tol && y >= w - tol });
                        if !ok { ctx.violation("num:stray-split", format!("split value {} is near no weighted quantile [{}]", sv[s], df)); return; }
                    }
                    ctx.count("numerical_features", 1);
                    ctx.maximum("splits_of_a_numerical_feature", nbins as u64);
                }
            }
            if distinct > 1 { ctx.observe(hash_u64(ctx.case_seed, (u * 100 + f) as u64)); } else { ctx.observe_trivial(); }
        }
        ctx.sample(|| d.clone());
        prev = Some(snapshot);
    }
}

pub fn dispatch(ctx: &mut Ctx) { case(ctx) }

fn main() { run("C10", dispatch); }
