//! A training session with dictated gradients: Dataset + TreeLearner driven through their public
//! interface, several trees in a row on one context (so that reused state is exercised).
use crate::driver::{guarded, Ctx, PanicInfo};
use crate::gen::*;
use crate::probe::*;
use crate::rng::Rng;
use bitboost::config::Config;
use bitboost::data::Data;
use bitboost::dataset::Dataset;
use bitboost::tree::{Tree, TreeLearnerContext};

pub struct Step<'a, 'd> {
    pub index: usize,
    pub table: &'a Table,
    pub knobs: &'a Knobs,
    pub config: &'a Config,
    pub data: &'a Data,
    pub dataset: &'a mut Dataset<'d>,
    pub bag: Vec<usize>,
    pub sampled: bool,
    pub supercats: Vec<Vec<u32>>,
    pub synth: &'a Synth,
    pub levels: &'a [u64],
    pub tree: Tree,
    pub resampled: bool,
}

pub struct SessionOpts { pub n_max: usize, pub trees_max: usize, pub tame: bool, pub csv: bool }

/// Gradients on the discretization grid plus a jitter that cannot change the level, sometimes
/// pushed outside the bounds (clamped by the learner). Correlated with the columns.
pub fn gen_grads(rng: &mut Rng, t: &Table, nbits: usize) -> (Vec<f32>, (f32, f32), Vec<u64>) {
    let (lo, hi) = *rng.pick(&[(-1.0f32, 1.0f32), (-2.5, 2.5), (-1.0, 2.0), (0.0, 3.0), (-100.0, 100.0), (-0.01, 0.01), (-2.0e4, 5.0e3)]);
    let max = (1u64 << nbits) - 1;
    let step = (hi as f64 - lo as f64) / max as f64;
    let f1 = rng.below(t.nfeat());
    let f2 = rng.below(t.nfeat());
    let noise = *rng.pick(&[0.0, 0.2, 1.0, 4.0]);
    let jit = *rng.pick(&[0.0, 0.2, 0.4]);
    let (p1, p2) = (rng.frange(0.2, 3.0), rng.frange(0.2, 3.0));
    let norm = |f: usize| {
        let (mut a, mut b) = (f64::MAX, f64::MIN);
        for &v in &t.cols[f] { a = a.min(v as f64); b = b.max(v as f64); }
        (a, (b - a).max(1e-30))
    };
    let (n1, n2) = (norm(f1), norm(f2));
    let mut grads = Vec::with_capacity(t.n);
    let mut levels = Vec::with_capacity(t.n);
    for i in 0..t.n {
        let x = (t.cols[f1][i] as f64 - n1.0) / n1.1;
        let y = (t.cols[f2][i] as f64 - n2.0) / n2.1;
        let s = (x * 6.0 * p1).sin() + (y * 9.0 * p2).cos() + noise * rng.normal();
        let q = (((s + 2.0) / 4.0).max(0.0).min(1.0) * max as f64).round() as u64;
        let mut g = lo as f64 + q as f64 * step + (rng.f64() * 2.0 - 1.0) * jit * step;
        if q == max && rng.chance(0.1) { g = hi as f64 + rng.f64() * 3.0 * step; }
        if q == 0 && rng.chance(0.1) { g = lo as f64 - rng.f64() * 3.0 * step; }
        grads.push(g as f32);
        levels.push(q);
    }
    (grads, (lo, hi), levels)
}

pub fn gen_session_table(rng: &mut Rng, k: &Knobs, n: usize, tame: bool) -> Table {
    let mut nfeat = rng.range(1, if tiny() { 3 } else { 6 });
    // once in a while a wide table
    let budget = 400_000 / (n * k.max_nbins.max(8));
    if !tiny() && rng.below(60) == 0 && budget > 7 { nfeat = rng.range(7, budget.min(60)); }
    if !tiny() && rng.below(300) == 0 && budget > 70 { nfeat = rng.range(65, budget.min(400)); }
    let mode = rng.below(6);
    let constants = rng.chance(0.4);
    gen_table(rng, &TableOpts {
        n, nfeat, locard: mode != 0 && mode != 1, hicard: mode != 1 && mode != 2, numeric: mode != 0 && mode != 2,
        constants, max_nbins: k.max_nbins, target: Target::Regression, tame,
    })
}

pub fn make_data(rng: &mut Rng, t: &Table, config: &mut Config, csv: bool) -> Result<Data, String> {
    if csv {
        config.categorical_features = t.cat_ids();
        config.csv_has_header = rng.chance(0.5);
        config.csv_delimiter = *rng.pick(&[b',', b';', b'\t']);
        let s = t.to_csv(config.csv_has_header, config.csv_delimiter as char);
        Data::from_csv(config, &s)
    } else {
        Ok(t.to_data(config))
    }
}

/// How many useful (non-constant) features the table has, by definition.
pub fn nuseful(t: &Table) -> usize {
    (0..t.nfeat()).filter(|&f| is_useful(&t.cols[f])).count()
}

/// Run one session, calling `visit` after each tree. A panic of the code under test is returned.
pub fn session(ctx: &mut Ctx, o: &SessionOpts, mut visit: impl FnMut(&mut Ctx, &mut Step)) -> Result<String, (PanicInfo, String)> {
    let mut rng = ctx.rng.clone();
    let n = gen_n_wide(&mut rng, 4, o.n_max);
    let mut knobs = gen_knobs(&mut rng, n);
    let mut table = gen_session_table(&mut rng, &knobs, n, o.tame);
    for _ in 0..10 { if nuseful(&table) > 0 { break; } table = gen_session_table(&mut rng, &knobs, n, o.tame); }
    if nuseful(&table) == 0 { // make the first column non-constant
        table.cols[0][0] = 0.0;
        table.cols[0][n - 1] = 1.0;
    }
    if (nuseful(&table) as f32 * knobs.feature_fraction).round() < 1.0 { knobs.feature_fraction = 1.0; }
    let ntrees = rng.range(1, if tiny() { o.trees_max.min(2) } else { o.trees_max });
    let descr = format!("{} | {:?}", table.describe(), knobs);
    let use_csv = o.csv && rng.chance(0.3);
    let mut config = knobs.to_config();
    let data = match guarded(|| make_data(&mut rng, &table, &mut config, use_csv)) {
        Err(p) => return Err((p, descr)),
        Ok(Err(e)) => { ctx.violation("load-error", format!("{} [{}]", e, descr)); return Ok(descr); }
        Ok(Ok(d)) => d,
    };
    let mut lctx = match guarded(|| TreeLearnerContext::new(&config, &data)) { Ok(c) => c, Err(p) => return Err((p, descr)) };
    let mut dataset = match guarded(|| Dataset::new(&config, &data)) { Ok(c) => c, Err(p) => return Err((p, descr)) };
    let mut last_bag: Option<Vec<usize>> = None;
    for step in 0..ntrees {
        let (grads, bounds, levels) = gen_grads(&mut rng, &table, knobs.discr_nbits);
        let mut synth = Synth::new(grads, bounds);
        if let Err(p) = guarded(|| dataset.update(&config, &synth.grads, bounds)) { return Err((p, descr)); }
        let b = bag(&dataset);
        let tree = match guarded(|| train_tree(&mut lctx, &mut dataset, &mut synth)) { Ok(t) => t, Err(p) => return Err((p, descr)) };
        let resampled = last_bag.as_ref().map_or(true, |x| *x != b);
        last_bag = Some(b.clone());
        let sampled = dataset.example_sampling_enabled();
        let supercats = dataset.get_supercats().clone();
        let mut s = Step { index: step, table: &table, knobs: &knobs, config: &config, data: &data, dataset: &mut dataset,
                           bag: b, sampled, supercats, synth: &synth, levels: &levels, tree, resampled };
        visit(ctx, &mut s);
    }
    Ok(descr)
}
