//! C13: gradient boosting with squared error is monotone on the examples each tree is trained on.
use bbmon::driver::{main as run, Ctx};
use bbmon::gen::*;
use bbmon::probe::*;
use bbmon::rng::hash_u64;
use bbmon::session::*;
use bitboost::boost::Booster;
use bitboost::objective::objective_from_name;

fn sse(preds: &[f32], targets: &[f32], idx: &[usize]) -> f64 {
    idx.iter().map(|&i| { let d = targets[i] as f64 - preds[i] as f64; d * d }).sum()
}

/// What f32 rounding of the leaf means and of the running predictions may add to the error.
fn slack(e_old: f64, m: usize, tmax: f64) -> f64 {
    let u = 3e-7 * tmax;
    1e-5 * e_old + m as f64 * u * u + 2.0 * (e_old * m as f64).sqrt() * u
}

fn case(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    let n = if rng.below(25) == 0 && !tiny() { rng.range(4000, 30_000) } else { gen_n_wide(&mut rng, 4, if ctx.thorough { 12_000 } else { 3000 }) };
    let mut k = gen_knobs(&mut rng, n);
    k.objective = "l2";
    k.learning_rate = *rng.pick(&[1.0f32, 1.0, 0.5, 0.1, 0.9, 0.01]);
    k.niterations = rng.range(1, if n < 500 { 20 } else { 8 });
    if n < 300 && rng.below(25) == 0 && !tiny() { k.niterations = rng.range(50, 300); k.max_tree_depth = k.max_tree_depth.min(4); }
    if rng.chance(0.5) { k.example_fraction = 1.0; }
    let mut t = gen_session_table(&mut rng, &k, n, true);
    if nuseful(&t) == 0 { return; }
    if (nuseful(&t) as f32 * k.feature_fraction).round() < 1.0 { k.feature_fraction = 1.0; }
    let scale = *rng.pick(&[1.0f32, 1.0, 100.0, 0.01]);
    let shift = *rng.pick(&[0.0f32, 0.0, 5.0, -300.0]);
    let spike = rng.chance(0.15);
    for v in t.target.iter_mut() { *v = *v * scale + shift; }
    if spike { let i = rng.below(n); t.target[i] += scale * 1000.0; }
    if t.target.iter().all(|&v| v == t.target[0]) { return; }
    let d = format!("{} | {:?}", t.describe(), k);
    let config = k.to_config();
    let data = match ctx.run("load", &d, || t.to_data(&config)) { Some(x) => x, None => return };
    let mut rec = Recorder::new(objective_from_name("l2").unwrap());
    let model = match ctx.run("boost", &d, || Booster::new(&config, &data, &mut rec, &[]).train()) { Some(m) => m, None => return };
    let lr = k.learning_rate as f64;
    let mut improved = 0u64;
    let niter = rec.iters.len();
    for it in 0..niter {
        let log = &rec.iters[it];
        let after: &[f32] = if it + 1 < niter { &rec.iters[it + 1].preds_before } else { rec.inner.predictions() };
        let bag: Vec<usize> = log.leaves.iter().flat_map(|l| l.1.iter().cloned()).collect();
        let mut tmax = 0.0f64;
        for &i in &bag { tmax = tmax.max(t.target[i].abs() as f64).max(log.preds_before[i].abs() as f64).max(after[i].abs() as f64); }
        let (e0, e1) = (sse(&log.preds_before, &t.target, &bag), sse(after, &t.target, &bag));
        let tol = slack(e0, bag.len(), tmax);
        if !(e1 <= e0 + tol) {
            ctx.violation("error-increased", format!("iteration {}: squared error over the {} examples trained on went from {:e} to {:e} [{}]", it + 1, bag.len(), e0, e1, d));
            return;
        }
        if e1 < e0 - tol { improved += 1; }
        for (v, ex) in &log.leaves {
            let m = ex.len() as f64;
            let r0: f64 = ex.iter().map(|&i| t.target[i] as f64 - log.preds_before[i] as f64).sum::<f64>() / m;
            let r1: f64 = ex.iter().map(|&i| t.target[i] as f64 - after[i] as f64).sum::<f64>() / m;
            let abs: f64 = ex.iter().map(|&i| (t.target[i] as f64 - log.preds_before[i] as f64).abs()).sum::<f64>() / m;
            let tol = abs * (1.2e-7 * m + 1e-6) + 6e-7 * tmax;
            if !((r1 - (1.0 - lr) * r0).abs() <= tol) {
                ctx.violation("leaf-residual", format!("iteration {}: a leaf of {} examples has mean residual {} before and {} after, expected {} (leaf value {}) [{}]",
                    it + 1, ex.len(), r0, r1, (1.0 - lr) * r0, v, d));
                return;
            }
            ctx.count("leaf_residuals", 1);
        }
        ctx.count("iterations", 1);
        if log.leaves.len() > 1 { ctx.observe(hash_u64(ctx.case_seed, it as u64)); } else { ctx.observe_trivial(); }
    }
    ctx.count("iterations_improved", improved);

    // the same through the returned models: error of the first 0, 1, .., K trees
    let bagged = rec.iters.iter().any(|l| !l.oob.is_empty());
    if !bagged && n <= 800 {
        let all: Vec<usize> = (0..n).collect();
        let mut prev: Option<f64> = None;
        for nt in (0..=niter.min(5)).chain(std::iter::once(niter)) {
            let mut c = k.to_config();
            c.niterations = nt;
            let mut o = objective_from_name("l2").unwrap();
            let p = if nt == niter { model.predict(&data) } else {
                match ctx.run("boost", &d, || Booster::new(&c, &data, o.as_mut(), &[]).train().predict(&data)) { Some(p) => p, None => return }
            };
            let e = sse(&p, &t.target, &all);
            let tmax = t.target.iter().chain(p.iter()).fold(0.0f64, |m, &v| m.max(v.abs() as f64));
            if let Some(e0) = prev {
                if !(e <= e0 + 4.0 * slack(e0, n, tmax)) {
                    ctx.violation("model-error-increased", format!("models with growing numbers of trees: squared error went from {:e} to {:e} at {} trees [{}]", e0, e, nt, d));
                    return;
                }
            }
            prev = Some(e);
            ctx.count("models_compared", 1);
        }
    }
    ctx.sample(|| format!("{} iterations={} improved={}", d, niter, improved));
}

pub fn dispatch(ctx: &mut Ctx) { case(ctx) }

fn main() { run("C13", dispatch); }
