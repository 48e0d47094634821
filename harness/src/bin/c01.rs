//! C01: the model that training returns routes every training example exactly as training did.
use bbmon::driver::{guarded, main as run, Ctx};
use bbmon::gen::*;
use bbmon::probe::*;
use bbmon::rng::hash_u64;
use bbmon::session::*;
use bitboost::boost::Booster;
use bitboost::objective::objective_from_name;

fn synthetic(ctx: &mut Ctx) {
    let n_max = if ctx.thorough { 20_000 } else { 6_000 };
    let fp0 = ctx.case_seed;
    let r = session(ctx, &SessionOpts { n_max, trees_max: 4, tame: false, csv: true }, |ctx, s| {
        let mut nleaf = 0;
        let mut checked = 0u64;
        let describe = |s: &Step| format!("tree {} | {} | {:?}", s.index, s.table.describe(), s.knobs);
        for (id, ex) in &s.synth.leaves {
            nleaf += 1;
            for &i in ex {
                if i >= s.table.n { let d = describe(s); ctx.violation("example-out-of-range", format!("leaf {} got example {} of {} [{}]", id, i, s.table.n, d)); return; }
                let p = match guarded(|| s.tree.predict_single(s.data, i)) { Ok(p) => p, Err(p) => { let d = describe(s); ctx.panic_violation("predict", &p, &d); return; } };
                checked += 1;
                if p != *id {
                    let d = describe(s);
                    let vals: Vec<f32> = (0..s.table.nfeat()).map(|f| s.table.cols[f][i]).collect();
                    ctx.violation("in-bag-route", format!("training put example {} {:?} in leaf {}, prediction sends it to leaf {} [{}]", i, vals, id, p, d));
                    return;
                }
            }
        }
        for &(i, v) in &s.synth.oob {
            if i >= s.table.n { let d = describe(s); ctx.violation("example-out-of-range", format!("out-of-bag example {} of {} [{}]", i, s.table.n, d)); return; }
            let p = s.tree.predict_single(s.data, i);
            checked += 1;
            if p != v { let d = describe(s); ctx.violation("oob-route", format!("out-of-bag example {} updated with {}, model predicts {} [{}]", i, v, p, d)); return; }
        }
        ctx.count("examples_routed", checked);
        ctx.count("leaves", nleaf);
        ctx.count("oob_examples", s.synth.oob.len() as u64);
        ctx.maximum("leaves_in_a_tree", nleaf);
        if nleaf >= 2 { ctx.observe(hash_u64(fp0, s.index as u64)); } else { ctx.observe_trivial(); }
        ctx.sample(|| format!("synthetic {} leaves={} routed={} oob={}", describe(s), nleaf, checked, s.synth.oob.len()));
    });
    if let Err((p, d)) = r { ctx.panic_violation("train", &p, &d); }
}

fn boosted(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    let n = gen_n_wide(&mut rng, 8, if ctx.thorough { 8000 } else { 2500 });
    let mut k = gen_knobs(&mut rng, n);
    k.objective = *rng.pick(&OBJECTIVES);
    if k.objective == "hinge" { k.discr_nbits = 2; }
    k.niterations = rng.range(1, 8);
    if rng.below(60) == 0 && n < 400 && !tiny() { k.niterations = rng.range(50, 150); k.max_tree_depth = k.max_tree_depth.min(4); }
    // hinge leaf values grow quadratically with the predictions (known finding of C20)
    if k.objective == "hinge" { k.niterations = k.niterations.min(4); }
    let mut t = gen_session_table(&mut rng, &k, n, false);
    t.target = gen_table(&mut rng, &TableOpts { n, nfeat: 2, locard: true, hicard: false, numeric: true, constants: false,
        max_nbins: k.max_nbins, target: target_for(k.objective), tame: false }).target;
    if nuseful(&t) == 0 || (nuseful(&t) as f32 * k.feature_fraction).round() < 1.0 { k.feature_fraction = 1.0; }
    if nuseful(&t) == 0 { return; }
    // degenerate targets are the business of another property
    if t.target.iter().all(|&v| v == t.target[0]) { return; }
    let d = format!("{} | {:?}", t.describe(), k);
    let config = k.to_config();
    let data = match ctx.run("load", &d, || t.to_data(&config)) { Some(x) => x, None => return };
    let mut rec = Recorder::new(objective_from_name(k.objective).unwrap());
    let model = match ctx.run("boost", &d, || Booster::new(&config, &data, &mut rec, &[]).train()) { Some(m) => m, None => return };
    let pred = match ctx.run("predict", &d, || model.predict(&data)) { Some(p) => p, None => return };
    use bitboost::objective::Objective;
    let tracked = rec.predictions();
    let mut scale = 1e-6f64;
    for &v in tracked { if v.is_finite() { scale = scale.max(v.abs() as f64); } }
    for it in &rec.iters { for &(v, _) in &it.leaves { scale = scale.max(v.abs() as f64); } }
    for i in 0..n {
        let (a, b) = (tracked[i] as f64, pred[i] as f64);
        if !((a - b).abs() <= 1e-5 * scale * (k.niterations as f64 + 1.0)) {
            ctx.violation("boosted-prediction", format!("example {}: prediction tracked by training {} but the returned model predicts {} [{}]", i, a, b, d));
            return;
        }
    }
    ctx.count("boosted_predictions", n as u64);
    ctx.count("boosted_models", 1);
    if rec.iters.iter().any(|it| it.leaves.len() > 1) { ctx.observe(ctx.case_seed); } else { ctx.observe_trivial(); }
    ctx.sample(|| format!("boosted {}", d));
}

pub fn dispatch(ctx: &mut Ctx) {
    if ctx.case_index % 3 == 2 { boosted(ctx) } else { synthetic(ctx) }
}

fn main() { run("C01", dispatch); }
