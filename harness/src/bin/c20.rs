//! C20: valid input, however degenerate, trains without panic to finite predictions.
use bbmon::driver::{guarded, main as run, Ctx};
use bbmon::gen::*;
use bbmon::rng::{hash_u64, Rng};
use bitboost::boost::Booster;
use bitboost::dataset::Dataset;
use bitboost::objective::objective_from_name;
use bitboost::tree::*;

fn column(rng: &mut Rng, n: usize, max_nbins: usize) -> (Vec<f32>, bool, &'static str) {
    match rng.below(20) {
        0 => (vec![*rng.pick(&[0.0f32, 1.0, -1e6, 1e6, 0.1, 1e-30]); n], false, "constant"),
        1 => (vec![*rng.pick(&[0.0f32, 1.0, 5.0, 300.0]); n], true, "constant category"),
        2 => ((0..n).map(|_| rng.below(2) as f32).collect(), rng.chance(0.5), "binary"),
        3 => ((0..n).map(|i| i as f32).collect(), false, "ramp"),
        4 => ((0..n).map(|i| i as f32).collect(), true, "identifier category"),
        5 => ((0..n).map(|_| ((rng.f64() - 0.5) * 2e6) as f32).collect(), false, "up to 1e6"),
        6 => { let base = *rng.pick(&[1e6f32, -999_999.0, 1.0, 1e-3]); ((0..n).map(|_| f32::from_bits(base.to_bits() + rng.below(3) as u32)).collect(), false, "adjacent floats") }
        7 => ((0..n).map(|_| if rng.chance(0.97) { 0.0 } else { 1e6 }).collect(), false, "spike"),
        8 => ((0..n).map(|i| if i == 0 { -1e6 } else { 1e-3 * rng.f32() }).collect(), false, "outlier"),
        9 => ((0..n).map(|_| f32::from_bits(rng.below(5) as u32)).collect(), false, "denormal"),
        10 => ((0..n).map(|_| if rng.chance(0.5) { 0.0 } else { -0.0 }).collect(), false, "signed zeros"),
        11 => ((0..n).map(|_| (max_nbins + rng.below(3)) as f32).collect(), true, "high category numbers"),
        12 => ((0..n).map(|_| 5000.0 * rng.below(3) as f32).collect(), true, "sparse category numbers"),
        13 => ((0..n).map(|i| if i + 1 == n { 1.0 } else { 0.0 }).collect(), rng.chance(0.5), "one different"),
        14 => ((0..n).map(|_| rng.below(max_nbins + 2) as f32).collect(), true, "category"),
        15 => ((0..n).map(|_| (rng.normal() * 4.0).exp().min(1e6) as f32).collect(), false, "lognormal"),
        16 => ((0..n).map(|_| rng.below(4) as f32 * 1e-20).collect(), false, "tiny"),
        17 => { let p = *rng.pick(&[0.01, 0.3, 0.9]); ((0..n).map(|_| if rng.chance(p) { f32::NAN } else { rng.normal() as f32 }).collect(), false, "missing values") }
        18 => { let v = *rng.pick(&[f32::NAN, 3.0]); ((0..n).map(|i| if i % 3 == 0 { v } else { f32::NAN }).collect(), false, "all missing") }
        _ => ((0..n).map(|_| rng.normal() as f32).collect(), false, "normal"),
    }
}

fn target(rng: &mut Rng, n: usize, binary: bool, cols: &[Vec<f32>]) -> (Vec<f32>, &'static str) {
    if binary {
        return match rng.below(6) {
            0 => (vec![1.0; n], "all positive"),
            1 => (vec![0.0; n], "all negative"),
            2 => ((0..n).map(|i| if i == n / 2 { 1.0 } else { 0.0 }).collect(), "one positive"),
            3 => ((0..n).map(|i| if i == 0 { 0.0 } else { 1.0 }).collect(), "one negative"),
            4 => { let m = cols[0][n / 2]; (cols[0].iter().map(|&v| if v < m { 1.0 } else { 0.0 }).collect(), "separable") }
            _ => ((0..n).map(|_| rng.below(2) as f32).collect(), "random classes"),
        };
    }
    match rng.below(11) {
        0 => (vec![*rng.pick(&[0.0f32, 1.0, -1e6, 0.1, 1e-30, 123.456]); n], "constant"),
        1 => (cols[0].iter().map(|&v| if v.is_nan() { 0.0 } else { v }).collect(), "equal to a column"),
        2 => ((0..n).map(|_| rng.below(2) as f32).collect(), "two values"),
        3 => ((0..n).map(|i| if i == 0 { 1e6 } else { 0.0 }).collect(), "one outlier"),
        4 => ((0..n).map(|_| ((rng.f64() - 0.5) * 2e6) as f32).collect(), "up to 1e6"),
        5 => ((0..n).map(|_| f32::from_bits(rng.below(4) as u32)).collect(), "denormal"),
        6 => { let b = *rng.pick(&[1e6f32, 3.0]); ((0..n).map(|_| f32::from_bits(b.to_bits() + rng.below(2) as u32)).collect(), "adjacent floats") }
        7 => ((0..n).map(|_| if rng.chance(0.5) { 0.0 } else { -0.0 }).collect(), "signed zeros"),
        8 => ((0..n).map(|_| 1e-20 * rng.normal() as f32).collect(), "tiny"),
        9 => { let m = cols[0][n / 2]; (cols[0].iter().map(|&v| if v < m { 10.0 } else { -10.0 }).collect(), "step") }
        _ => ((0..n).map(|_| rng.normal() as f32).collect(), "normal"),
    }
}

fn case(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    let n = match rng.below(6) { _ if rng.below(3000) == 0 && !tiny() => rng.range(65_000, 100_000), 0 => 1, 1 => rng.range(1, 4), 2 => rng.range(1, 40), 3 => rng.range(1, 300), 4 => gen_n(&mut rng, 1, 600), _ => gen_n(&mut rng, 1, if ctx.thorough { 5000 } else { 1500 }) };
    let mut k = gen_knobs(&mut rng, n);
    k.objective = *rng.pick(&OBJECTIVES);
    k.max_nbins = *rng.pick(&[1usize, 2, 3, 16, 16, 255, 1000]);
    k.max_tree_depth = *rng.pick(&[1usize, 2, 4, 6, 9]);
    k.niterations = *rng.pick(&[0usize, 1, 2, 5, 8, 30]);
    if tiny() { k.max_nbins = k.max_nbins.min(16); k.max_tree_depth = k.max_tree_depth.min(4); k.niterations = k.niterations.min(2); }
    if n > 400 { k.niterations = k.niterations.min(5); }
    k.min_examples_leaf = *rng.pick(&[0u32, 1, 1, 2, 1000, n as u32, n as u32 + 1, 1_000_000]);
    k.min_gain = *rng.pick(&[1e-6f32, 1e-6, 1e-30, 1e30, 1.0, 0.0, -1.0]);
    k.reg_lambda = *rng.pick(&[0.0f32, 0.0, 1.0, 1e6, 1e-6]);
    k.learning_rate = *rng.pick(&[1.0f32, 0.1, 1e-6, 0.0, 2.0]);
    k.huber_alpha = *rng.pick(&[0.95f32, 0.5, 0.001, 0.999]);
    k.example_fraction = *rng.pick(&[1.0f32, 1.0, 0.5, 0.05, 0.999]);
    k.feature_fraction = *rng.pick(&[1.0f32, 1.0, 0.5, 0.3]);
    k.sample_freq = *rng.pick(&[1usize, 1, 2, 100]);
    k.binary_gradient_bound = *rng.pick(&[1.25f32, 2.0, 0.01]);
    if (n as f32 * k.example_fraction).round() < 1.0 { k.example_fraction = 1.0; }
    if k.objective == "hinge" { k.discr_nbits = 2; k.niterations = k.niterations.min(4); }
    // a step size above 1 makes boosting diverge geometrically: bounded here, not a matter of degenerate data
    if k.learning_rate > 1.0 { k.niterations = k.niterations.min(2); }
    let nf = rng.range(1, 6);
    let mut t = Table { n, cols: vec![], cat: vec![], target: vec![], kinds: vec![] };
    for _ in 0..nf {
        if !t.cols.is_empty() && rng.chance(0.15) { let f = rng.below(t.nfeat()); let c = t.cols[f].clone(); t.cols.push(c); t.cat.push(t.cat[f]); t.kinds.push("duplicate"); continue; }
        let (c, cat, kind) = column(&mut rng, n, k.max_nbins);
        t.cols.push(c); t.cat.push(cat); t.kinds.push(kind);
    }
    if rng.chance(0.05) { for f in 0..nf { t.cols[f] = vec![0.0; n]; t.kinds[f] = "constant"; } }
    let binary = target_for(k.objective) == Target::Binary;
    let (target, tk) = target(&mut rng, n, binary, &t.cols);
    t.target = target;
    let useful = (0..nf).filter(|&f| is_useful(&t.cols[f])).count();
    if useful > 0 && (useful as f32 * k.feature_fraction).round() < 1.0 { k.feature_fraction = 1.0; }
    let mode = rng.below(5);
    let d = format!("n={} columns {:?} target {} | {:?}", n, t.kinds, tk, k);
    let config = k.to_config();
    let data = match ctx.run("load", &d, || t.to_data(&config)) { Some(x) => x, None => return };
    let mut o = objective_from_name(k.objective).unwrap();
    // a different data set to predict on
    let m = rng.range(1, 50);
    let mut p = Table { n: m, cols: vec![], cat: t.cat.clone(), target: vec![0.0; m], kinds: t.kinds.clone() };
    for f in 0..nf { p.cols.push((0..m).map(|_| if t.cat[f] { *rng.pick(&[0.0f32, 1.0, 7.0, 1e6]) } else { *rng.pick(&[0.0f32, -1e6, 1e6, 1.0]) }).collect()); }
    let pdata = p.to_data(&config);
    let (a, b) = if mode == 4 && k.niterations > 0 {
        // a single tree on its own
        match ctx.run("train", &d, || {
            o.initialize(&config, &t.target);
            o.update(&t.target);
            let mut ds = Dataset::new(&config, &data);
            ds.update(&config, o.gradients(), o.bounds());
            let mut c = TreeLearnerContext::new(&config, &data);
            let sc = ds.get_supercats().clone();
            let mut tree = TreeLearner::new(&mut c, &ds, sc, o.as_mut()).train();
            tree.set_bias(o.bias());
            (tree.predict(&data), tree.predict(&pdata))
        }) { Some(x) => x, None => return }
    } else {
        match ctx.run("train", &d, || { let m = Booster::new(&config, &data, o.as_mut(), &[]).train(); (m.predict(&data), m.predict(&pdata)) }) { Some(x) => x, None => return }
    };
    if let Some(i) = a.iter().position(|v| !v.is_finite()) { ctx.violation("not-finite", format!("training example {} is predicted {} [{}]", i, a[i], d)); return; }
    if let Some(i) = b.iter().position(|v| !v.is_finite()) { ctx.violation("not-finite", format!("new example {} is predicted {} [{}]", i, b[i], d)); return; }
    ctx.count(&format!("target {}", tk), 1);
    if n == 1 { ctx.count("single_example", 1); }
    if useful == 0 { ctx.count("no_useful_column", 1); }
    ctx.count("models", 1);
    ctx.observe(hash_u64(ctx.case_seed, t.fingerprint()));
    ctx.sample(|| d);
}

/// Known finding: hinge predictions grow quadratically and overflow. One fixed input.
fn hinge_finding(ctx: &mut Ctx) {
    let mut k = Knobs::default();
    k.objective = "hinge"; k.discr_nbits = 2; k.niterations = 30;
    let n = 64;
    let t = Table { n, cols: vec![(0..n).map(|i| (i % 2) as f32).collect()], cat: vec![true], target: (0..n).map(|i| if i % 4 == 0 { 1.0 } else { 0.0 }).collect(), kinds: vec!["two-cat"] };
    let config = k.to_config();
    let data = t.to_data(&config);
    let mut o = objective_from_name("hinge").unwrap();
    let r = guarded(|| Booster::new(&config, &data, o.as_mut(), &[]).train().predict(&data));
    match r {
        Ok(p) if p.iter().all(|v| v.is_finite()) => ctx.count("hinge_input_fine", 1),
        Ok(_) => ctx.violation("hinge-divergence:fixed-input", "not finite".to_string()),
        Err(p) => ctx.violation("hinge-divergence:fixed-input", format!("{:?}", p)),
    }
}

pub fn dispatch(ctx: &mut Ctx) {
    if ctx.case_index == 0 { hinge_finding(ctx); } else { case(ctx) }
}

fn main() { run("C20", dispatch); }
