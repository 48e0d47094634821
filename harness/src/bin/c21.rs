//! C21: the compression threshold never changes the result: leaves, gradients and predictions of
//! every iteration are bit-identical for all thresholds.
use bbmon::driver::{main as run, Ctx};
use bbmon::gen::*;
use bbmon::probe::*;
use bbmon::rng::{hash_u64, Rng};
use bbmon::session::*;
use bitboost::boost::Booster;
use bitboost::data::Data;
use bitboost::objective::objective_from_name;

#[derive(PartialEq, Clone, Default)]
struct Trace { leaves: Vec<Vec<(u32, Vec<usize>)>>, grads: Vec<Vec<u32>>, oob: Vec<Vec<(usize, u32)>>, pred: Vec<u32>, new: Vec<u32> }

fn train(k: &Knobs, t: &Table, probe: &Table, threshold: f32) -> Trace {
    let mut k = k.clone();
    k.compression_threshold = threshold;
    let config = k.to_config();
    let data: Data = t.to_data(&config);
    let mut rec = Recorder::new(objective_from_name(k.objective).unwrap());
    let model = Booster::new(&config, &data, &mut rec, &[]).train();
    let bits = |v: Vec<f32>| v.iter().map(|x| x.to_bits()).collect::<Vec<u32>>();
    let mut tr = Trace::default();
    tr.pred = bits(model.predict(&data));
    tr.new = bits(model.predict(&probe.to_data(&config)));
    for it in rec.iters {
        tr.leaves.push(it.leaves.into_iter().map(|(v, e)| (v.to_bits(), e)).collect());
        tr.grads.push(bits(it.grads));
        tr.oob.push(it.oob.into_iter().map(|(i, v)| (i, v.to_bits())).collect());
    }
    tr
}

/// Sorted or clustered columns, so that deep nodes are concentrated in few words.
fn cluster(rng: &mut Rng, t: &mut Table) {
    let n = t.n;
    for f in 0..t.nfeat() {
        match rng.below(4) {
            0 => t.cols[f].sort_by(|a, b| a.partial_cmp(b).unwrap()),
            1 if t.kinds[f] == "locard" => { let k = t.cols[f].iter().cloned().fold(0.0f32, f32::max) as usize + 1; for i in 0..n { t.cols[f][i] = (i * k / n) as f32; } }
            _ => {}
        }
    }
    if rng.chance(0.5) { // a target that makes the splits follow the clusters
        let f = rng.below(t.nfeat());
        let hi = t.cols[f].iter().fold(1e-9f32, |m, v| m.max(v.abs()));
        for i in 0..n { t.target[i] = (t.cols[f][i] / hi * 7.0).sin() + 0.1 * t.target[i]; }
    }
}

fn case(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    let n = if tiny() || rng.chance(0.3) { gen_n(&mut rng, 8, 500) } else { gen_n_wide(&mut rng, 300, if ctx.thorough { 20_000 } else { 5000 }) };
    let mut k = gen_knobs(&mut rng, n);
    k.objective = *rng.pick(&OBJECTIVES);
    if k.objective == "hinge" { k.discr_nbits = 2; }
    k.niterations = rng.range(1, 3);
    k.max_tree_depth = rng.range(2, 8);
    k.min_gain = 1e-6;
    if tiny() { k.niterations = 1; k.max_tree_depth = 3; }
    let mut t = gen_session_table(&mut rng, &k, n, true);
    if target_for(k.objective) == Target::Binary {
        t.target = gen_table(&mut rng, &TableOpts { n, nfeat: 2, locard: true, hicard: false, numeric: true, constants: false, max_nbins: k.max_nbins, target: Target::Binary, tame: true }).target;
    } else { cluster(&mut rng, &mut t); }
    if nuseful(&t) == 0 || t.target.iter().all(|&v| v == t.target[0]) { return; }
    if (nuseful(&t) as f32 * k.feature_fraction).round() < 1.0 { k.feature_fraction = 1.0; }
    let mut probe = Table { n: 60, cols: vec![], cat: t.cat.clone(), target: vec![0.0; 60], kinds: t.kinds.clone() };
    for c in &t.cols { probe.cols.push((0..60).map(|_| c[rng.below(n)]).collect()); }
    let d = format!("{} | {:?}", t.describe(), k);
    let mut ths = vec![2.0f32];
    let pool = [0.0f32, 0.05, 0.1, 0.25, 0.5, 0.75, 0.9, 0.99, -1.0];
    ths.push(*rng.pick(&[0.0f32, 0.0, -1.0]));
    for _ in 0..if tiny() { 0 } else { 3 } { let x = *rng.pick(&pool); if !ths.contains(&x) { ths.push(x); } }
    if rng.chance(0.3) { ths.push(rng.f32()); }
    let mut base: Option<Trace> = None;
    for &th in &ths {
        let tr = match ctx.run("train", &format!("threshold {} {}", th, d), || train(&k, &t, &probe, th)) { Some(t) => t, None => return };
        let b = match &base { None => { base = Some(tr); continue; } Some(b) => b };
        ctx.count("comparisons", 1);
        if *b != tr {
            let what = if let Some(i) = (0..b.leaves.len()).find(|&i| b.leaves[i] != tr.leaves[i]) { format!("leaves of iteration {}: {} and {} leaves", i + 1, b.leaves[i].len(), tr.leaves[i].len()) }
                else if b.grads != tr.grads { "gradients".to_string() } else if b.oob != tr.oob { "out-of-bag updates".to_string() }
                else { "predictions".to_string() };
            ctx.violation("threshold-matters", format!("thresholds {} and {} differ: {} [{}]", ths[0], th, what, d));
            return;
        }
    }
    let b = base.unwrap();
    // how sparse the leaves were: share of leaves living in less than half of the words
    let words = (n + 31) / 32;
    let mut sparse = 0;
    let mut leaves = 0u64;
    for l in &b.leaves { for (_, ex) in l { leaves += 1; let mut w: Vec<usize> = ex.iter().map(|i| i / 32).collect(); w.dedup(); w.sort_unstable(); w.dedup(); if 2 * w.len() < words { sparse += 1; } } }
    ctx.count("leaves", leaves);
    ctx.count("leaves_in_few_words", sparse);
    if sparse > 0 { ctx.observe(hash_u64(ctx.case_seed, leaves)); } else { ctx.observe_trivial(); }
    ctx.sample(|| format!("thresholds {:?} {} leaves={} sparse={}", ths, d, leaves, sparse));
}

pub fn dispatch(ctx: &mut Ctx) { case(ctx) }

fn main() { run("C21", dispatch); }
