//! C02: conservation - the leaves of a tree partition the bag; every prediction is updated once.
use bbmon::driver::{main as run, Ctx};
use bbmon::gen::*;
use bbmon::probe::*;
use bbmon::rng::hash_u64;
use bbmon::session::*;
use bitboost::boost::Booster;
use bitboost::objective::objective_from_name;

/// Counts, per example, how often it is in a leaf and how often updated as out-of-bag.
fn conserve(ctx: &mut Ctx, n: usize, leaves: &[(f32, Vec<usize>)], oob: &[(usize, f32)], bag: Option<&[usize]>, nbag: usize, d: &str) -> bool {
    let mut inleaf = vec![0u32; n];
    let mut out = vec![0u32; n];
    for (id, ex) in leaves {
        if ex.is_empty() { ctx.violation("empty-leaf", format!("leaf {} got no examples [{}]", id, d)); return false; }
        for &i in ex {
            if i >= n { ctx.violation("leaf-example-out-of-range", format!("leaf {} got example {} of {} [{}]", id, i, n, d)); return false; }
            inleaf[i] += 1;
        }
    }
    for &(i, _) in oob {
        if i >= n { ctx.violation("oob-example-out-of-range", format!("out-of-bag example {} of {} [{}]", i, n, d)); return false; }
        out[i] += 1;
    }
    if let Some(b) = bag {
        let mut inbag = vec![false; n];
        for &i in b { if i < n { inbag[i] = true; } }
        for i in 0..n {
            let want = if inbag[i] { (1, 0) } else { (0, 1) };
            if (inleaf[i], out[i]) != want {
                ctx.violation("not-conserved", format!("example {} (in bag: {}) is in {} leaves and updated {} times as out-of-bag [{}]", i, inbag[i], inleaf[i], out[i], d));
                return false;
            }
        }
    } else {
        for i in 0..n {
            if inleaf[i] + out[i] != 1 {
                ctx.violation("not-conserved", format!("example {} is in {} leaves and updated {} times as out-of-bag [{}]", i, inleaf[i], out[i], d));
                return false;
            }
        }
    }
    let total: u32 = inleaf.iter().sum();
    if total as usize != nbag {
        ctx.violation("bag-size", format!("the leaves hold {} examples, the bag has {} [{}]", total, nbag, d));
        return false;
    }
    ctx.count("examples_accounted", n as u64);
    ctx.count("leaves", leaves.len() as u64);
    ctx.count("oob_updates", oob.len() as u64);
    true
}

fn synthetic(ctx: &mut Ctx) {
    let n_max = if ctx.thorough { 30_000 } else { 8_000 };
    let fp0 = ctx.case_seed;
    let r = session(ctx, &SessionOpts { n_max, trees_max: 4, tame: false, csv: false }, |ctx, s| {
        let d = format!("tree {} | {} | {:?}", s.index, s.table.describe(), s.knobs);
        let nbag = (s.table.n as f32 * s.knobs.example_fraction).round() as usize;
        if !conserve(ctx, s.table.n, &s.synth.leaves, &s.synth.oob, Some(&s.bag), nbag, &d) { return; }
        for &l in &s.synth.targets_len {
            if l != s.table.n { ctx.violation("targets-passed", format!("leaf got {} targets of {} [{}]", l, s.table.n, d)); return; }
        }
        let nl = s.synth.leaves.len();
        if s.tree.nleafs() != nl || s.tree.nnodes() != 2 * nl - 1 {
            ctx.violation("leaf-count", format!("{} leaves were created but the tree reports {} leaves and {} nodes [{}]", nl, s.tree.nleafs(), s.tree.nnodes(), d));
            return;
        }
        ctx.maximum("leaves_in_a_tree", nl as u64);
        if nl >= 2 { ctx.observe(hash_u64(fp0, s.index as u64)); } else { ctx.observe_trivial(); }
        ctx.sample(|| format!("synthetic {} leaves={} bag={} oob={}", d, nl, s.bag.len(), s.synth.oob.len()));
    });
    if let Err((p, d)) = r { ctx.panic_violation("train", &p, &d); }
}

fn boosted(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    let n = gen_n_wide(&mut rng, 8, if ctx.thorough { 9000 } else { 2500 });
    let mut k = gen_knobs(&mut rng, n);
    k.objective = *rng.pick(&OBJECTIVES);
    if k.objective == "hinge" { k.discr_nbits = 2; }
    k.niterations = rng.range(1, 8);
    // once in a while many iterations
    if n < 300 && k.objective != "hinge" && rng.below(40) == 0 && !tiny() { k.niterations = rng.range(100, 700); k.max_tree_depth = k.max_tree_depth.min(4); k.max_nbins = k.max_nbins.min(16); if k.learning_rate > 0.3 { k.learning_rate = 0.3; } }
    // hinge leaf values grow quadratically with the predictions (known finding of C20)
    if k.objective == "hinge" { k.niterations = k.niterations.min(4); }
    let mut t = gen_session_table(&mut rng, &k, n, true);
    t.target = gen_table(&mut rng, &TableOpts { n, nfeat: 2, locard: true, hicard: false, numeric: true, constants: false,
        max_nbins: k.max_nbins, target: target_for(k.objective), tame: true }).target;
    if nuseful(&t) == 0 || t.target.iter().all(|&v| v == t.target[0]) { return; }
    if (nuseful(&t) as f32 * k.feature_fraction).round() < 1.0 { k.feature_fraction = 1.0; }
    let d = format!("{} | {:?}", t.describe(), k);
    let config = k.to_config();
    let data = match ctx.run("load", &d, || t.to_data(&config)) { Some(x) => x, None => return };
    let mut rec = Recorder::new(objective_from_name(k.objective).unwrap());
    if ctx.run("boost", &d, || Booster::new(&config, &data, &mut rec, &[]).train()).is_none() { return; }
    if rec.initialized != 1 { ctx.violation("initialize-count", format!("objective initialized {} times [{}]", rec.initialized, d)); return; }
    if rec.iters.len() != k.niterations { ctx.violation("iteration-count", format!("{} iterations run instead of {} [{}]", rec.iters.len(), k.niterations, d)); return; }
    let nbag = (n as f32 * k.example_fraction).round() as usize;
    let mut bag0: Vec<usize> = Vec::new();
    for (it, log) in rec.iters.iter().enumerate() {
        if !conserve(ctx, n, &log.leaves, &log.oob, None, nbag, &d) { return; }
        let mut bag: Vec<usize> = log.leaves.iter().flat_map(|l| l.1.iter().cloned()).collect();
        bag.sort_unstable();
        // the bag only changes when it is resampled
        if it > 0 && (it + 1) % k.sample_freq != 0 && bag != bag0 {
            ctx.violation("bag-changed", format!("the examples trained on changed at iteration {} without resampling [{}]", it + 1, d));
            return;
        }
        bag0 = bag;
        // exactly one update of each prediction
        let mut want = log.preds_before.clone();
        for (v, ex) in &log.leaves { for &i in ex { want[i] += v; } }
        for &(i, v) in &log.oob { want[i] += v; }
        let now = if it + 1 < rec.iters.len() { rec.iters[it + 1].preds_before.clone() } else { rec.inner.predictions().to_vec() };
        for i in 0..n {
            if !((want[i] - now[i]).abs() <= 1e-5 * (log.preds_before[i].abs() + want[i].abs() + 1e-30)) {
                ctx.violation("prediction-update", format!("iteration {}: prediction of example {} went from {} to {} instead of {} [{}]", it + 1, i, log.preds_before[i], now[i], want[i], d));
                return;
            }
        }
        if log.leaves.len() >= 2 { ctx.observe(hash_u64(ctx.case_seed, it as u64)); } else { ctx.observe_trivial(); }
    }
    ctx.count("boosted_iterations", rec.iters.len() as u64);
    ctx.sample(|| format!("boosted {}", d));
}

pub fn dispatch(ctx: &mut Ctx) {
    if ctx.case_index % 3 == 2 { boosted(ctx) } else { synthetic(ctx) }
}

fn main() { run("C02", dispatch); }
