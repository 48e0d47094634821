//! C09: the same data and configuration always give the same model - repeated, after other
//! trainings, with any number of rayon threads, next to concurrent trainings, and in another
//! process; a shorter run is a prefix of a longer one.
use bbmon::driver::{guarded, main as run, Ctx};
use bbmon::gen::*;
use bbmon::probe::*;
use bbmon::rng::{hash_u64, Rng};
use bbmon::session::*;
use bitboost::boost::Booster;
use bitboost::config::Config;
use bitboost::data::Data;
use bitboost::objective::objective_from_name;

struct Case { k: Knobs, table: Table, probe: Table }

fn gen_case(rng: &mut Rng, n_max: usize) -> Option<Case> {
    let n = gen_n(rng, 8, n_max);
    let mut k = gen_knobs(rng, n);
    k.objective = *rng.pick(&OBJECTIVES);
    if k.objective == "hinge" { k.discr_nbits = 2; }
    k.niterations = rng.range(1, if k.objective == "hinge" { 4 } else { 7 });
    if n < 200 && k.objective != "hinge" && rng.below(60) == 0 { k.niterations = rng.range(40, 120); }
    if tiny() { k.niterations = 1; }
    let mut t = gen_session_table(rng, &k, n, true);
    t.target = gen_table(rng, &TableOpts { n, nfeat: 2, locard: true, hicard: false, numeric: true, constants: false,
        max_nbins: k.max_nbins, target: target_for(k.objective), tame: true }).target;
    // duplicated columns: equally good splits on different features
    if rng.chance(0.6) {
        for _ in 0..rng.range(1, 4) {
            let f = rng.below(t.nfeat());
            let (c, cat, kind) = (t.cols[f].clone(), t.cat[f], t.kinds[f]);
            let at = rng.below(t.nfeat() + 1);
            t.cols.insert(at, c); t.cat.insert(at, cat); t.kinds.insert(at, kind);
        }
    }
    if nuseful(&t) == 0 || t.target.iter().all(|&v| v == t.target[0]) { return None; }
    if (nuseful(&t) as f32 * k.feature_fraction).round() < 1.0 { k.feature_fraction = 1.0; }
    // a data set in which the duplicated columns differ, so that a model using another copy shows
    let m = rng.range(20, 120);
    let mut p = Table { n: m, cols: Vec::new(), cat: t.cat.clone(), target: vec![0.0; m], kinds: t.kinds.clone() };
    for c in &t.cols { p.cols.push((0..m).map(|_| c[rng.below(n)]).collect()); }
    Some(Case { k, table: t, probe: p })
}

/// Everything a training produces, as bits.
#[derive(PartialEq, Eq, Clone, Debug, Default)]
struct Trace { pred: Vec<u32>, probe: Vec<u32>, iters: Vec<u64> }

fn train(config: &Config, data: &Data, probe: &Data) -> Trace {
    let mut rec = Recorder::new(objective_from_name(&config.objective).unwrap());
    let model = Booster::new(config, data, &mut rec, &[]).train();
    let mut t = Trace::default();
    t.pred = model.predict(data).iter().map(|v| v.to_bits()).collect();
    t.probe = model.predict(probe).iter().map(|v| v.to_bits()).collect();
    for l in &rec.iters {
        let mut h = 1u64;
        for v in l.preds_before.iter().chain(l.grads.iter()) { h = hash_u64(h, v.to_bits() as u64); }
        h = hash_u64(h, l.bounds.0.to_bits() as u64); h = hash_u64(h, l.bounds.1.to_bits() as u64);
        for (v, ex) in &l.leaves { h = hash_u64(h, v.to_bits() as u64); for &e in ex { h = hash_u64(h, e as u64); } }
        for &(i, v) in &l.oob { h = hash_u64(h, i as u64); h = hash_u64(h, v.to_bits() as u64); }
        t.iters.push(h);
    }
    t
}

fn differs(a: &Trace, b: &Trace) -> Option<String> {
    if a == b { return None; }
    if let Some(i) = (0..a.iters.len().min(b.iters.len())).find(|&i| a.iters[i] != b.iters[i]) { return Some(format!("iteration {} differs", i + 1)); }
    if a.iters.len() != b.iters.len() { return Some(format!("{} and {} iterations", a.iters.len(), b.iters.len())); }
    if let Some(i) = (0..a.pred.len()).find(|&i| a.pred[i] != b.pred[i]) { return Some(format!("prediction of training example {}: {} and {}", i, f32::from_bits(a.pred[i]), f32::from_bits(b.pred[i]))); }
    let i = (0..a.probe.len()).find(|&i| a.probe[i] != b.probe[i]).unwrap_or(0);
    Some(format!("prediction of new example {}: {} and {}", i, f32::from_bits(a.probe[i]), f32::from_bits(b.probe[i])))
}

fn pool(n: usize) -> rayon::ThreadPool { rayon::ThreadPoolBuilder::new().num_threads(n).build().expect("HARNESS pool") }

fn case(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    let n_max = if ctx.thorough { 8000 } else { 2500 };
    let c = match gen_case(&mut rng, n_max) { Some(c) => c, None => return };
    let other = loop { if let Some(c) = gen_case(&mut rng, 600) { break c; } };
    let d = format!("{} | {:?}", c.table.describe(), c.k);
    let config = c.k.to_config();
    let (data, probe) = (c.table.to_data(&config), c.probe.to_data(&config));
    let oconfig = other.k.to_config();
    let (odata, oprobe) = (other.table.to_data(&oconfig), other.probe.to_data(&oconfig));
    let base = match ctx.run("train", &d, || train(&config, &data, &probe)) { Some(t) => t, None => return };
    let compare = |ctx: &mut Ctx, what: &str, t: &Trace| -> bool {
        ctx.count(&format!("compared_{}", what), 1);
        match differs(&base, t) {
            Some(m) => { ctx.violation(what, format!("{}: {} [{}]", what, m, d)); false }
            None => true,
        }
    };

    // again, with other trainings and predictions in between
    if ctx.run("train", &d, || train(&oconfig, &odata, &oprobe)).is_none() { return; }
    match ctx.run("train", &d, || train(&config, &data, &probe)) { Some(t) => if !compare(ctx, "repeated", &t) { return; }, None => return }
    // freshly loaded data
    let data2 = c.table.to_data(&c.k.to_config());
    match ctx.run("train", &d, || train(&c.k.to_config(), &data2, &probe)) { Some(t) => if !compare(ctx, "reloaded", &t) { return; }, None => return }
    // thread pools
    for _ in 0..if tiny() { 1 } else { 2 } {
        let nt = if tiny() { 2 } else { *rng.pick(&[1usize, 2, 3, 4, 5, 8, 16]) };
        let p = pool(nt);
        match ctx.run("train", &d, || p.install(|| train(&config, &data, &probe))) { Some(t) => if !compare(ctx, "threads", &t) { return; }, None => return }
        ctx.count(&format!("pool_of_{}", nt), 1);
        ctx.maximum("pool_threads", nt as u64);
    }
    // concurrent trainings on separate data, in shared and in separate pools
    if rng.chance(0.5) {
        let shared = rng.chance(0.5);
        let nthr = rng.range(2, 4);
        let p = pool(3);
        let results: Vec<Result<Option<Trace>, bbmon::driver::PanicInfo>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..nthr).map(|j| {
                let (c, other, p) = (&c, &other, &p);
                s.spawn(move || guarded(|| {
                    let go = || {
                        let cf = c.k.to_config();
                        let of = other.k.to_config();
                        if j % 2 == 1 { let od = other.table.to_data(&of); let op = other.probe.to_data(&of); train(&of, &od, &op); }
                        let (da, pr) = (c.table.to_data(&cf), c.probe.to_data(&cf));
                        train(&cf, &da, &pr)
                    };
                    Some(if shared { p.install(go) } else { go() })
                }))
            }).collect();
            hs.into_iter().map(|h| h.join().expect("HARNESS join")).collect()
        });
        for r in results {
            match r {
                Ok(Some(t)) => if !compare(ctx, "concurrent", &t) { return; },
                Ok(None) => {}
                Err(p) => { ctx.panic_violation("concurrent", &p, &d); return; }
            }
        }
        ctx.count("concurrent_groups", 1);
    }
    // prefixes
    let full = base.iters.len();
    for _ in 0..2 {
        let kk = rng.range(0, full - 1);
        let mut pc = c.k.to_config();
        pc.niterations = kk;
        let t = match ctx.run("train", &d, || train(&pc, &data, &probe)) { Some(t) => t, None => return };
        ctx.count("compared_prefix", 1);
        if t.iters.len() != kk || t.iters[..] != base.iters[..kk] {
            ctx.violation("prefix", format!("the first {} iterations differ from a run of {} iterations [{}]", kk, kk, d));
            return;
        }
        // the model of the long run minus the trees after kk is the short model: a run of kk + 1
        // iterations starts its last iteration from exactly the short run's tracked predictions
        let mut pc1 = c.k.to_config();
        pc1.niterations = kk + 1;
        let t1 = match ctx.run("train", &d, || train(&pc1, &data, &probe)) { Some(t) => t, None => return };
        if t1.iters[..] != base.iters[..kk + 1] {
            ctx.violation("prefix", format!("the first {} iterations differ from a run of {} iterations [{}]", kk + 1, kk + 1, d));
            return;
        }
        if kk + 1 == full && t1 != base {
            ctx.violation("prefix", format!("equal runs differ: {} [{}]", differs(&base, &t1).unwrap(), d));
            return;
        }
    }
    let mut h = ctx.case_seed;
    for &v in base.pred.iter().chain(base.probe.iter()) { h = hash_u64(h, v as u64); }
    if base.probe.iter().any(|v| *v != base.probe[0]) { ctx.observe(h); } else { ctx.observe_trivial(); }
    ctx.sample(|| d.clone());
}

pub fn dispatch(ctx: &mut Ctx) { case(ctx) }

fn main() { run("C09", dispatch); }
