//! C24: memory use stays bounded. Live bytes are counted at every allocation and release; repeated
//! work must not add to them, and one tree must make do with memory for as many nodes as it is deep.
use bbmon::driver::{guarded, main as run, Ctx};
use bbmon::gen::*;
use bbmon::probe::*;
use bbmon::rng::{hash_u64, Rng};
use bbmon::session::*;
use bitboost::boost::Booster;
use bitboost::c_api::*;
use bitboost::config::Config;
use bitboost::data::Data;
use bitboost::dataset::Dataset;
use bitboost::metric::Metric;
use bitboost::objective::{objective_from_name, Objective};
use bitboost::tree::TreeLearnerContext;
use std::alloc::{GlobalAlloc, Layout, System};
use std::ffi::CString;
use std::sync::atomic::{AtomicIsize, AtomicU64, Ordering::Relaxed};

static LIVE: AtomicIsize = AtomicIsize::new(0);
static PEAK: AtomicIsize = AtomicIsize::new(0);
static EVENTS: AtomicU64 = AtomicU64::new(0);

fn add(n: isize) {
    let now = LIVE.fetch_add(n, Relaxed) + n;
    EVENTS.fetch_add(1, Relaxed);
    if n > 0 { PEAK.fetch_max(now, Relaxed); }
}

struct Count;
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { let p = System.alloc(l); if !p.is_null() { add(l.size() as isize); } p }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { let p = System.alloc_zeroed(l); if !p.is_null() { add(l.size() as isize); } p }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l); add(-(l.size() as isize)); }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() { add(n as isize - l.size() as isize); }
        q
    }
}
#[global_allocator]
static COUNT: Count = Count;

fn live() -> isize { LIVE.load(Relaxed) }
/// The highest level of live bytes while `f` ran, and the level before it.
fn peak_of<T>(f: impl FnOnce() -> T) -> (T, isize, isize) {
    let before = live();
    PEAK.store(before, Relaxed);
    let r = f();
    (r, PEAK.load(Relaxed) - before, before)
}

/// Allowance for what the thread pool and the standard library keep for themselves.
const SLACK: isize = 16 * 1024;

struct Job { table: Table, knobs: Knobs, config: Config }

fn gen_job(rng: &mut Rng, lo: usize, hi: usize, deep: bool) -> Option<Job> {
    let n = rng.range(lo, hi);
    let mut k = gen_knobs(rng, n);
    k.objective = *rng.pick(&["l2", "l1", "huber", "binary"]);
    k.max_nbins = k.max_nbins.min(64);
    if deep { k.max_tree_depth = rng.range(5, 10); k.min_examples_leaf = 1; k.min_gain = 1e-9; }
    let mut t = gen_session_table(rng, &k, n, true);
    if t.nfeat() > 20 { return None; }
    t.target = gen_table(rng, &TableOpts { n, nfeat: 1, locard: false, hicard: false, numeric: true, constants: false, max_nbins: 4, target: target_for(k.objective), tame: true }).target;
    if nuseful(&t) == 0 || t.target.iter().all(|&v| v == t.target[0]) { return None; }
    if (nuseful(&t) as f32 * k.feature_fraction).round() < 1.0 { k.feature_fraction = 1.0; }
    let mut config = k.to_config();
    config.categorical_features = t.cat_ids();
    Some(Job { table: t, knobs: k, config })
}

fn describe(j: &Job) -> String { format!("{} | {:?}", j.table.describe(), j.knobs) }

/// What a learner needs by its documented design: a histogram set and a mask for each node on the
/// stack, bit-sliced gradients and indices once per compression, a bit per example and bin.
fn needed(j: &Job, data: &Data) -> (isize, isize, isize) {
    let t = &j.table;
    let blk = |bits: usize| ((bits + 255) / 256 * 32) as isize;
    let d = j.knobs.max_tree_depth as isize;
    let nodes = 1isize << d.min(20);
    let hist: isize = (0..t.nfeat()).map(|f| data.max_nbins(f) as isize * 8 + 32).sum();
    let mask = blk(t.n);
    let w = 1 + j.knobs.discr_nbits as isize;
    let words = (t.n as isize + 31) / 32;
    // with compression: every level holds each example in at most one word
    let level = (0..=d).map(|l| ((1isize << l.min(20)) * words).min(t.n as isize) * 4 + 32 * (1isize << l.min(20)).min(t.n as isize / 8 + 1)).sum::<isize>();
    let compr = if j.knobs.compression_threshold >= 1.0 { 0 } else { w * level };
    let root = mask * w + blk(32 * ((t.n + 31) / 32));
    let bookkeeping = 64 * (d + 3) + 16 * nodes.min(4 * t.n as isize) * 4;
    (hist * (d + 3) + mask * (d + 3) + compr + root + bookkeeping + 24 * t.n as isize, hist, mask)
}

/// The same tree over and over on one context.
fn repeated_trees(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    let mut job = match gen_job(&mut rng, 200, 6000, true) { Some(j) => j, None => return };
    let sampled = rng.chance(0.3);
    if !sampled { job.config.example_fraction = 1.0; job.config.feature_fraction = 1.0; }
    let trees = rng.range(20, 50);
    let (grads, bounds, _) = gen_grads(&mut rng, &job.table, job.knobs.discr_nbits);
    let d = describe(&job);
    let start = live();
    let r = guarded(|| {
        let data = job.table.to_data(&job.config);
        let mut lctx = TreeLearnerContext::new(&job.config, &data);
        let mut dataset = Dataset::new(&job.config, &data);
        let (need, _, _) = needed(&job, &data);
        let mut synth = Synth::new(grads, bounds);
        let cap = job.table.n;
        synth.leaves.reserve(cap); synth.oob.reserve(cap); synth.targets_len.reserve(cap);
        let mut levels = Vec::with_capacity(trees);
        let mut worst = 0;
        let mut nodes = 0;
        for _ in 0..trees {
            dataset.update(&job.config, &synth.grads, bounds);
            synth.reset_log(); // before the measurement: the log is the harness's own memory
            let tree = train_tree(&mut lctx, &mut dataset, &mut synth);
            nodes = nodes.max(tree.nnodes());
            drop(tree);
            synth.reset_log();
            levels.push(live());
            worst = worst.max(levels[levels.len() - 1] - levels[0]);
        }
        (levels, worst, need, nodes)
    });
    let (levels, worst, need, nodes) = match r { Ok(x) => x, Err(_) => { ctx.count("cut_short", 1); return; } };
    ctx.count("trees", levels.len() as u64);
    let last = levels[levels.len() - 1];
    if !sampled {
        if last - levels[2] > SLACK {
            ctx.violation("trees-accumulate", format!("{} identical trees on one context: {} bytes alive after the third, {} after the last [{}]", levels.len(), levels[2], last, d));
            return;
        }
    } else if worst > 4 * need + SLACK {
        ctx.violation("trees-accumulate", format!("{} trees on one context: {} bytes alive after the first, {} more later; one tree needs {} [{}]", levels.len(), levels[0], worst, need, d));
        return;
    }
    if live() - start > SLACK { ctx.violation("kept-after-drop", format!("{} bytes kept after everything was dropped [{}]", live() - start, d)); return; }
    ctx.maximum("max_ratio_x100_repeated", (worst.max(0) * 100 / need.max(1)) as u64);
    ctx.maximum("max_nodes", nodes as u64);
    if nodes > 1 { ctx.observe(hash_u64(job.table.fingerprint(), ctx.case_seed)); } else { ctx.observe_trivial(); }
    ctx.sample(|| d);
}

/// One deep tree: memory for the depth, not for the number of nodes.
fn one_tree(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    let masks = rng.chance(0.5); // few bins and many examples: the masks dominate
    let mut job = match gen_job(&mut rng, 1000, if masks { 30_000 } else { 8000 }, true) { Some(j) => j, None => return };
    job.knobs.max_tree_depth = rng.range(7, 13);
    job.knobs.reg_lambda = 0.0;
    job.knobs.discr_nbits = *rng.pick(&[2usize, 4, 8]);
    job.knobs.example_fraction = 1.0;
    job.knobs.feature_fraction = 1.0;
    job.knobs.max_nbins = if masks { *rng.pick(&[4usize, 8, 12]) } else { *rng.pick(&[16usize, 32, 64]) };
    if masks {
        job.knobs.compression_threshold = 1.0;
        for f in 0..job.table.nfeat() { job.table.cat[f] = false; for v in job.table.cols[f].iter_mut() { *v = rng.f32(); } }
    }
    job.knobs.compression_threshold = *rng.pick(&[1.0f32, 1.0, 0.5, 0.9, 0.0]);
    let cats = job.table.cat_ids();
    job.config = job.knobs.to_config();
    job.config.categorical_features = cats;
    let (mut grads, bounds, _) = gen_grads(&mut rng, &job.table, job.knobs.discr_nbits);
    // nothing to learn: the tree grows as far as it may
    if rng.chance(0.8) { for g in grads.iter_mut() { *g = bounds.0 + (bounds.1 - bounds.0) * rng.f32(); } }
    let d = describe(&job);
    let r = guarded(|| {
        let data = job.table.to_data(&job.config);
        let (need, hist, mask) = needed(&job, &data);
        let mut lctx = TreeLearnerContext::new(&job.config, &data);
        let mut dataset = Dataset::new(&job.config, &data);
        let mut synth = Synth::new(grads, bounds);
        dataset.update(&job.config, &synth.grads, bounds);
        // the harness's own log, and the tree itself
        let n = job.table.n;
        synth.leaves.reserve(n); synth.oob.reserve(n); synth.targets_len.reserve(n);
        let (tree, peak, _) = peak_of(|| train_tree(&mut lctx, &mut dataset, &mut synth));
        let log: isize = synth.leaves.iter().map(|(_, e)| e.capacity() as isize * 8).sum();
        let (nodes, before) = (tree.nnodes(), live());
        drop(tree);
        let own = log + before - live();
        (peak - own, need, nodes, hist, mask)
    });
    let (peak, need, nodes, hist, mask) = match r { Ok(x) => x, Err(_) => { ctx.count("cut_short", 1); return; } };
    let perfect = nodes as isize / 2 * (hist + mask);
    ctx.maximum("max_ratio_x100_tree", (peak.max(0) * 100 / need.max(1)) as u64);
    ctx.maximum("max_nodes", nodes as u64);
    if std::env::var_os("BBMON_VERBOSE").is_some() { eprintln!("tree nodes {} peak {} need {} all-nodes {} thr {}", nodes, peak, need, perfect, job.knobs.compression_threshold); }
    if peak > 2 * need + SLACK {
        ctx.violation("tree-memory", format!("a tree of {} nodes took {} more bytes; {} are needed [{}]", nodes, peak, need, d));
        return;
    }
    if perfect > 4 * need + SLACK { ctx.count("trees_too_big_to_keep_all_nodes", 1); ctx.observe(hash_u64(job.table.fingerprint(), ctx.case_seed)); } else { ctx.observe_trivial(); }
}

/// Records the live bytes whenever the booster asks for new gradients.
struct Watch { inner: Box<dyn Objective>, levels: Vec<isize> }
impl Objective for Watch {
    fn name(&self) -> &'static str { self.inner.name() }
    fn gradients(&self) -> &[f32] { self.inner.gradients() }
    fn predictions(&self) -> &[f32] { self.inner.predictions() }
    fn bounds(&self) -> (f32, f32) { self.inner.bounds() }
    fn bias(&self) -> f32 { self.inner.bias() }
    fn initialize(&mut self, c: &Config, t: &[f32]) { self.inner.initialize(c, t) }
    fn update(&mut self, t: &[f32]) { self.inner.update(t); self.levels.push(live()); }
    fn predict_leaf_value(&mut self, t: &[f32], e: &[usize]) -> f32 { self.inner.predict_leaf_value(t, e) }
    fn update_out_of_bag_prediction(&mut self, i: usize, v: f32) { self.inner.update_out_of_bag_prediction(i, v) }
}

/// A boosting run: what it keeps is the model; predicting keeps nothing.
fn boosting(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    let mut job = match gen_job(&mut rng, 100, 4000, false) { Some(j) => j, None => return };
    job.config.niterations = rng.range(20, 60);
    let d = describe(&job);
    let start = live();
    let r = guarded(|| {
        let data = job.table.to_data(&job.config);
        let (need, _, _) = needed(&job, &data);
        let mut w = Watch { inner: objective_from_name(job.knobs.objective).unwrap(), levels: Vec::with_capacity(128) };
        let ms: Vec<Box<dyn Metric>> = Vec::new();
        let model = Booster::new(&job.config, &data, &mut w, &ms).train();
        let a = live();
        let p = model.predict(&data);
        let own = (p.capacity() * 4) as isize;
        drop(p);
        let b = live();
        for _ in 0..20 { let p = model.predict(&data); std::hint::black_box(&p); }
        let c = live();
        let before = live();
        drop(model);
        let size = before - live();
        (w.levels, need, size, a, b, c, own)
    });
    let (levels, need, size, a, b, c, _own) = match r { Ok(x) => x, Err(_) => { ctx.count("cut_short", 1); return; } };
    ctx.count("iterations", levels.len() as u64);
    let growth = levels[levels.len() - 1] - levels[1];
    ctx.maximum("max_ratio_x100_boost", ((growth - size).max(0) * 100 / need.max(1)) as u64);
    if growth > size + 4 * need + SLACK {
        ctx.violation("training-accumulates", format!("{} iterations added {} bytes, the model has {}, one tree needs {} [{}]", levels.len(), growth, size, need, d));
        return;
    }
    if b - a > SLACK || c - a > SLACK { ctx.violation("predicting-accumulates", format!("live bytes {} before, {} after one, {} after 21 predictions [{}]", a, b, c, d)); return; }
    if live() - start > SLACK { ctx.violation("kept-after-drop", format!("{} bytes kept after everything was dropped [{}]", live() - start, d)); return; }
    ctx.observe(hash_u64(job.table.fingerprint(), ctx.case_seed));
    ctx.sample(|| d);
}

/// A context of the C interface that is used again and again.
fn c_context(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    let small = rng.chance(0.25); // many more rounds on little data
    let job = match if small { gen_job(&mut rng, 5, 40, false) } else { gen_job(&mut rng, 100, 3000, false) } { Some(j) => j, None => return };
    let t = &job.table;
    let (train, set_once, misuse) = (rng.chance(if small { 0.1 } else { 0.8 }), rng.chance(0.3), !small && rng.chance(0.4));
    let reps = if small && !train { 1200 } else if small { 300 } else { rng.range(12, 30) };
    let (pause, keep_data) = (rng.range(1, 4), rng.chance(0.4));
    let d = format!("train={} keep_data={} set_once={} misuse={} reps={} {}", train, keep_data, set_once, misuse, reps, describe(&job));
    let mut out = vec![0f32; t.n];
    let mut levels = Vec::with_capacity(1300);
    let start = live();
    let ptr = bb_alloc(t.nfeat() as i32);
    let set = |k: &str, v: &str| { let (k, v) = (CString::new(k).unwrap(), CString::new(v).unwrap()); bb_set_config_field(ptr, k.as_ptr(), v.as_ptr()) };
    let mut failed = 0;
    let r = guarded(|| {
        for i in 0..reps {
            for a in job.knobs.args() { let mut it = a.splitn(2, '='); let k = it.next().unwrap(); set(k, it.next().unwrap()); }
            if misuse { set("nosuch", "1"); set("niterations", "x"); bb_refresh_data(ptr, -3); bb_set_feature_data(ptr, -1, t.target.as_ptr(), 0); bb_set_feature_data(ptr, 9999, t.target.as_ptr(), 0); if i == 0 { bb_predict(ptr, out.as_mut_ptr()); } }
            if i == 0 || !set_once {
                if i == 0 || !keep_data { failed += bb_refresh_data(ptr, t.n as i32).abs(); }
                if misuse { bb_train(ptr); bb_predict(ptr, out.as_mut_ptr()); bb_set_feature_data(ptr, 0, [f32::NAN].repeat(t.n).as_ptr(), 1); }
                for f in 0..t.nfeat() { failed += bb_set_feature_data(ptr, f as i32, t.cols[f].as_ptr(), t.cat[f] as i32).abs(); }
                failed += bb_set_feature_data(ptr, t.nfeat() as i32, t.target.as_ptr(), 0).abs();
            }
            if i == 0 || train { failed += bb_train(ptr).abs(); }
            for _ in 0..pause { failed += bb_predict(ptr, out.as_mut_ptr()).abs(); }
            levels.push(live());
        }
    });
    if r.is_err() || failed != 0 { bb_dealloc(ptr); ctx.count("cut_short", 1); return; }
    let last = levels[levels.len() - 1];
    bb_dealloc(ptr);
    ctx.count("context_rounds", reps as u64);
    if last - levels[2] > SLACK {
        ctx.violation("context-accumulates", format!("{} bytes alive after the third round, {} after the last [{}]", levels[2], last, d));
        return;
    }
    if live() - start > SLACK { ctx.violation("kept-after-dealloc", format!("{} bytes kept after bb_dealloc [{}]", live() - start, d)); return; }
    ctx.observe(hash_u64(t.fingerprint(), ctx.case_seed));
    ctx.sample(|| d);
}

/// Loading: what is kept is the table; failed loads keep nothing.
fn loading(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    let job = match gen_job(&mut rng, 50, 3000, false) { Some(j) => j, None => return };
    let t = &job.table;
    let broken = rng.chance(0.4);
    let mut s = t.to_csv(true, ',');
    if broken { s += *rng.pick(&["x,y\n", "1\n", ",,,,,,,,,,,,,,,,,,,,,,,,,,,,,,\n"]); }
    let d = describe(&job);
    let mut config = job.knobs.to_config();
    config.categorical_features = t.cat_ids();
    config.csv_has_header = true;
    let start = live();
    let reps = 12;
    let mut levels = Vec::with_capacity(reps);
    let mut kept = 0;
    let r = guarded(|| for _ in 0..reps {
        let before = live();
        let data = Data::from_csv(&config, &s);
        if data.is_ok() { kept = live() - before; }
        drop(data);
        levels.push(live());
    });
    if r.is_err() { ctx.count("cut_short", 1); return; }
    ctx.count("loads", reps as u64);
    if levels[reps - 1] - levels[1] > SLACK { ctx.violation("loading-accumulates", format!("broken={} {} loads: live bytes {:?} [{}]", broken, reps, levels, d)); return; }
    let table = ((t.nfeat() + 1) * t.n * 4 + (t.nfeat() + 1) * 256) as isize;
    ctx.maximum("max_ratio_x100_loading", (kept * 100 / table) as u64);
    if kept > 4 * table + SLACK { ctx.violation("loaded-size", format!("a table of {} bytes is held in {} [{}]", table, kept, d)); return; }
    drop(levels);
    if live() - start > SLACK { ctx.violation("kept-after-drop", format!("{} bytes [{}]", live() - start, d)); return; }
    ctx.observe(hash_u64(t.fingerprint(), ctx.case_seed));
}

pub fn dispatch(ctx: &mut Ctx) {
    // the thread pool and its buffers exist before anything is measured
    static WARM: std::sync::Once = std::sync::Once::new();
    WARM.call_once(|| { rayon::scope(|s| for _ in 0..200 { s.spawn(|_| { std::hint::black_box(vec![0u8; 64]); }) }); });
    let e0 = EVENTS.load(Relaxed);
    let mut seed = ctx.case_seed ^ 0x24;
    match bbmon::rng::splitmix(&mut seed) % 10 {
        0..=2 => repeated_trees(ctx),
        3 | 4 => one_tree(ctx),
        5 | 6 => boosting(ctx),
        7 | 8 => c_context(ctx),
        _ => loading(ctx),
    }
    ctx.count("allocations_and_releases_seen", EVENTS.load(Relaxed) - e0);
}

fn main() { run("C24", dispatch); }
