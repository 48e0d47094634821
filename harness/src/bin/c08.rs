//! C08: memory errors, undefined behaviour, data races. The workloads of the other monitors, watched
//! by the monitoring allocator of mon.rs here, and by compiler sanitizers and Miri when built with
//! `--cfg bbmon_plain` (special.py reads their reports). Functional verdicts are those monitors' own
//! affair: here only what the memory monitors observe counts.
#![allow(dead_code, unexpected_cfgs)]
use bbmon::driver::{guarded, main as run, Ctx};
use bbmon::gen::*;
use bbmon::mon;
use bbmon::probe::{IterLog, Recorder};
use bbmon::rng::{hash_u64, Rng};
use bbmon::session::*;
use bitboost::boost::Booster;
use bitboost::c_api::*;
use bitboost::config::Config;
use bitboost::data::Data;
use bitboost::metric::Metric;
use bitboost::objective::{objective_from_name, Objective};
use std::ffi::CString;
use std::sync::atomic::Ordering::Relaxed;

#[cfg(not(bbmon_plain))]
#[global_allocator]
static MONITOR: mon::Mon = mon::Mon;

#[path = "c01.rs"] mod c01;
#[path = "c02.rs"] mod c02;
#[path = "c03.rs"] mod c03;
#[path = "c04.rs"] mod c04;
#[path = "c05.rs"] mod c05;
#[path = "c06.rs"] mod c06;
#[path = "c07.rs"] mod c07;
#[path = "c09.rs"] mod c09;
#[path = "c10.rs"] mod c10;
#[path = "c11.rs"] mod c11;
#[path = "c12.rs"] mod c12;
#[path = "c14.rs"] mod c14;
#[path = "c15.rs"] mod c15;
#[path = "c16.rs"] mod c16;
#[path = "c17.rs"] mod c17;
#[path = "c18.rs"] mod c18;
#[path = "c20.rs"] mod c20;
#[path = "c21.rs"] mod c21;
#[path = "c22.rs"] mod c22;

const OTHERS: [(&str, fn(&mut Ctx)); 19] = [("c01", c01::dispatch), ("c02", c02::dispatch), ("c03", c03::dispatch), ("c04", c04::dispatch), ("c05", c05::dispatch),
    ("c06", c06::dispatch), ("c07", c07::dispatch), ("c09", c09::dispatch), ("c10", c10::dispatch), ("c11", c11::dispatch), ("c12", c12::dispatch), ("c14", c14::dispatch),
    ("c15", c15::dispatch), ("c16", c16::dispatch), ("c17", c17::dispatch), ("c18", c18::dispatch), ("c20", c20::dispatch), ("c21", c21::dispatch), ("c22", c22::dispatch)];

/// Another monitor's case; its functional verdict is dropped, its observations are kept.
fn other(ctx: &mut Ctx, which: usize) {
    let (name, f) = OTHERS[which];
    let index = ctx.case_index;
    let (nv, nh) = (ctx.violations.len(), ctx.harness_errors.len());
    let mut seed = ctx.case_seed;
    ctx.case_index = 1 + bbmon::rng::splitmix(&mut seed) % 100_000;
    let ok = guarded(|| f(ctx)).is_ok();
    ctx.case_index = index;
    ctx.violations.truncate(nv);
    ctx.harness_errors.truncate(nh);
    ctx.count(&format!("workload_{}", name), 1);
    if !ok { ctx.count("workloads_cut_short", 1); }
}

fn memory(ctx: &mut Ctx, what: &str) {
    for (kind, n, size) in mon::take_errors() { ctx.violation(kind, format!("{} times, last block of {} bytes, during {}", n, size, what)); }
}

struct Job { table: Table, knobs: Knobs, config: Config }

fn gen_job(rng: &mut Rng, n_max: usize) -> Option<Job> {
    let n = gen_n(rng, 4, n_max);
    let mut k = gen_knobs(rng, n);
    k.objective = *rng.pick(&["l2", "l1", "huber", "binary"]);
    let mut t = gen_session_table(rng, &k, n, true);
    t.target = gen_table(rng, &TableOpts { n, nfeat: 1, locard: false, hicard: false, numeric: true, constants: false, max_nbins: 4, target: target_for(k.objective), tame: true }).target;
    if nuseful(&t) == 0 || t.target.iter().all(|&v| v == t.target[0]) { return None; }
    if (nuseful(&t) as f32 * k.feature_fraction).round() < 1.0 { k.feature_fraction = 1.0; }
    let mut config = k.to_config();
    config.categorical_features = t.cat_ids();
    Some(Job { table: t, knobs: k, config })
}

fn bits(log: &[IterLog], preds: &[f32]) -> u64 {
    let mut h = 7u64;
    for it in log {
        for &g in it.grads.iter().chain(&it.preds_before) { h = hash_u64(h, g.to_bits() as u64); }
        h = hash_u64(h, (it.bounds.0.to_bits() as u64) << 32 | it.bounds.1.to_bits() as u64);
        for (v, ex) in &it.leaves { h = hash_u64(h, v.to_bits() as u64); for &e in ex { h = hash_u64(h, e as u64); } }
        for (i, v) in &it.oob { h = hash_u64(hash_u64(h, *i as u64), v.to_bits() as u64); }
    }
    for &p in preds { h = hash_u64(h, p.to_bits() as u64); }
    h
}

/// Everything from loading to prediction, through the library.
fn pipeline(job: &Job, csv: bool) -> u64 {
    let data = if csv { Data::from_csv(&job.config, &job.table.to_csv(true, ',')).expect("load") } else { job.table.to_data(&job.config) };
    let mut rec = Recorder::new(objective_from_name(job.knobs.objective).unwrap());
    let ms: Vec<Box<dyn Metric>> = Vec::new();
    let model = Booster::new(&job.config, &data, &mut rec, &ms).train();
    let mut p = model.predict(&data);
    p.extend_from_slice(rec.predictions());
    bits(&rec.iters, &p)
}

/// The same through the C interface, with buffers that end where the columns end.
fn c_pipeline(job: &Job, misuse: bool) -> u64 {
    let t = &job.table;
    let ptr = bb_alloc(t.nfeat() as i32);
    let set = |k: &str, v: &str| { let (k, v) = (CString::new(k).unwrap(), CString::new(v).unwrap()); bb_set_config_field(ptr, k.as_ptr(), v.as_ptr()) };
    for a in job.knobs.args() { let mut it = a.splitn(2, '='); let k = it.next().unwrap(); set(k, it.next().unwrap()); }
    if misuse { set("nosuch", "1"); set("niterations", "x"); bb_train(ptr); bb_predict(ptr, std::ptr::null_mut()); }
    bb_refresh_data(ptr, t.n as i32);
    if misuse { bb_refresh_data(ptr, -3); let c = t.target.clone(); bb_set_feature_data(ptr, t.nfeat() as i32 + 1, c.as_ptr(), 0); bb_set_feature_data(ptr, -1, c.as_ptr(), 0); }
    for f in 0..t.nfeat() { let c = t.cols[f].clone().into_boxed_slice(); bb_set_feature_data(ptr, f as i32, c.as_ptr(), t.cat[f] as i32); }
    let c = t.target.clone().into_boxed_slice();
    bb_set_feature_data(ptr, t.nfeat() as i32, c.as_ptr(), 0);
    drop(c);
    let mut h = bb_train(ptr) as u64;
    let mut out = vec![0f32; t.n].into_boxed_slice();
    h = hash_u64(h, bb_predict(ptr, out.as_mut_ptr()) as u64);
    for &p in out.iter() { h = hash_u64(h, p.to_bits() as u64); }
    // fewer examples than before, then gone
    let m = 1 + t.n / 3;
    bb_refresh_data(ptr, m as i32);
    for f in 0..t.nfeat() { let c = t.cols[f][..m].to_vec().into_boxed_slice(); bb_set_feature_data(ptr, f as i32, c.as_ptr(), t.cat[f] as i32); }
    let mut out = vec![0f32; m].into_boxed_slice();
    h = hash_u64(h, bb_predict(ptr, out.as_mut_ptr()) as u64);
    for &p in out.iter() { h = hash_u64(h, p.to_bits() as u64); }
    bb_dealloc(ptr);
    h
}

/// Results must not depend on what fresh memory contains.
fn patterns(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    let job = match gen_job(&mut rng, 1500) { Some(j) => j, None => return };
    let (capi, csv, mis) = (rng.chance(0.4), rng.chance(0.3), rng.chance(0.5));
    let d = format!("{} {:?}", job.table.describe(), job.knobs);
    let mut seen: Vec<(u8, u64)> = Vec::new();
    for pat in [0xA7u8, 0xA7, 0x00, 0xFF, 0x3F] {
        if cfg!(bbmon_plain) && seen.len() == 1 { break; }
        mon::PATTERN.store(pat, Relaxed);
        let r = guarded(|| if capi { c_pipeline(&job, mis) } else { pipeline(&job, csv) });
        mon::PATTERN.store(0xA7, Relaxed);
        match r { Ok(h) => seen.push((pat, h)), Err(_) => { ctx.count("workloads_cut_short", 1); return; } }
    }
    if cfg!(bbmon_plain) { ctx.observe(seen[0].1); return; }
    if seen[0].1 != seen[1].1 { ctx.count("not_repeatable", 1); return; } // not for memory reasons: C09's affair
    for (pat, h) in &seen[2..] {
        if *h != seen[0].1 { ctx.violation("uninitialised-memory-used", format!("results differ when fresh memory is filled with {:#x} instead of 0xa7 [{}]", pat, d)); return; }
    }
    ctx.count("pattern_comparisons", 3);
    ctx.observe(seen[0].1);
    ctx.sample(|| d);
}

/// Repetitions of one pipeline must not accumulate memory.
fn accumulation(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    let job = match gen_job(&mut rng, 200) { Some(j) => j, None => return };
    let (capi, csv, mis) = (rng.chance(0.6), rng.chance(0.3), rng.chance(0.5));
    let d = format!("{} {:?}", job.table.describe(), job.knobs);
    let once = || { guarded(|| if capi { c_pipeline(&job, mis) } else { pipeline(&job, csv) }).is_ok() };
    for _ in 0..3 { if !once() { ctx.count("workloads_cut_short", 1); return; } }
    if cfg!(bbmon_plain) { ctx.observe(ctx.case_seed); return; }
    const REPS: usize = 40;
    let before = (mon::LIVE_BLOCKS.load(Relaxed), mon::LIVE_BYTES.load(Relaxed));
    for _ in 0..REPS { once(); }
    let after = (mon::LIVE_BLOCKS.load(Relaxed), mon::LIVE_BYTES.load(Relaxed));
    if after.0 >= before.0 + REPS {
        ctx.violation("memory-not-released", format!("{} repetitions left {} more blocks, {} more bytes alive [capi={} csv={} misuse={} {}]", REPS, after.0 - before.0, after.1 as i64 - before.1 as i64, capi, csv, mis, d));
        return;
    }
    ctx.count("release_comparisons", 1);
    ctx.observe(ctx.case_seed);
}

/// Several threads train from one data set and predict with one model at the same time.
fn shared(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    let job = match gen_job(&mut rng, 600) { Some(j) => j, None => return };
    let d = format!("{} {:?}", job.table.describe(), job.knobs);
    let nthr = if tiny() { 2 } else { rng.range(2, 6) };
    let rounds = if tiny() { 1 } else { 4 };
    let pool = rayon::ThreadPoolBuilder::new().num_threads(if tiny() { 2 } else { 4 }).build().expect("HARNESS pool");
    let r = guarded(|| {
        let data = job.table.to_data(&job.config);
        let train = || {
            let mut o = objective_from_name(job.knobs.objective).unwrap();
            let ms: Vec<Box<dyn Metric>> = Vec::new();
            Booster::new(&job.config, &data, o.as_mut(), &ms).train()
        };
        let model = pool.install(train);
        let want = model.predict(&data);
        let (data, model, train, pool) = (&data, &model, &train, &pool);
        let same: Vec<bool> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..nthr).map(|j| s.spawn(move || guarded(|| {
                let mut ok = true;
                for _ in 0..rounds {
                    if j % 2 == 0 { ok &= model.predict(data).len() == data.nexamples(); }
                    else if j % 4 == 1 { ok &= train().predict(data).len() == data.nexamples(); }
                    else { ok &= pool.install(train).predict(data).len() == data.nexamples(); }
                }
                ok
            }).unwrap_or(false))).collect();
            hs.into_iter().map(|h| h.join().unwrap_or(false)).collect()
        });
        (want.len(), same.iter().all(|x| *x))
    });
    match r { Ok((_, true)) => {} _ => { ctx.count("workloads_cut_short", 1); return; } }
    ctx.count("shared_groups", 1);
    ctx.observe(hash_u64(ctx.case_seed, 5));
    ctx.sample(|| d);
}

fn case(ctx: &mut Ctx) {
    let mut seed = ctx.case_seed ^ 0x08;
    let k = bbmon::rng::splitmix(&mut seed) % 100;
    let only = std::env::var("BBMON_WORKLOADS").ok();
    let what = if let Some(o) = &only {
        let v: Vec<usize> = o.split(',').map(|w| OTHERS.iter().position(|x| x.0 == w).unwrap_or(if w == "shared" { OTHERS.len() + 1 } else { OTHERS.len() })).collect();
        v[ctx.case_index as usize % v.len()]
    } else if k < 60 { (bbmon::rng::splitmix(&mut seed) % OTHERS.len() as u64) as usize } else if k < 70 { OTHERS.len() + 1 } else { OTHERS.len() };
    let name;
    if what < OTHERS.len() { other(ctx, what); name = OTHERS[what].0; }
    else if what > OTHERS.len() { shared(ctx); name = "shared data and model"; }
    else if k % 10 == 9 { accumulation(ctx); name = "repeated pipeline"; }
    else { patterns(ctx); name = "pipeline"; }
    if ctx.case_index % 16 < 8 { mon::flush(); }
    memory(ctx, name);
    if !cfg!(bbmon_plain) { let r = mon::RELEASES.swap(0, Relaxed); ctx.count("releases_checked", r); }
}

fn main() { run("C08", case); }
