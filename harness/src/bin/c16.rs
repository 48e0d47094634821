//! C16: the C interface against the library, over random call sequences on several contexts.
use bbmon::driver::{guarded, main as run, Ctx};
use bbmon::gen::*;
use bbmon::rng::{hash_u64, Rng};
use bitboost::boost::Booster;
use bitboost::c_api::*;
use bitboost::config::Config;
use bitboost::data::Data;
use bitboost::metric::metrics_from_names;
use bitboost::objective::objective_from_name;
use bitboost::tree::AdditiveTree;
use libc::c_void;
use std::ffi::CString;

/// The same context kept with the library's own types.
struct Model {
    ptr: *mut c_void,
    nfeat: usize,
    knobs: Knobs,
    records: Vec<(String, String)>,
    data: Option<Cols>,
    model: Option<AdditiveTree>,
    cat: Vec<bool>,
    binary: bool,
    trained: u64,
}

/// Columns as they were set last; the placeholder zeros before that.
#[derive(Clone)]
struct Cols { n: usize, cols: Vec<Vec<f32>>, cat: Vec<bool>, broken: Vec<bool>, set: Vec<bool> }

impl Model {
    fn config(&self) -> Config {
        let mut c = Config::new();
        for (k, v) in &self.records { c.parse_record(k, v).expect("HARNESS record"); }
        c
    }
    fn lib_data(&self, config: &Config) -> Data {
        let d = self.data.as_ref().unwrap();
        let mut x = Data::empty(config, self.nfeat, d.n);
        for f in 0..=self.nfeat { if d.set[f] { x.set_feature_data(f, &d.cols[f], d.cat[f]).expect("HARNESS column"); } }
        x
    }
    fn trainable(&self) -> bool {
        let d = match &self.data { Some(d) => d, None => return false };
        if d.broken.iter().any(|&b| b) { return false; }
        let useful = (0..self.nfeat).filter(|&f| bbmon::gen::is_useful(&d.cols[f])).count();
        if useful == 0 || (useful as f32 * self.knobs.feature_fraction).round() < 1.0 { return false; }
        if ((d.n as f32) * self.knobs.example_fraction).round() < 1.0 { return false; }
        let t = &d.cols[self.nfeat];
        if t.iter().all(|&v| v == t[0]) { return false; }
        if self.binary && t.iter().any(|&v| v != 0.0 && v != 1.0) { return false; }
        true
    }
    /// Prediction categories have to be integers and columns of the model's kind.
    fn predictable(&self) -> bool { self.model.is_some() && self.data.as_ref().map_or(false, |d| !d.broken.iter().any(|&b| b)) }
}

fn set(ptr: *mut c_void, k: &str, v: &str) -> i32 {
    let (k, v) = (CString::new(k).unwrap(), CString::new(v).unwrap());
    bb_set_config_field(ptr, k.as_ptr(), v.as_ptr())
}

fn alloc(ctx: &mut Ctx, rng: &mut Rng) -> Option<Model> {
    let mut nfeat = rng.range(1, 5);
    if rng.below(8) == 0 && !tiny() { nfeat = rng.range(6, 40); }
    let ptr = bb_alloc(nfeat as i32);
    if ptr.is_null() { ctx.violation("alloc", format!("bb_alloc({}) returned NULL", nfeat)); return None; }
    let mut knobs = gen_knobs(rng, 200);
    knobs.niterations = rng.range(1, 4);
    if rng.below(80) == 0 && !tiny() { knobs.niterations = rng.range(20, 110); knobs.max_tree_depth = knobs.max_tree_depth.min(4); }
    knobs.objective = *rng.pick(&["l2", "l1", "huber", "binary", "l2"]);
    let mut m = Model { ptr, nfeat, binary: knobs.objective == "binary", knobs, records: vec![], data: None, model: None,
                        cat: (0..nfeat).map(|_| rng.chance(0.5)).collect(), trained: 0 };
    for a in m.knobs.args() {
        let mut it = a.splitn(2, '=');
        let (k, v) = (it.next().unwrap(), it.next().unwrap());
        let r = set(ptr, k, v);
        if r != 0 { ctx.violation("set-config", format!("{}={} returned {}", k, v, r)); return Some(m); }
        m.records.push((k.to_string(), v.to_string()));
    }
    Some(m)
}

fn column(rng: &mut Rng, m: &Model, f: usize, n: usize) -> (Vec<f32>, bool) {
    if f == m.nfeat {
        let t: Vec<f32> = (0..n).map(|_| if m.binary { rng.below(2) as f32 } else { (rng.normal() * 3.0) as f32 }).collect();
        return (t, false);
    }
    if m.cat[f] {
        let k = *rng.pick(&[2usize, 3, m.knobs.max_nbins, m.knobs.max_nbins * 3 + 5]);
        ((0..n).map(|_| rng.below(k) as f32).collect(), true)
    } else {
        let k = rng.below(3);
        ((0..n).map(|i| match k { 0 => rng.f32(), 1 => rng.below(7) as f32 - 2.0, _ => i as f32 }).collect(), false)
    }
}

fn case(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    if bb_get_numt_nbytes() != std::mem::size_of::<bitboost::NumT>() as i32 { ctx.violation("numt-size", format!("{}", bb_get_numt_nbytes())); return; }
    for bad in [0, -1, -7, i32::MIN] { if !bb_alloc(bad).is_null() { ctx.violation("alloc-accepted", format!("bb_alloc({}) is not NULL", bad)); return; } }
    let mut ms: Vec<Model> = Vec::new();
    let steps = if tiny() { rng.range(6, 16) } else { rng.range(20, 70) };
    let mut log: Vec<String> = Vec::new();
    let mut h = ctx.case_seed;
    let mut trained_any = false;
    let mut errors = 0u64;
    macro_rules! bad { ($sig:expr, $($m:tt)*) => {{ let m = format!($($m)*); ctx.violation($sig, format!("{} [calls: {}]", m, log.iter().rev().take(12).cloned().collect::<Vec<_>>().join(" <- "))); for m in &ms { bb_dealloc(m.ptr); } return; }} }
    macro_rules! expect { ($call:expr, $want:expr, $sig:expr, $what:expr) => {{
        let what: String = $what;
        log.push(what.clone());
        let r = $call;
        ctx.count(if $want == 0 { "calls_ok" } else { "calls_misused" }, 1);
        if $want != 0 { errors += 1; }
        if r != $want { bad!($sig, "{} returned {} instead of {}", what, r, $want); }
    }} }
    for _ in 0..steps {
        if ms.is_empty() || (ms.len() < 3 && rng.chance(0.1)) {
            match alloc(ctx, &mut rng) { Some(m) => { log.push(format!("alloc {}", m.nfeat)); ms.push(m) } None => return }
            if !ctx.violations.is_empty() { return; }
            continue;
        }
        let i = rng.below(ms.len());
        match rng.below(20) {
            0 => { // new data
                let n = if rng.below(3000) == 0 && !tiny() { rng.range(4000, 70_000) } else if rng.chance(0.4) && ms[i].data.is_some() { ms[i].data.as_ref().unwrap().n } else if tiny() { *rng.pick(&[1usize, 32, 33]) } else { *rng.pick(&[1usize, 7, 32, 63, 100, 255, 256, 300]) };
                let m = &mut ms[i];
                expect!(bb_refresh_data(m.ptr, n as i32), 0, "refresh", format!("#{} refresh {}", i, n));
                m.data = Some(Cols { n, cols: vec![vec![0.0; n]; m.nfeat + 1], cat: vec![false; m.nfeat + 1], broken: vec![false; m.nfeat + 1], set: vec![false; m.nfeat + 1] });
                if n >= 32 { // a full set of columns, in random order
                    let mut order: Vec<usize> = (0..=m.nfeat).collect();
                    rng.shuffle(&mut order);
                    if rng.chance(0.3) { let k = rng.below(order.len() + 1); order.truncate(k); } // the rest stays as a refresh leaves it
                    for f in order {
                        let (col, cat) = column(&mut rng, m, f, n);
                        expect!(bb_set_feature_data(m.ptr, f as i32, col.as_ptr(), cat as i32), 0, "set-feature", format!("#{} column {} cat {}", i, f, cat));
                        let d = m.data.as_mut().unwrap();
                        d.cols[f] = col; d.cat[f] = cat; d.set[f] = true;
                    }
                }
            }
            1 | 2 | 3 => { // one column
                let m = &mut ms[i];
                let f = rng.below(m.nfeat + 1);
                let n = match &m.data { Some(d) => d.n, None => {
                    let c = [0.0f32; 4];
                    expect!(bb_set_feature_data(m.ptr, f as i32, c.as_ptr(), 0), -1, "set-feature-without-data", format!("#{} column {} without data", i, f));
                    continue;
                } };
                let (col, cat) = column(&mut rng, m, f, n);
                let flag = if cat { *rng.pick(&[1i32, 1, 2, -1]) } else { 0 };
                expect!(bb_set_feature_data(m.ptr, f as i32, col.as_ptr(), flag), 0, "set-feature", format!("#{} column {} cat {}", i, f, flag));
                let d = m.data.as_mut().unwrap();
                d.cols[f] = col; d.cat[f] = cat; d.set[f] = true; d.broken[f] = false;
            }
            4 => { // invalid category
                let m = &mut ms[i];
                if let Some(d) = m.data.as_mut() {
                    let f = rng.below(m.nfeat + 1);
                    let mut c = d.cols[f].clone();
                    let at = rng.below(d.n);
                    for v in c.iter_mut() { *v = v.abs().floor(); }
                    c[at] = *rng.pick(&[-1.0f32, 0.25, f32::NAN, -0.5, f32::INFINITY]);
                    expect!(bb_set_feature_data(m.ptr, f as i32, c.as_ptr(), 1), -1, "invalid-category-accepted", format!("#{} column {} invalid category {}", i, f, c[at]));
                    d.broken[f] = true;
                }
            }
            5 => { // bad column number
                let m = &ms[i];
                let f = *rng.pick(&[-1i32, m.nfeat as i32 + 1, i32::MAX, i32::MIN, m.nfeat as i32 + 100]);
                let c = vec![0.0f32; m.data.as_ref().map_or(1, |d| d.n)];
                expect!(bb_set_feature_data(m.ptr, f, c.as_ptr(), 0), -1, "bad-column-accepted", format!("#{} column {}", i, f));
            }
            6 => { // configuration
                let m = &mut ms[i];
                let (k, v) = rng.pick(&[("learning_rate", "0.25"), ("reg_lambda", "2"), ("max_tree_depth", "3"), ("discr_nbits", "8"), ("min_examples_leaf", "4"), ("metrics", "l2,rmse"), ("metric_frequency", "2"), ("random_seed", "99")]).clone();
                if m.data.is_some() { expect!(set(m.ptr, k, v), -1, "late-config-accepted", format!("#{} {}={} after data", i, k, v)); }
                else {
                    expect!(set(m.ptr, k, v), 0, "set-config", format!("#{} {}={}", i, k, v));
                    m.records.push((k.to_string(), v.to_string()));
                }
            }
            7 => {
                let m = &ms[i];
                let (k, v) = rng.pick(&[("nosuchfield", "1"), ("", ""), ("niterations", "many"), ("learning_rate", ""), ("csv_delimiter", "300"), ("Objective", "l2"), ("categorical_features", "1,x")]).clone();
                expect!(set(m.ptr, k, v), -1, "bad-config-accepted", format!("#{} {}={}", i, k, v));
                let nonutf = CString::new(vec![0xffu8, 0xfe]).unwrap();
                let name = CString::new("objective").unwrap();
                expect!(bb_set_config_field(m.ptr, name.as_ptr(), nonutf.as_ptr()), -1, "non-utf8-accepted", format!("#{} non-utf8 value", i));
                expect!(bb_set_config_field(m.ptr, nonutf.as_ptr(), name.as_ptr()), -1, "non-utf8-accepted", format!("#{} non-utf8 name", i));
            }
            8 => {
                let m = &ms[i];
                let n = *rng.pick(&[0i32, -1, i32::MIN]);
                expect!(bb_refresh_data(m.ptr, n), -1, "bad-refresh-accepted", format!("#{} refresh {}", i, n));
            }
            9 | 10 | 11 | 12 => { // train
                let m = &mut ms[i];
                if m.data.is_none() { expect!(bb_train(m.ptr), -1, "train-without-data", format!("#{} train without data", i)); continue; }
                if !m.trainable() { continue; }
                expect!(bb_train(m.ptr), 0, "train", format!("#{} train {:?}", i, m.records));
                let c = m.config();
                let metrics = metrics_from_names(&c.metrics).expect("HARNESS metrics");
                let r = guarded(|| {
                    let data = m.lib_data(&c);
                    let mut o = objective_from_name(&c.objective).expect("HARNESS objective");
                    Booster::new(&c, &data, o.as_mut(), &metrics).train()
                });
                match r { Ok(t) => m.model = Some(t), Err(p) => bad!("library-panicked-interface-not", "{:?}", p) }
                m.trained += 1;
                trained_any = true;
                ctx.count("trainings", 1);
                ctx.maximum("trainings_of_a_context", m.trained);
            }
            13 | 14 | 15 | 16 => { // predict
                let m = &ms[i];
                let n = m.data.as_ref().map_or(4, |d| d.n);
                let mut out = vec![f32::NAN; n + 2];
                out[n] = 12345.0; out[n + 1] = -9.0;
                if m.data.is_none() || m.model.is_none() {
                    expect!(bb_predict(m.ptr, out.as_mut_ptr()), -1, "predict-misuse", format!("#{} predict without {}", i, if m.data.is_none() { "data" } else { "model" }));
                    continue;
                }
                if !m.predictable() { continue; }
                expect!(bb_predict(m.ptr, out.as_mut_ptr()), 0, "predict", format!("#{} predict", i));
                let c = m.config();
                let want = m.model.as_ref().unwrap().predict(&m.lib_data(&c));
                if out[n] != 12345.0 || out[n + 1] != -9.0 { bad!("overrun", "#{} predict wrote beyond the {} examples", i, n); }
                for j in 0..n {
                    if out[j].to_bits() != want[j].to_bits() { bad!("prediction", "#{} example {}: the interface predicts {}, the library {}", i, j, out[j], want[j]); }
                }
                for &v in &want { h = hash_u64(h, v.to_bits() as u64); }
                ctx.count("predictions_compared", n as u64);
            }
            17 if rng.chance(0.4) && ms[i].model.is_some() && ms[i].trainable() => { // a training that fails on a context with a model
                let m = &mut ms[i];
                let f = rng.below(m.nfeat);
                let mut col = m.data.as_ref().unwrap().cols[f].clone();
                let at = rng.below(col.len());
                col[at] = *rng.pick(&[f32::INFINITY, f32::NEG_INFINITY]);
                expect!(bb_set_feature_data(m.ptr, f as i32, col.as_ptr(), 0), 0, "set-feature", format!("#{} column {} with an infinite value", i, f));
                m.data.as_mut().unwrap().broken[f] = true;
                log.push(format!("#{} train on an infinite value", i));
                let r = bb_train(m.ptr);
                if r == 0 { m.model = None; break; } // whether it fails is not specified; if it does, the model stays
                ctx.count("failed_retrainings", 1);
            }
            17 => { // a training that fails: unknown objective or metric, in a context of its own
                let p = bb_alloc(1);
                if p.is_null() { bad!("alloc", "NULL"); }
                let (k, v) = rng.pick(&[("objective", "nosuch"), ("metrics", "l2,nosuch"), ("objective", ""), ("discr_nbits", "3")]).clone();
                let r = [set(p, k, v), bb_refresh_data(p, 8)];
                let c: Vec<f32> = (0..8).map(|j| j as f32).collect();
                let r2 = [bb_set_feature_data(p, 0, c.as_ptr(), 0), bb_set_feature_data(p, 1, c.as_ptr(), 0)];
                if r != [0, 0] || r2 != [0, 0] { bad!("setup", "{:?} {:?}", r, r2); }
                expect!(bb_train(p), -1, "bad-training-accepted", format!("train with {}={}", k, v));
                let mut out = [0.0f32; 8];
                expect!(bb_predict(p, out.as_mut_ptr()), -1, "predict-misuse", "predict after failed training".to_string());
                expect!(bb_dealloc(p), 0, "dealloc", "dealloc".to_string());
            }
            18 => { // null contexts
                let null = std::ptr::null_mut();
                let c = [0.0f32; 4];
                let mut out = [0.0f32; 4];
                expect!(bb_train(null), -1, "null-accepted", "train(NULL)".to_string());
                expect!(bb_predict(null, out.as_mut_ptr()), -1, "null-accepted", "predict(NULL)".to_string());
                expect!(bb_refresh_data(null, 4), -1, "null-accepted", "refresh(NULL)".to_string());
                expect!(bb_set_feature_data(null, 0, c.as_ptr(), 0), -1, "null-accepted", "set_feature(NULL)".to_string());
                expect!(set(null, "niterations", "3"), -1, "null-accepted", "set_config(NULL)".to_string());
                expect!(bb_dealloc(null), -1, "null-accepted", "dealloc(NULL)".to_string());
            }
            _ => {
                if ms.len() > 1 || rng.chance(0.1) {
                    let m = ms.swap_remove(i);
                    let r = bb_dealloc(m.ptr);
                    log.push(format!("dealloc #{}", i));
                    if r != 0 { bad!("dealloc", "dealloc returned {}", r); }
                }
            }
        }
        ctx.maximum("contexts_alive", ms.len() as u64);
    }
    for m in &ms { if bb_dealloc(m.ptr) != 0 { ctx.violation("dealloc", "dealloc failed".to_string()); return; } }
    if trained_any { ctx.observe(h); } else { ctx.observe_trivial(); }
    ctx.maximum("misuses_in_a_case", errors);
    ctx.sample(|| log.iter().take(14).cloned().collect::<Vec<_>>().join("; "));
}

pub fn dispatch(ctx: &mut Ctx) { case(ctx) }

fn main() { run("C16", dispatch); }
