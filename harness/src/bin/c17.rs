//! C17: metrics against their definitions in f64, name selection, evaluation schedule.
use bbmon::driver::{main as run, Ctx};
use bbmon::gen::*;
use bbmon::probe::Recorder;
use bbmon::rng::{hash_bytes, hash_u64, Rng};
use bbmon::session::*;
use bitboost::boost::Booster;
use bitboost::metric::*;
use bitboost::objective::{objective_from_name, Objective};
use std::cell::RefCell;

const NAMES: [(&str, &str); 8] = [("l2", "l2"), ("rmse", "rmse"), ("binary_loss", "bl"), ("binaryloss", "bl"), ("binary_error", "be"), ("binaryerror", "be"),
    ("binary_error01", "be01"), ("binaryerror01", "be01")];

/// The definition, per example, in f64.
fn one(kind: &str, t: f64, p: f64) -> f64 {
    match kind {
        "l2" | "rmse" => (t - p) * (t - p),
        "bl" => { let y = 2.0 * t - 1.0; let x = -2.0 * y * p; x.max(0.0) + (-x.abs()).exp().ln_1p() }
        "be" => if (p >= 0.0) == (t >= 0.5) { 0.0 } else { 1.0 },
        "be01" => if (p >= 0.5) == (t >= 0.5) { 0.0 } else { 1.0 },
        _ => panic!("HARNESS kind"),
    }
}

fn case_mix(rng: &mut Rng, s: &str) -> String {
    s.chars().map(|c| if rng.chance(0.4) { c.to_ascii_uppercase() } else { c }).collect()
}

fn definition(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    let n = match rng.below(5) { _ if rng.below(3000) == 0 && !tiny() => rng.range(65_000, 200_000), 0 => 1, 1 => rng.range(1, 8), 2 => rng.range(1, 200), 3 => rng.range(1, 3000), _ => rng.range(1, 300) };
    let (name, kind) = *rng.pick(&NAMES);
    let spelled = case_mix(&mut rng, name);
    let m = match ctx.run("metric_from_name", &spelled, || metric_from_name(&spelled)) {
        Some(Some(m)) => m,
        Some(None) => { ctx.violation("known-name", format!("metric {:?} is not known", spelled)); return; }
        None => return,
    };
    let binary = kind.starts_with('b');
    let scale = if binary { *rng.pick(&[1.0f64, 3.0, 40.0, 90.0, 1e4]) } else { *rng.pick(&[1.0, 1e3, 1e6, 1e-4]) };
    let ts: Vec<f32> = (0..n).map(|_| if binary { rng.below(2) as f32 } else { (rng.normal() * scale) as f32 }).collect();
    let mode = rng.below(5);
    let ps: Vec<f32> = (0..n).map(|i| match mode {
        0 => ts[i],
        1 => *rng.pick(&[0.0f32, -0.0, 0.5, 0.49999997, 0.50000006, 1.0, -1.0, 1e-38, -1e-38, f32::MIN_POSITIVE]),
        2 => if binary { ((2.0 * ts[i] as f64 - 1.0) * scale * if rng.chance(0.8) { 1.0 } else { -1.0 }) as f32 } else { ts[i] + (rng.normal() * scale * 0.01) as f32 },
        3 => (rng.normal() * scale) as f32,
        _ => { let k = rng.below(4) as f64; (k * scale / 3.0 - scale / 2.0) as f32 }
    }).collect();
    let got = match ctx.run("eval", &spelled, || m.eval(&ts, &ps)) { Some(v) => v as f64, None => return };
    let sum: f64 = (0..n).map(|i| one(kind, ts[i] as f64, ps[i] as f64)).sum();
    // rounding of the f32 definition: of each term, and of a running sum of n terms
    let term_abs: f64 = (0..n).map(|i| {
        let (t, p) = (ts[i] as f64, ps[i] as f64);
        match kind { "l2" | "rmse" => { let e = (t - p).abs(); 2.0 * e * 6e-8 * e + 1e-37 } "bl" => 3e-7 * (1.0 + (2.0 * p).abs().min(20.0)).min(1.0 + one(kind, t, p)) * 0.5 + 3e-7 * one(kind, t, p), _ => 0.0 }
    }).sum();
    let rel = if kind == "be" || kind == "be01" { 2e-7 } else { 1.2e-7 * (n as f64 + 4.0) };
    let mut want = sum / n as f64;
    let mut tol = rel * want + term_abs / n as f64 + 1e-40;
    if kind == "rmse" { let lo = (want - tol).max(0.0).sqrt(); let hi = (want + tol).sqrt(); want = want.sqrt(); tol = (hi - want).max(want - lo) + 3e-7 * want; }
    let d = format!("{} n={} scale={} mode={}", spelled, n, scale, mode);
    if !got.is_finite() { ctx.violation("not-finite", format!("{} = {} instead of {} [{}]", name, got, want, d)); return; }
    if !((got - want).abs() <= tol) { ctx.violation("value", format!("{} = {} instead of {} (tolerance {:e}) [{}]", name, got, want, tol, d)); return; }
    ctx.count(&format!("evaluated_{}", kind), 1);
    let mut h = hash_bytes(name.as_bytes());
    for i in 0..n.min(64) { h = hash_u64(h, (ts[i].to_bits() as u64) << 32 | ps[i].to_bits() as u64); }
    ctx.observe(h);
    ctx.sample(|| format!("{} -> {}", d, got));
}

fn names(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    let k = rng.below(6);
    let unknown = ["l3", "", " l2", "binary", "rmse ", "mse", "binary-loss", "l2,rmse", "hinge", "nosuch"];
    let bad = rng.chance(0.4);
    let at = if k > 0 { rng.below(k) } else { 0 };
    let mut kinds = Vec::new();
    let list: Vec<String> = (0..k).map(|i| if bad && i == at { kinds.push("?"); rng.pick(&unknown).to_string() } else {
        let (n, kd) = *rng.pick(&NAMES); kinds.push(kd); case_mix(&mut rng, n)
    }).collect();
    let d = format!("{:?}", list);
    let r = match ctx.run("metrics_from_names", &d, || metrics_from_names(&list)) { Some(r) => r, None => return };
    let has_bad = bad && k > 0;
    match r {
        None => if !has_bad { ctx.violation("known-name", format!("{} was rejected", d)); return; },
        Some(ms) => {
            if has_bad { ctx.violation("unknown-name-accepted", d); return; }
            if ms.len() != k { ctx.violation("list-length", format!("{} metrics for {}", ms.len(), d)); return; }
            // told apart by their values
            let (ts, ps) = ([1.0f32, 0.0, 0.0, 1.0], [0.25f32, 0.75, 0.25, -1.5]);
            for (m, kd) in ms.iter().zip(&kinds) {
                let mut want = (0..4).map(|i| one(kd, ts[i] as f64, ps[i] as f64)).sum::<f64>() / 4.0;
                if *kd == "rmse" { want = want.sqrt(); }
                let got = m.eval(&ts, &ps) as f64;
                if !((got - want).abs() < 1e-5) { ctx.violation("wrong-metric", format!("{} in {}: value {} instead of {}", m.name(), d, got, want)); return; }
            }
        }
    }
    // objectives
    let table = [("l2", "L2"), ("l1", "L1"), ("huber", "Huber"), ("binary", "Binary"), ("hinge", "Hinge")];
    let (o, want) = *rng.pick(&table);
    let spelled = case_mix(&mut rng, o);
    match ctx.run("objective_from_name", &spelled, || objective_from_name(&spelled).map(|o| o.name())) {
        None => return,
        Some(None) => { ctx.violation("objective-name", format!("objective {:?} is not known", spelled)); return; }
        Some(Some(n)) => if n != want { ctx.violation("objective-name", format!("{:?} selects {}", spelled, n)); return; }
    }
    let u = *rng.pick(&unknown[..3]);
    if objective_from_name(u).map_or(false, |_| true) { ctx.violation("objective-unknown-accepted", format!("{:?}", u)); return; }
    // default metric of an objective
    let want = match o { "l2" | "l1" | "huber" => Some("Rmse"), "binary" => Some("BinaryLoss"), _ => None };
    let spelled = case_mix(&mut rng, o);
    let got = metric_for_objective(&spelled).map(|m| m.name());
    if let Some(w) = want { if got != Some(w) { ctx.violation("metric-for-objective", format!("{:?}: {:?} instead of {}", spelled, got, w)); return; } }
    ctx.count("name_lists", 1);
    ctx.observe(hash_bytes(d.as_bytes()));
}

/// Records every evaluation.
struct Probe<'a> { log: &'a RefCell<Vec<(usize, Vec<f32>, Vec<f32>)>>, id: usize }
impl<'a> Metric for Probe<'a> {
    fn name(&self) -> &'static str { "Probe" }
    fn eval(&self, t: &[f32], p: &[f32]) -> f32 { self.log.borrow_mut().push((self.id, t.to_vec(), p.to_vec())); 0.5 }
}

fn schedule(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    let n = if rng.below(1000) == 0 && !tiny() { rng.range(4000, 70_000) } else { rng.range(8, 300) };
    let mut k = gen_knobs(&mut rng, n);
    k.objective = *rng.pick(&["l2", "l1", "huber", "binary"]);
    k.niterations = rng.range(0, 12);
    if rng.below(50) == 0 && n < 300 && !tiny() { k.niterations = rng.range(50, 260); k.max_tree_depth = k.max_tree_depth.min(4); }
    let mut t = gen_session_table(&mut rng, &k, n, true);
    t.target = gen_table(&mut rng, &TableOpts { n, nfeat: 1, locard: false, hicard: false, numeric: true, constants: false, max_nbins: 4, target: target_for(k.objective), tame: true }).target;
    if nuseful(&t) == 0 || t.target.iter().all(|&v| v == t.target[0]) { return; }
    if (nuseful(&t) as f32 * k.feature_fraction).round() < 1.0 { k.feature_fraction = 1.0; }
    let mut config = k.to_config();
    config.metric_frequency = *rng.pick(&[1usize, 1, 2, 3, 5, 7, 10, 64, 100, 0]);
    let nm = rng.range(0, 3);
    let d = format!("{} frequency {} metrics {} {:?}", t.describe(), config.metric_frequency, nm, k);
    let log: RefCell<Vec<(usize, Vec<f32>, Vec<f32>)>> = RefCell::new(Vec::new());
    // the library keeps metrics as boxed trait objects without borrowed data: a static log
    let log_static: &'static RefCell<Vec<(usize, Vec<f32>, Vec<f32>)>> = unsafe { std::mem::transmute(&log) };
    let ms: Vec<Box<dyn Metric>> = (0..nm).map(|id| Box::new(Probe { log: log_static, id }) as Box<dyn Metric>).collect();
    let data = match ctx.run("load", &d, || t.to_data(&config)) { Some(x) => x, None => return };
    let mut rec = Recorder::new(objective_from_name(k.objective).unwrap());
    if ctx.run("boost", &d, || Booster::new(&config, &data, &mut rec, &ms).train()).is_none() { return; }
    drop(ms);
    let log = log.into_inner();
    let f = config.metric_frequency;
    let mut expected = Vec::new();
    for it in 1..=k.niterations {
        if f > 0 && it % f == 0 {
            let preds = if it < rec.iters.len() { rec.iters[it].preds_before.clone() } else { rec.predictions().to_vec() };
            for id in 0..nm { expected.push((id, it, preds.clone())); }
        }
    }
    if log.len() != expected.len() { ctx.violation("schedule", format!("{} evaluations instead of {} [{}]", log.len(), expected.len(), d)); return; }
    for (got, want) in log.iter().zip(&expected) {
        if got.0 != want.0 { ctx.violation("order", format!("metric {} evaluated in place of {} at iteration {} [{}]", got.0, want.0, want.1, d)); return; }
        if got.1 != t.target { ctx.violation("metric-targets", format!("iteration {}: other targets were passed [{}]", want.1, d)); return; }
        if got.2 != want.2 { ctx.violation("metric-predictions", format!("iteration {}: not the predictions after that iteration [{}]", want.1, d)); return; }
    }
    ctx.count("scheduled_evaluations", log.len() as u64);
    ctx.count("schedules", 1);
    if !log.is_empty() { ctx.observe(ctx.case_seed); } else { ctx.observe_trivial(); }
    ctx.sample(|| d);
}

pub fn dispatch(ctx: &mut Ctx) {
    match ctx.case_index % 10 { 0 | 1 => schedule(ctx), 2 | 3 => names(ctx), _ => definition(ctx) }
}

fn main() { run("C17", dispatch); }
