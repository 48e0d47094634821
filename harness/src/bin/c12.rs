//! C12: objectives compute the documented prior, gradients, bounds and leaf values.
use bbmon::driver::{guarded, main as run, Ctx};
use bbmon::gen::*;
use bbmon::rng::{hash_u64, Rng};
use bitboost::objective::objective_from_name;

const EPS: f64 = f32::EPSILON as f64;
const QBINS: f64 = 1024.0;

fn gen_targets(rng: &mut Rng, objective: &str, n: usize) -> Vec<f32> {
    if target_for(objective) == Target::Binary {
        let p = *rng.pick(&[0.5, 0.1, 0.9, 0.02]);
        let mut t: Vec<f32> = (0..n).map(|_| rng.chance(p) as u32 as f32).collect();
        if objective == "binary" && rng.chance(0.08) { let v = rng.below(2) as f32; return vec![v; n]; }
        if n >= 2 { let i = rng.below(n); t[i] = 1.0; t[(i + 1) % n] = 0.0; }
        return t;
    }
    let off = *rng.pick(&[0.0f64, 0.0, 10.0, -300.0, -4.0e6, 2.0e5]);
    let sc = *rng.pick(&[1.0f64, 1.0, 0.01, 50.0, 1.0e6]);
    let kind = rng.below(6);
    (0..n).map(|_| {
        let v = match kind {
            0 => rng.f64(), 1 => rng.normal(), 2 => rng.below(5) as f64, 3 => rng.normal().powi(3),
            4 => if rng.chance(0.95) { rng.normal() * 0.1 } else { rng.normal() * 20.0 },
            _ => -rng.normal().abs() * 2.0, // residuals of one sign
        };
        (v * sc + off) as f32
    }).collect()
}

/// Quantile estimates: between the exact order statistics around rank floor(count*q), give or take a bin.
fn quantile_ok(got: f64, mut vals: Vec<f64>, q: f64, limits: (f64, f64)) -> Result<(), String> {
    vals.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let n = vals.len();
    let e = 3.0e-7 * n as f64; // count*q is an f32 product
    let r = ((n as f64 * q + e).floor() as usize).min(n - 1);
    let r0 = (n as f64 * q - 1.0 - e).ceil().max(0.0) as usize;
    let (a, b) = (vals[r0.min(r)], vals[r]);
    let bw = (limits.1 - limits.0) / QBINS * 1.02 + 1e-6 * (limits.0.abs() + limits.1.abs());
    if got >= a - bw && got <= b + bw { Ok(()) } else { Err(format!("{} is not within a bin ({}) of the exact quantile {}..{}", got, bw, a, b)) }
}

fn case(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    let objective = OBJECTIVES[(ctx.case_index % 5) as usize];
    let mut obj = objective_from_name(objective).unwrap();
    let runs = if rng.chance(0.2) { 2 } else { 1 }; // also reuse of one objective on other data
    for run_no in 0..runs {
        let n = if rng.below(2000) == 0 && !tiny() { rng.range(65_537, 140_000) } else { gen_n(&mut rng, if objective == "binary" || objective == "hinge" { 2 } else { 1 }, 1200) };
        let mut k = gen_knobs(&mut rng, n);
        k.objective = objective;
        if objective == "hinge" { k.discr_nbits = 2; }
        let iters = rng.range(1, if tiny() { 2 } else if objective == "hinge" { 4 } else { 7 });
        let t = gen_targets(&mut rng, objective, n);
        let tf: Vec<f64> = t.iter().map(|&x| x as f64).collect();
        if objective != "hinge" && rng.below(20) == 0 { k.learning_rate = *rng.pick(&[1.5f32, 2.0, 0.003]); }
        let config = k.to_config();
        let lr = k.learning_rate as f64;
        let d = format!("{} n={} lr={} iterations={} run {}", objective, n, lr, iters, run_no);
        if ctx.run("initialize", &d, || obj.initialize(&config, &t)).is_none() { return; }
        let tmax = tf.iter().fold(0.0f64, |a, &x| a.max(x.abs()));
        let (tlo, thi) = (tf.iter().cloned().fold(f64::INFINITY, f64::min), tf.iter().cloned().fold(f64::NEG_INFINITY, f64::max));
        let sum_tol = |m: f64, scale: f64| (m * 1.2e-7 + 1e-6) * scale;
        let bias = obj.bias() as f64;
        // prior
        let npos = tf.iter().filter(|&&x| x > 0.5).count() as f64;
        let nneg = n as f64 - npos;
        let bad = match objective {
            "l2" => { let m = tf.iter().sum::<f64>() / n as f64; if (bias - m).abs() > sum_tol(n as f64, tmax) { Some(format!("mean {}", m)) } else { None } }
            "l1" | "huber" => quantile_ok(bias, tf.clone(), 0.5, (tlo, thi)).err(),
            // one class only: the log-odds are infinite, the prediction has to be confident and finite
            "binary" if npos == 0.0 || nneg == 0.0 => if bias.is_finite() && bias.abs() > 3.0 && (bias > 0.0) == (npos > 0.0) { None } else { Some("single class".to_string()) },
            "binary" => { let w = 0.5 * (npos / nneg).ln(); if (bias - w).abs() > 1e-4 * (1.0 + w.abs()) { Some(format!("log-odds {}", w)) } else { None } }
            _ => { let w = (npos - nneg) / n as f64; if (bias - w).abs() > 1e-5 { Some(format!("{}", w)) } else { None } }
        };
        if let Some(b) = bad { ctx.violation(&format!("{}:prior", objective), format!("initial prediction {}: {} [{}]", bias, b, d)); return; }
        if obj.predictions().len() != n || obj.predictions().iter().any(|&p| p as f64 != bias) { ctx.violation(&format!("{}:initial-predictions", objective), format!("not all equal to the bias [{}]", d)); return; }
        let mut nontrivial = false;
        for it in 0..iters {
            let before = obj.predictions().to_vec();
            if ctx.run("update", &d, || obj.update(&t)).is_none() { return; }
            let d = format!("iteration {} of {}", it, d);
            if obj.predictions() != &before[..] { ctx.violation(&format!("{}:update-changes-predictions", objective), d); return; }
            let p: Vec<f64> = before.iter().map(|&x| x as f64).collect();
            let g: Vec<f64> = obj.gradients().iter().map(|&x| x as f64).collect();
            let (blo, bhi) = (obj.bounds().0 as f64, obj.bounds().1 as f64);
            let res: Vec<f64> = (0..n).map(|i| (t[i] - before[i]) as f64).collect();
            let (rlo, rhi) = (res.iter().cloned().fold(f64::INFINITY, f64::min), res.iter().cloned().fold(f64::NEG_INFINITY, f64::max));
            let rmax = rlo.abs().max(rhi.abs());
            // bounds
            let bad = match objective {
                "l2" => { let w = rlo.abs().min(rhi.abs()); (bhi - w).abs() > 1e-6 * w || (blo + w).abs() > 1e-6 * w }
                "l1" => (blo, bhi) != (-1.0, 1.0),
                "huber" => blo != -bhi || bhi < 0.0,
                "binary" => blo != -k.binary_gradient_bound as f64 || bhi != k.binary_gradient_bound as f64,
                _ => (blo, bhi) != (-1.0, 2.0),
            };
            if bad { ctx.violation(&format!("{}:bounds", objective), format!("({}, {}), residuals {}..{} [{}]", blo, bhi, rlo, rhi, d)); return; }
            if objective == "huber" {
                let q = k.huber_alpha as f64;
                let a = quantile_ok(bhi, res.clone(), q, (rlo, rhi));
                let b = quantile_ok(-bhi, res.clone(), q, (rlo, rhi));
                if let (Err(e), Err(_)) = (a, b) { ctx.violation("huber:delta", format!("{} [{}]", e, d)); return; }
            }
            // gradients
            for i in 0..n {
                let pos = tf[i] > 0.5;
                let y = if pos { 1.0 } else { -1.0 };
                let (want, tol) = match objective {
                    "l2" => (-res[i], 1e-6 * res[i].abs()),
                    "l1" => if res[i] == 0.0 { (g[i].max(-1.0).min(1.0), 0.0) } else { (-res[i].signum(), 0.0) },
                    "huber" => (-res[i].max(-bhi).min(bhi), 1e-6 * bhi),
                    "binary" => (-2.0 * y / (1.0 + (2.0 * y * p[i]).exp()), 1e-5 * (2.0 / (1.0 + (2.0 * y * p[i]).exp())) + 1e-30),
                    _ => (if pos { if p[i] < 1.0 { -1.0 } else { 0.0 } } else if p[i] > -1.0 { 1.0 } else { 0.0 }, 0.0),
                };
                if !((g[i] - want).abs() <= tol) { ctx.violation(&format!("{}:gradient", objective), format!("target {} prediction {}: gradient {} instead of {} [{}]", t[i], p[i], g[i], want, d)); return; }
            }
            ctx.count("gradients", n as u64);
            // leaves: a random partition, some examples out of bag
            let nl = if rng.chance(0.2) { n } else { rng.range(1, n.min(12)) };
            let oobp = if rng.chance(0.4) { 0.3 } else { 0.0 };
            let mut leaf: Vec<Vec<usize>> = vec![Vec::new(); nl];
            let mut oob = Vec::new();
            for i in 0..n { if rng.chance(oobp) { oob.push(i); } else { let l = rng.below(nl); leaf[l].push(i); } }
            if rng.chance(0.3) { for l in leaf.iter_mut() { rng.shuffle(l); } }
            let mut want_p = before.clone();
            for ex in leaf.iter().filter(|l| !l.is_empty()) {
                let v = match ctx.run("predict_leaf_value", &d, || obj.predict_leaf_value(&t, ex)) { Some(v) => v, None => return };
                let m = ex.len() as f64;
                let raw = v as f64 / lr;
                let scale: f64 = ex.iter().map(|&i| res[i].abs()).sum::<f64>() / m;
                let bad = match objective {
                    "l2" => { let w = ex.iter().map(|&i| res[i]).sum::<f64>() / m; if (raw - w).abs() > sum_tol(m, scale) { Some(format!("mean residual {}", w)) } else { None } }
                    "l1" => quantile_ok(raw, ex.iter().map(|&i| res[i]).collect(), 0.5, (rlo, rhi)).err(),
                    "huber" => {
                        // median plus the mean clipped deviation, with the median known up to a bin
                        let mut r: Vec<f64> = ex.iter().map(|&i| res[i]).collect();
                        r.sort_by(|a, b| a.partial_cmp(b).unwrap());
                        let bw = (rhi - rlo) / QBINS * 1.02 + 1e-6 * (rlo.abs() + rhi.abs());
                        // med + mean(clip(r - med)) is non-decreasing in med
                        let f = |med: f64| med + r.iter().map(|x| (x - med).max(-bhi).min(bhi)).sum::<f64>() / m;
                        let (lo, hi) = (f(r[(r.len() - 1) / 2] - bw), f(r[r.len() / 2] + bw));
                        let tol = sum_tol(m, rmax);
                        if raw < lo - tol || raw > hi + tol { Some(format!("{}..{}", lo, hi)) } else { None }
                    }
                    "binary" => {
                        let num: f64 = ex.iter().map(|&i| -g[i]).sum();
                        let den: f64 = EPS + ex.iter().map(|&i| g[i].abs() * (2.0 - g[i].abs())).sum::<f64>();
                        let abs: f64 = ex.iter().map(|&i| g[i].abs()).sum::<f64>();
                        let w = num / den;
                        if den < 1e-4 { if raw.is_finite() { None } else { Some("not finite".into()) } }
                        else if (raw - w).abs() > (m * 2.5e-7 + 1e-5) * (abs / den + w.abs()) { Some(format!("{}", w)) } else { None }
                    }
                    _ => {
                        let w = ex.iter().map(|&i| if tf[i] > 0.5 { (2.0 - p[i]).max(0.0).powi(2) } else { -(2.0 + p[i]).max(0.0).powi(2) }).sum::<f64>() / m;
                        let a = ex.iter().map(|&i| (2.0 + p[i].abs()).powi(2)).sum::<f64>() / m;
                        if (raw - w).abs() > sum_tol(m, a) { Some(format!("{}", w)) } else { None }
                    }
                };
                if let Some(b) = bad { ctx.violation(&format!("{}:leaf-value", objective), format!("leaf of {} examples: value/lr {}: expected {} [{}]", ex.len(), raw, b, d)); return; }
                for &i in ex { want_p[i] += v; }
                ctx.count("leaf_values", 1);
                if ex.len() > 1 { nontrivial = true; }
            }
            for &i in &oob {
                // small corrections most of the time: the next iteration continues from these predictions
                let big = if objective == "hinge" || objective == "binary" { 1.0 } else { *rng.pick(&[1.0f32, 1.0, 1.0, 1.0e3, 1.0e5]) };
                let v = (rng.f32() - 0.5) * 0.1 * if it + 1 == iters { big * 30.0 } else { big };
                if ctx.run("oob", &d, || obj.update_out_of_bag_prediction(i, v)).is_none() { return; }
                want_p[i] += v;
            }
            // each prediction received its leaf's value, and nothing else changed
            let now = obj.predictions();
            for i in 0..n {
                let tol = 2e-7 * (want_p[i].abs() + before[i].abs()) as f64;
                if !((now[i] as f64 - want_p[i] as f64).abs() <= tol) {
                    ctx.violation(&format!("{}:prediction-update", objective), format!("example {}: {} instead of {} (before {}) [{}]", i, now[i], want_p[i], before[i], d)); return;
                }
            }
            ctx.count("oob_updates", oob.len() as u64);
        }
        let h = t.iter().fold(hash_u64(n as u64, ctx.case_index % 5), |h, x| hash_u64(h, x.to_bits() as u64));
        if nontrivial { ctx.observe(h); } else { ctx.observe_trivial(); }
        ctx.sample(|| d.clone());
    }
    let _ = guarded(|| ());
}

pub fn dispatch(ctx: &mut Ctx) { case(ctx) }

fn main() { run("C12", dispatch); }
