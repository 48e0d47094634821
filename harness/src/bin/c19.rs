//! C19: the command-line program, run as a process, against the library in this process.
use bbmon::driver::{main as run, Ctx};
use bbmon::gen::*;
use bbmon::probe::Recorder;
use bbmon::rng::{hash_bytes, hash_u64, Rng};
use bbmon::session::*;
use bitboost::boost::Booster;
use bitboost::config::Config;
use bitboost::data::Data;
use bitboost::metric::Metric;
use bitboost::objective::objective_from_name;
use std::io::Read;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

struct Out { code: Option<i32>, signal: Option<i32>, stdout: String, stderr: String }

/// None: the program did not end within a minute (its work takes milliseconds).
fn spawn(dir: &Path, bin: &str, args: &[String]) -> Option<Out> {
    let exe = PathBuf::from(std::env::var("BBMON_BINDIR").expect("HARNESS BBMON_BINDIR")).join(bin);
    let (po, pe) = (dir.join("stdout"), dir.join("stderr"));
    let mut ch = Command::new(&exe).args(args).current_dir(dir).env_remove("RUST_LOG").env_remove("RUST_BACKTRACE").stdin(Stdio::null())
        .stdout(std::fs::File::create(&po).expect("HARNESS stdout")).stderr(std::fs::File::create(&pe).expect("HARNESS stderr"))
        .spawn().expect("HARNESS cannot start the program");
    let start = std::time::Instant::now();
    let mut nap = 300u64;
    let st = loop {
        match ch.try_wait().expect("HARNESS wait") {
            Some(st) => break st,
            None => {
                if start.elapsed().as_secs() > 60 { ch.kill().ok(); ch.wait().ok(); return None; }
                std::thread::sleep(std::time::Duration::from_micros(nap));
                nap = (nap * 3 / 2).min(20_000);
            }
        }
    };
    let text = |p: &Path| { let mut b = Vec::new(); std::fs::File::open(p).expect("HARNESS output").read_to_end(&mut b).expect("HARNESS output"); String::from_utf8_lossy(&b).to_string() };
    Some(Out { code: st.code(), signal: st.signal(), stdout: text(&po), stderr: text(&pe) })
}

struct Job { table: Table, test: Option<Table>, knobs: Knobs, args: Vec<String>, metrics: Vec<&'static str>, freq: usize, config: Config, train_csv: String, test_csv: String, train_path: String, test_path: String }

const METRICS: [(&str, &str, &str); 5] = [("l2", "l2", "L2"), ("rmse", "rmse", "Rmse"), ("binary_loss", "bl", "BinaryLoss"), ("binary_error", "be", "BinaryError"), ("binaryerror01", "be01", "BinaryError01")];

fn defn(kind: &str, t: &[f32], p: &[f32]) -> f64 {
    let one = |t: f64, p: f64| match kind {
        "l2" | "rmse" => (t - p) * (t - p),
        "bl" => { let y = 2.0 * t - 1.0; let x = -2.0 * y * p; x.max(0.0) + (-x.abs()).exp().ln_1p() }
        "be" => if (p >= 0.0) == (t >= 0.5) { 0.0 } else { 1.0 },
        _ => if (p >= 0.5) == (t >= 0.5) { 0.0 } else { 1.0 },
    };
    let s = t.iter().zip(p).map(|(&t, &p)| one(t as f64, p as f64)).sum::<f64>() / t.len() as f64;
    if kind == "rmse" { s.sqrt() } else { s }
}

/// Five printed digits and the f32 evaluation.
fn same(printed: f64, want: f64) -> bool { (printed - want).abs() <= 4e-4 * want.abs() + 1e-6 }

fn gen_job(rng: &mut Rng, dir: &Path) -> Option<Job> {
    let n = if rng.below(700) == 0 && !tiny() { rng.range(4000, 70_000) } else { gen_n(rng, 4, 500) };
    let mut k = gen_knobs(rng, n);
    k.objective = *rng.pick(&["l2", "l2", "l1", "huber", "binary"]);
    k.niterations = rng.range(1, 6);
    if rng.below(80) == 0 && n < 200 && !tiny() { k.niterations = rng.range(40, 150); k.max_tree_depth = k.max_tree_depth.min(4); }
    let mut t = gen_session_table(rng, &k, n, true);
    t.target = gen_table(rng, &TableOpts { n, nfeat: 1, locard: false, hicard: false, numeric: true, constants: false, max_nbins: 4, target: target_for(k.objective), tame: true }).target;
    if nuseful(&t) == 0 || t.target.iter().all(|&v| v == t.target[0]) { return None; }
    if (nuseful(&t) as f32 * k.feature_fraction).round() < 1.0 { k.feature_fraction = 1.0; }
    if target_for(k.objective) == Target::Regression && rng.chance(0.4) {
        let (sc, off) = (*rng.pick(&[1e-4f32, 0.01, 100.0, 1e5, 1e-24]), *rng.pick(&[0.0f32, 0.0, 7.0, -1e4]));
        for v in t.target.iter_mut() { *v = *v * sc + off; }
        if sc < 1.0 { k.min_gain = 1e-20; }
        if t.target.iter().all(|&v| v == t.target[0]) { return None; }
    }
    let test = if rng.chance(0.6) {
        // other examples: permuted rows, sometimes perturbed, another number of them
        let m = rng.range(1, 2 * n);
        let mut c = t.clone();
        c.n = m;
        let rows: Vec<usize> = (0..m).map(|_| rng.below(n)).collect();
        for f in 0..t.nfeat() { c.cols[f] = rows.iter().map(|&i| { let v = t.cols[f][i]; if t.cat[f] { v } else { v + if rng.chance(0.3) { rng.normal() as f32 } else { 0.0 } } }).collect(); }
        c.target = rows.iter().map(|&i| t.target[i]).collect();
        Some(c)
    } else { None };
    let mut config = k.to_config();
    config.categorical_features = t.cat_ids();
    config.csv_has_header = rng.chance(0.6);
    config.csv_delimiter = *rng.pick(&[b',', b',', b';', b'\t', b'|']);
    let nm = if rng.chance(0.1) { rng.range(4, 12) } else { rng.below(4) };
    let mut metrics = Vec::new();
    let mut names = Vec::new();
    for _ in 0..nm {
        let pool = if target_for(k.objective) == Target::Binary { &METRICS[..] } else { &METRICS[..2] };
        let m = *rng.pick(pool);
        metrics.push(m.1);
        names.push(if rng.chance(0.3) { m.0.to_uppercase() } else { m.0.to_string() });
    }
    let freq = *rng.pick(&[1usize, 1, 2, 3, 50]);
    config.metric_frequency = freq;
    let (train_name, test_name) = *rng.pick(&[("train.csv", "test.csv"), ("my train=1.csv", "my test=1.csv"), ("träin", "tést"), ("a,b.csv", "c,d.csv"), ("a/data.csv", "b/data.csv"), ("data.csv", "./old/data.csv"), ("data", "data2"), ("x.csv", "x.csv.bak")]);
    for s in &["a", "b", "old"] { std::fs::create_dir_all(dir.join(s)).expect("HARNESS mkdir"); }
    let abs = rng.chance(0.3);
    let p = |s: &str| if abs { dir.join(s).to_str().unwrap().to_string() } else { s.to_string() };
    let mut args: Vec<String> = k.args();
    args.push(format!("categorical_features={}", config.categorical_features.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(if rng.chance(0.5) { "," } else { ", " })));
    if !config.csv_has_header || rng.chance(0.5) { args.push(format!("csv_has_header={}", config.csv_has_header)); }
    if config.csv_delimiter != b',' || rng.chance(0.3) { args.push(format!("csv_delimiter={}", config.csv_delimiter)); }
    if nm > 0 { args.push(format!("metrics={}", names.join(","))); }
    args.push(format!("metric_frequency={}", freq));
    args.push(format!("train={}", p(train_name)));
    if test.is_some() { args.push(format!("test={}", p(test_name))); }
    rng.shuffle(&mut args);
    // a later record overrides an earlier one
    if rng.chance(0.2) { args.insert(0, "niterations=77".to_string()); }
    let d = config.csv_delimiter as char;
    let train_csv = t.to_csv(config.csv_has_header, d);
    let test_csv = test.as_ref().map_or(String::new(), |t| t.to_csv(config.csv_has_header, d));
    std::fs::write(dir.join(train_name), &train_csv).expect("HARNESS write");
    if test.is_some() { std::fs::write(dir.join(test_name), &test_csv).expect("HARNESS write"); }
    Some(Job { table: t, test, knobs: k, args, metrics, freq, config, train_csv, test_csv, train_path: p(train_name), test_path: p(test_name) })
}

fn parse_raw(out: &str, tag: &str) -> Result<Vec<f32>, String> {
    let lines: Vec<&str> = out.lines().filter(|l| l.starts_with(tag)).collect();
    if lines.len() != 1 { return Err(format!("{} lines {}", lines.len(), tag)); }
    lines[0][tag.len()..].split(',').map(|x| x.trim().parse::<f32>().map_err(|_| format!("{} has a field {:?}", tag, x))).collect()
}

/// (name, train, test) of the summary lines and (name, value) of the progress lines.
fn parse_metrics(out: &str) -> (Vec<(String, f64, Option<f64>)>, Vec<(String, f64)>) {
    let (mut sum, mut prog) = (Vec::new(), Vec::new());
    for l in out.lines() {
        let t: Vec<&str> = l.split_whitespace().map(|x| x.trim_end_matches(',')).collect();
        if let Some(i) = t.iter().position(|&x| x == "eval") {
            let num = |j: usize| t.get(j).and_then(|x| x.parse::<f64>().ok()).unwrap_or(f64::NAN);
            let name = t.get(i + 1).unwrap_or(&"?").to_string();
            if t.get(i + 2) == Some(&"train") {
                let test = if t.get(i + 4) == Some(&"test") { Some(num(i + 5)) } else { None };
                sum.push((name, num(i + 3), test));
            } else { prog.push((name, num(i + 2))); }
        }
    }
    (sum, prog)
}

fn agree(ctx: &mut Ctx, dir: &Path) {
    let mut rng = ctx.rng.clone();
    let job = match gen_job(&mut rng, dir) { Some(j) => j, None => return };
    let mode = *rng.pick(&["boost_and_predict_raw", "boost_and_predict_raw", "boost", "tree"]);
    let mut argv = vec![mode.to_string()];
    argv.extend(job.args.iter().cloned());
    let d = format!("{} {:?} {}", mode, job.args, job.table.describe());
    let o = match spawn(dir, "run_bitboost", &argv) { Some(o) => o, None => { ctx.violation("no-termination", d); return; } };
    if o.code != Some(0) { ctx.violation("valid-run-failed", format!("status {:?} signal {:?} stderr {:?} [{}]", o.code, o.signal, tail(&o.stderr), d)); return; }
    // the library, in this process
    let data = match ctx.run("from_csv", &d, || Data::from_csv(&job.config, &job.train_csv)) { Some(Ok(x)) => x, Some(Err(e)) => { ctx.violation("load", format!("{} [{}]", e, d)); return; } None => return };
    let tdata = if job.test.is_some() {
        match ctx.run("from_csv", &d, || Data::from_csv(&job.config, &job.test_csv)) { Some(Ok(x)) => Some(x), Some(Err(e)) => { ctx.violation("load", format!("{} [{}]", e, d)); return; } None => return }
    } else { None };
    let mut rec = Recorder::new(objective_from_name(job.knobs.objective).unwrap());
    let ms: Vec<Box<dyn Metric>> = Vec::new();
    let mut lconf = job.knobs.to_config();
    if mode == "tree" { lconf.niterations = 1; }
    let model = match ctx.run("boost", &d, || Booster::new(&lconf, &data, &mut rec, &ms).train()) { Some(m) => m, None => return };
    let (ptrain, ptest) = match ctx.run("predict", &d, || (model.predict(&data), tdata.as_ref().map(|t| model.predict(t)))) { Some(x) => x, None => return };
    if mode == "boost_and_predict_raw" {
        for (tag, want) in [("__PREDICTIONS_TRAIN__", Some(&ptrain)), ("__PREDICTIONS_TEST__", ptest.as_ref())] {
            match want {
                None => if o.stdout.contains(tag) { ctx.violation("unasked-predictions", format!("{} printed without a test file [{}]", tag, d)); return; },
                Some(w) => match parse_raw(&o.stdout, tag) {
                    Err(e) => { ctx.violation("raw-output", format!("{} [{}]", e, d)); return; }
                    Ok(got) => {
                        if got.len() != w.len() { ctx.violation("raw-length", format!("{} has {} values for {} examples [{}]", tag, got.len(), w.len(), d)); return; }
                        if let Some(i) = (0..w.len()).find(|&i| got[i] != w[i]) { ctx.violation("raw-prediction", format!("{} example {}: printed {} but the library predicts {} [{}]", tag, i, got[i], w[i], d)); return; }
                        ctx.count("raw_predictions", w.len() as u64);
                    }
                }
            }
        }
    } else {
        let (sum, _) = parse_metrics(&o.stdout);
        if sum.len() != job.metrics.len() { ctx.violation("summary-length", format!("{} metrics in the summary instead of {} [{}]", sum.len(), job.metrics.len(), d)); return; }
        for (m, (name, tr, te)) in job.metrics.iter().zip(&sum) {
            let wname = METRICS.iter().find(|x| x.1 == *m).unwrap().2;
            if name != wname { ctx.violation("summary-name", format!("{} in place of {} [{}]", name, wname, d)); return; }
            // rounding between a tree with a bias and an ensemble of one may flip a thresholded prediction
            let flip = if m.starts_with("be") { 1.5 * boundary(m, &ptrain) } else { 0.0 };
            let w = defn(m, &job.table.target, &ptrain);
            if !(same(*tr, w) || (tr - w).abs() <= flip) { ctx.violation("summary-train", format!("{} train {} instead of {} [{}]", name, tr, w, d)); return; }
            match (te, &ptest) {
                (None, None) => {}
                (Some(te), Some(p)) => {
                    let w = defn(m, &job.test.as_ref().unwrap().target, p);
                    let flip = if m.starts_with("be") { 1.5 * boundary(m, p) } else { 0.0 };
                    if !(same(*te, w) || (te - w).abs() <= flip) { ctx.violation("summary-test", format!("{} test {} instead of {} [{}]", name, te, w, d)); return; }
                }
                _ => { ctx.violation("summary-test", format!("test metric {:?}, test file given: {} [{}]", te, ptest.is_some(), d)); return; }
            }
            ctx.count("summary_metrics", 1);
        }
        let obj = objective_from_name(job.knobs.objective).unwrap().name();
        if let Some(l) = o.stdout.lines().find(|l| l.contains("] objective:")) {
            if !l.ends_with(obj) { ctx.violation("summary-objective", format!("{:?} for {} [{}]", l, obj, d)); return; }
        }
    }
    // progress of boosting
    let (_, prog) = parse_metrics(&o.stdout);
    if mode != "tree" {
        let mut want = Vec::new();
        for it in 1..=job.knobs.niterations {
            if it % job.freq != 0 { continue; }
            let p = if it < rec.iters.len() { rec.iters[it].preds_before.clone() } else { use bitboost::objective::Objective; rec.predictions().to_vec() };
            for m in &job.metrics { want.push((*m, it, defn(m, &job.table.target, &p), boundary(m, &p))); }
        }
        if want.len() != prog.len() { ctx.violation("progress-length", format!("{} metric lines instead of {} [{}]", prog.len(), want.len(), d)); return; }
        for (w, g) in want.iter().zip(&prog) {
            let wname = METRICS.iter().find(|x| x.1 == w.0).unwrap().2;
            if g.0 != wname { ctx.violation("progress-name", format!("{} in place of {} [{}]", g.0, wname, d)); return; }
            if !(same(g.1, w.2) || (w.0.starts_with("be") && (g.1 - w.2).abs() <= w.3)) { ctx.violation("progress-value", format!("{} at iteration {}: {} instead of {} [{}]", wname, w.1, g.1, w.2, d)); return; }
            ctx.count("progress_metrics", 1);
        }
    }
    ctx.count(&format!("mode_{}", mode), 1);
    ctx.observe(hash_u64(job.table.fingerprint(), hash_bytes(format!("{:?}", argv).as_bytes())));
    ctx.sample(|| d);
}

/// Fraction of predictions within rounding of the metric's threshold.
fn boundary(kind: &str, p: &[f32]) -> f64 {
    let c = if kind == "be" { 0.0 } else { 0.5 };
    p.iter().filter(|&&x| (x as f64 - c).abs() < 1e-5).count() as f64 / p.len() as f64
}

fn tail(s: &str) -> String { let v: Vec<char> = s.chars().collect(); v[v.len().saturating_sub(300)..].iter().collect() }

fn misuse(ctx: &mut Ctx, dir: &Path) {
    let mut rng = ctx.rng.clone();
    let job = match gen_job(&mut rng, dir) { Some(j) => j, None => return };
    let mut mode = (*rng.pick(&["boost_and_predict_raw", "boost", "tree"])).to_string();
    let mut args = job.args.clone();
    let at = rng.range(0, args.len());
    let which = rng.below(19);
    let has_test = job.test.is_some();
    // the file to spoil
    let spoil_test = has_test && rng.chance(0.5);
    let path = dir.join(if spoil_test { &job.test_path } else { &job.train_path });
    let text = if spoil_test { job.test_csv.clone() } else { job.train_csv.clone() };
    let delim = (job.config.csv_delimiter as char).to_string();
    let mut lines: Vec<String> = text.lines().map(|s| s.to_string()).collect();
    let first = if job.config.csv_has_header { 1 } else { 0 };
    let row = first + rng.below(lines.len() - first);
    let what = match which {
        0 => { if rng.chance(0.5) { mode = rng.pick(&["", "boosting", "Boost", "predict", "--help", "train=x", "boost_and_predict"]).to_string(); } else { args.clear(); mode = "?".to_string(); } "command" }
        1 => { args.insert(at, rng.pick(&["nosuch=1", "niteration=3", "Objective=l2", "=1", "learning-rate=1"]).to_string()); "unknown field" }
        2 => { args.insert(at, rng.pick(&["niterations", "", "train", "objective l2"]).to_string()); "no value" }
        3 => { args.insert(at, rng.pick(&["niterations=x", "niterations=-1", "learning_rate=fast", "csv_delimiter=,", "csv_delimiter=256", "csv_has_header=1", "discr_nbits=", "categorical_features=a", "random_seed=1.5", "max_nbins=99999999999999999999"]).to_string()); "ill-typed value" }
        4 => { args.push(rng.pick(&["objective=l3", "objective=", "objective=rmse", "objective=l2 l1"]).to_string()); "unknown objective" }
        5 => { args.push(rng.pick(&["metrics=l3", "metrics=rmse,nosuch", "metrics=huber", "metrics=rmse,,l2"]).to_string()); "unknown metric" }
        6 => { args.push(rng.pick(&["train=", "train=missing.csv", "train=no/such/dir/train.csv", "train=."]).to_string()); "train path" }
        7 => { args.push(rng.pick(&["test=missing.csv", "test=no/such/dir/test.csv", "test=."]).to_string()); "test path" }
        8 => { std::fs::remove_file(&path).expect("HARNESS remove"); "file removed" }
        9 => { std::fs::write(&path, "").expect("HARNESS write"); "empty file" }
        10 => { let h: Vec<String> = (0..=job.table.nfeat()).map(|i| format!("c{}", i)).collect(); args.push("csv_has_header=true".into()); std::fs::write(&path, h.join(&delim) + "\n").expect("HARNESS write"); "header only" }
        11 => { if lines.len() < 2 { return; } let row = if row == 0 { 1 } else { row }; lines[row] += &format!("{}1", delim); std::fs::write(&path, lines.join("\n") + "\n").expect("HARNESS write"); "long row" }
        12 => { if lines.len() < 2 { return; } let row = if row == 0 { 1 } else { row }; lines[row] = if job.table.nfeat() > 0 { lines[row].splitn(2, &delim).nth(1).unwrap().to_string() } else { return }; std::fs::write(&path, lines.join("\n") + "\n").expect("HARNESS write"); "short row" }
        13 => {
            let mut f: Vec<String> = lines[row].split(&delim).map(|s| s.to_string()).collect();
            let c = rng.below(f.len());
            f[c] = rng.pick(&["", "abc", "1.2.3", "0x10", "1 2", "--1"]).to_string();
            lines[row] = f.join(&delim);
            std::fs::write(&path, lines.join("\n") + "\n").expect("HARNESS write"); "non-numeric field"
        }
        14 => {
            let ids = job.table.cat_ids();
            if ids.is_empty() { return; }
            let mut f: Vec<String> = lines[row].split(&delim).map(|s| s.to_string()).collect();
            f[*rng.pick(&ids)] = rng.pick(&["-1", "0.5", "2.25", "-3.5"]).to_string();
            lines[row] = f.join(&delim);
            std::fs::write(&path, lines.join("\n") + "\n").expect("HARNESS write"); "invalid category"
        }
        15 => { let mut b = text.clone().into_bytes(); let i = b.len() - 1 - rng.below(b.len().min(5)); b[i] = 0xff; std::fs::write(&path, b).expect("HARNESS write"); "not UTF-8" }
        16 => {
            // the training file wrong in the last record only
            let last = lines.len() - 1;
            lines[last] = lines[last].replacen(|c: char| c.is_ascii_digit(), "x", 1);
            std::fs::write(&path, lines.join("\n")).expect("HARNESS write"); "last record"
        }
        17 => { args.retain(|a| !a.starts_with("train=")); "no training file" }
        _ => { // two errors at once
            args.push("objective=nosuch".into()); args.push("train=missing".into()); "two errors"
        }
    };
    let mut argv = vec![mode.clone()];
    if mode == "?" { argv.clear(); }
    argv.extend(args);
    let d = format!("{}: {:?}", what, argv);
    let o = match spawn(dir, "run_bitboost", &argv) { Some(o) => o, None => { ctx.violation("no-termination", d); return; } };
    if let Some(s) = o.signal { ctx.violation("error-crash", format!("killed by signal {} [{}]", s, d)); return; }
    let code = o.code.unwrap_or(-1);
    if code == 0 { ctx.violation(&format!("error-accepted:{}", what), format!("status 0, output {:?} [{}]", tail(&o.stdout), d)); return; }
    if code == 101 || o.stderr.contains("panicked at") { ctx.violation(&format!("error-panic:{}", what), format!("status {}: {} [{}]", code, tail(&o.stderr), d)); return; }
    if o.stderr.trim().is_empty() && o.stdout.trim().is_empty() { ctx.violation("error-silent", format!("status {} without a message [{}]", code, d)); return; }
    if o.stdout.contains("__PREDICTIONS") { ctx.violation("error-output", format!("predictions printed all the same [{}]", d)); return; }
    if o.stdout.contains("failed loading test data") && !o.stdout.contains("failed loading training data") {
        let t = argv.iter().rev().find(|a| a.starts_with("test=")).map(|a| a[5..].to_string()).unwrap_or_default();
        let l = o.stdout.lines().find(|l| l.contains("failed loading test data")).unwrap();
        if l.contains(&job.train_path) && !l.contains(&t) { ctx.violation("error-file-name", format!("{:?} for the test file {} [{}]", l, t, d)); return; }
    }
    ctx.count(&format!("reported_{}", what.replace(' ', "_")), 1);
    ctx.observe(hash_u64(job.table.fingerprint(), hash_bytes(d.as_bytes())));
    ctx.sample(|| format!("{} -> status {} {:?}", d, code, tail(&o.stderr)));
}

fn documentation(ctx: &mut Ctx, dir: &Path) {
    let o = match spawn(dir, "bitboost_gen_config_csv", &["doc.csv".to_string()]) { Some(o) => o, None => { ctx.violation("no-termination", "bitboost_gen_config_csv".into()); return; } };
    if o.code != Some(0) { ctx.violation("gen-config", format!("status {:?}: {}", o.code, tail(&o.stderr))); return; }
    let mut want = Vec::new();
    Config::write_doc_csv(&mut want).expect("HARNESS doc");
    let got = std::fs::read(dir.join("doc.csv")).unwrap_or_default();
    if got != want { ctx.violation("gen-config", "the written parameter table is not the library's".into()); return; }
    ctx.count("parameter_tables", 1);
    ctx.observe(1);
}

fn main() {
    let dir = PathBuf::from(std::env::var("BBMON_SCRATCH").unwrap_or_else(|_| "/tmp/bbmon-cli".into())).join(format!("cli-{}", std::process::id()));
    run("C19", |ctx| {
        std::fs::remove_dir_all(&dir).ok();
        std::fs::create_dir_all(&dir).expect("HARNESS scratch");
        match ctx.case_index % 10 { 0..=3 => misuse(ctx, &dir), 4 if ctx.case_index < 80 => documentation(ctx, &dir), _ => agree(ctx, &dir) }
        std::fs::remove_dir_all(&dir).ok();
    });
}
