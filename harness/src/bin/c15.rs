//! C15: configuration records. The model below is the documented field list, written down here
//! independently: name, type and default of every field.
use bbmon::driver::{guarded, main as run, Ctx};
use bbmon::rng::{hash_bytes, Rng};
use bitboost::config::Config;

#[derive(Clone, Debug, PartialEq)]
enum V { S(String), VS(Vec<String>), B(bool), U8(u8), VU(Vec<usize>), U(usize), F(f32), U32(u32), U64(u64) }

const FIELDS: [&str; 23] = ["train", "test", "objective", "metrics", "metric_frequency", "csv_has_header", "csv_delimiter", "categorical_features",
    "niterations", "learning_rate", "reg_lambda", "min_examples_leaf", "min_gain", "huber_alpha", "max_nbins", "discr_nbits", "max_tree_depth",
    "compression_threshold", "binary_gradient_bound", "random_seed", "feature_fraction", "example_fraction", "sample_freq"];

fn default_of(f: &str) -> V {
    match f {
        "train" | "test" => V::S(String::new()),
        "objective" => V::S("L2".to_string()),
        "metrics" => V::VS(vec![]),
        "metric_frequency" => V::U(1),
        "csv_has_header" => V::B(true),
        "csv_delimiter" => V::U8(b','),
        "categorical_features" => V::VU(vec![]),
        "niterations" => V::U(100),
        "learning_rate" => V::F(1.0),
        "reg_lambda" => V::F(0.0),
        "min_examples_leaf" => V::U32(1),
        "min_gain" => V::F(1e-6),
        "huber_alpha" => V::F(0.95),
        "max_nbins" => V::U(16),
        "discr_nbits" => V::U(4),
        "max_tree_depth" => V::U(6),
        "compression_threshold" => V::F(0.5),
        "binary_gradient_bound" => V::F(1.25),
        "random_seed" => V::U64(1),
        "feature_fraction" | "example_fraction" => V::F(1.0),
        "sample_freq" => V::U(1),
        _ => panic!("HARNESS field"),
    }
}

fn read(c: &Config, f: &str) -> V {
    match f {
        "train" => V::S(c.train.clone()), "test" => V::S(c.test.clone()), "objective" => V::S(c.objective.clone()),
        "metrics" => V::VS(c.metrics.clone()), "metric_frequency" => V::U(c.metric_frequency),
        "csv_has_header" => V::B(c.csv_has_header), "csv_delimiter" => V::U8(c.csv_delimiter),
        "categorical_features" => V::VU(c.categorical_features.clone()), "niterations" => V::U(c.niterations),
        "learning_rate" => V::F(c.learning_rate), "reg_lambda" => V::F(c.reg_lambda),
        "min_examples_leaf" => V::U32(c.min_examples_leaf), "min_gain" => V::F(c.min_gain),
        "huber_alpha" => V::F(c.huber_alpha), "max_nbins" => V::U(c.max_nbins), "discr_nbits" => V::U(c.discr_nbits),
        "max_tree_depth" => V::U(c.max_tree_depth), "compression_threshold" => V::F(c.compression_threshold),
        "binary_gradient_bound" => V::F(c.binary_gradient_bound), "random_seed" => V::U64(c.random_seed),
        "feature_fraction" => V::F(c.feature_fraction), "example_fraction" => V::F(c.example_fraction),
        "sample_freq" => V::U(c.sample_freq),
        _ => panic!("HARNESS field"),
    }
}

fn compare(c: &Config, want: &[V]) -> Result<(), String> {
    for (i, f) in FIELDS.iter().enumerate() {
        let got = read(c, f);
        if got != want[i] { return Err(format!("field {} is {:?} instead of {:?}", f, got, want[i])); }
    }
    Ok(())
}

fn text(rng: &mut Rng) -> String {
    let n = if rng.below(3000) == 0 { rng.range(200, 70_000) } else { rng.below(12) };
    let mut s: String = (0..n).map(|_| *rng.pick(&['a', 'B', '9', '_', '/', '.', '=', '-', ' ', 'é', '"', '\'', ';', '#', '\t'])).collect();
    s = s.trim().to_string();
    s
}

fn ws(rng: &mut Rng) -> &'static str { rng.pick(&["", "", "", " ", "  ", "\t", " \t ", "\n", "\r\n"]) }

/// (value text, value) of a valid record of the field.
fn valid_value(rng: &mut Rng, f: &str) -> (String, V) {
    fn num(rng: &mut Rng, max: u64) -> u64 {
        match rng.below(6) { 0 => 0, 1 => max, 2 => rng.u64() % 1000 % max.max(1), 3 => (rng.u64() % max).min(max), _ => rng.u64() % 20 % max.max(1) }
    }
    let plus = rng.chance(0.1);
    let zeros = rng.chance(0.1);
    let int = |v: u64| { let s = if zeros { format!("00{}", v) } else { v.to_string() }; if plus { format!("+{}", s) } else { s } };
    match default_of(f) {
        V::S(_) => { let s = text(rng); (s.clone(), V::S(s)) }
        V::VS(_) => {
            let k = if rng.below(2000) == 0 { rng.range(200, 70_000) } else { rng.below(4) };
            let v: Vec<String> = (0..k).map(|_| text(rng).replace(',', "")).collect();
            if k == 1 && v[0].is_empty() { return (String::new(), V::VS(vec![])); }
            let s = v.iter().map(|x| format!("{}{}{}", ws(rng), x, ws(rng))).collect::<Vec<_>>().join(",");
            (s.trim().to_string(), V::VS(v))
        }
        V::B(_) => { let b = rng.chance(0.5); (b.to_string(), V::B(b)) }
        V::U8(_) => { let v = num(rng, 255); (int(v), V::U8(v as u8)) }
        V::U(_) => { let v = num(rng, u64::MAX); (int(v), V::U(v as usize)) }
        V::U64(_) => { let v = num(rng, u64::MAX); (int(v), V::U64(v)) }
        V::U32(_) => { let v = num(rng, u32::MAX as u64); (int(v), V::U32(v as u32)) }
        V::F(_) => {
            let v = match rng.below(5) { 0 => 0.0, 1 => (rng.normal() * 30.0).exp(), 2 => -rng.f64(), 3 => rng.below(50) as f64, _ => rng.f64() };
            let s = match rng.below(4) { 0 => format!("{:e}", v), 1 => format!("{:.3}", v), 2 => format!("{}", v as f32), _ => format!("{}", v) };
            let x = s.parse::<f32>().expect("HARNESS float");
            (s, V::F(x))
        }
        V::VU(_) => {
            let k = if rng.below(2000) == 0 { rng.range(200, 70_000) } else { rng.below(6) };
            let v: Vec<usize> = (0..k).map(|_| num(rng, 1_000_000) as usize).collect();
            let s = v.iter().map(|x| format!("{}{}{}", ws(rng), x, ws(rng))).collect::<Vec<_>>().join(",");
            (s.trim().to_string(), V::VU(v))
        }
    }
}

fn invalid_value(rng: &mut Rng, f: &str) -> Option<String> {
    let s: &str = match default_of(f) {
        V::S(_) | V::VS(_) => return None,
        V::B(_) => rng.pick(&["yes", "1", "0", "", "True", "FALSE", "tru", "true false", "t"]),
        V::U8(_) => rng.pick(&["256", "-1", "", ",", ";", "1.5", "0x2c", "9999999999999999999999", "1 2", "44,"]),
        V::U(_) | V::U64(_) => rng.pick(&["-1", "1.0", "", "abc", "1e3", "18446744073709551616", "5 5", "0x10", "NaN", "1_000"]),
        V::U32(_) => rng.pick(&["4294967296", "-1", "1.0", "", "many"]),
        V::F(_) => rng.pick(&["", "abc", "1,5", "1.0.0", "--1", "0x1", "1e", "5%", "1 0"]),
        V::VU(_) => rng.pick(&["1,2,x", "a", "1;2", "-1", "1.5", "1,,2", "1,", ",", "1 2", "0,18446744073709551616"]),
    };
    Some(s.to_string())
}

/// A field name with one mistake in it.
fn bad_name(rng: &mut Rng) -> String {
    loop {
        let f = *rng.pick(&FIELDS);
        let i = rng.below(f.len());
        let c = *rng.pick(&['-', '_', '.', 'x', 's', '1', '"', ':', '+']);
        let s = match rng.below(8) {
            0 => format!("{}{}", c, f),
            1 => format!("--{}", f),
            2 => format!("{}{}", f, c),
            3 => format!("{}{}", &f[..i], &f[i + 1..]),
            4 => format!("{}{}{}", &f[..i], c, &f[i..]),
            5 => f.chars().enumerate().map(|(j, x)| if i == j { x.to_ascii_uppercase() } else { x }).collect(),
            6 => f.replace('_', *rng.pick(&["-", "", "."])),
            _ => f[..i].to_string(),
        };
        if !FIELDS.contains(&s.as_str()) { return s; }
    }
}

fn case(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    let nrec = rng.range(0, 14);
    let mut want: Vec<V> = FIELDS.iter().map(|f| default_of(f)).collect();
    let mut lines: Vec<String> = Vec::new();
    let mut c = match ctx.run("new", "", Config::new) { Some(c) => c, None => return };
    if let Err(m) = compare(&c, &want) { ctx.violation("default", m); return; }
    let mut h = 7u64;
    for _ in 0..nrec {
        let i = rng.below(FIELDS.len());
        let f = FIELDS[i];
        let (s, v) = valid_value(&mut rng, f);
        // the value reaches parse_record as it is and parse() surrounded by white space
        match ctx.run("parse_record", &s, || c.parse_record(f, &s)) {
            None => return,
            Some(Err(m)) => { ctx.violation("valid-rejected", format!("{}={:?}: {}", f, s, m)); return; }
            Some(Ok(())) => want[i] = v,
        }
        let line = format!("{}{}{}={}{}{}", ws(&mut rng), f, ws(&mut rng), ws(&mut rng), s, ws(&mut rng));
        lines.push(line);
        h = bbmon::rng::hash_u64(h, hash_bytes(s.as_bytes()) ^ i as u64);
        if let Err(m) = compare(&c, &want) { ctx.violation("record", format!("after {}={:?}: {}", f, s, m)); return; }
        ctx.count("valid_records", 1);
        // a failing record in between changes nothing
        if rng.chance(0.4) {
            let (name, val) = match rng.below(3) {
                0 if rng.chance(0.6) => (bad_name(&mut rng), "3".to_string()),
                0 => (rng.pick(&["", "Train", "niteration", "niterations2", "max-nbins", "ünknown", "l2", "objective="]).to_string(), "3".to_string()),
                _ => { let f = *rng.pick(&FIELDS); match invalid_value(&mut rng, f) { Some(v) => (f.to_string(), v), None => continue } }
            };
            match ctx.run("parse_record", &val, || c.parse_record(&name, &val)) {
                None => return,
                Some(Ok(())) => { ctx.violation("invalid-accepted", format!("{}={:?} was accepted", name, val)); return; }
                Some(Err(m)) => if m.is_empty() { ctx.violation("empty-error", format!("{}={:?}: error without text", name, val)); return; }
            }
            if let Err(m) = compare(&c, &want) { ctx.violation("failed-record-changed-settings", format!("after {}={:?}: {}", name, val, m)); return; }
            ctx.count("invalid_records", 1);
        }
    }
    match ctx.run("parse", "", || Config::parse(lines.iter().map(|s| s.as_str()))) {
        None => return,
        Some(Err(m)) => { ctx.violation("valid-rejected", format!("{:?}: {}", lines, m)); return; }
        Some(Ok(p)) => if let Err(m) = compare(&p, &want) { ctx.violation("parse", format!("{:?}: {}", lines, m)); return; }
    }
    // any one bad line makes the whole list an error
    let at = rng.below(lines.len() + 1);
    let bad = match rng.below(4) {
        0 => rng.pick(&["niterations", "", "   ", "objective l2", "max_nbins:4"]).to_string(),
        1 if rng.chance(0.6) => format!("{}={}", bad_name(&mut rng), rng.below(3)),
        1 => rng.pick(&["unknown=1", "=", "=5", "nIterations=5", "n iterations=5", "trains=x"]).to_string(),
        _ => { let f = *rng.pick(&FIELDS); match invalid_value(&mut rng, f) { Some(v) => format!("{}={}", f, v), None => return } }
    };
    let mut l2 = lines.clone();
    l2.insert(at, bad.clone());
    match ctx.run("parse", &bad, || Config::parse(l2.iter().map(|s| s.as_str())).map(|_| ())) {
        None => return,
        Some(Ok(())) => { ctx.violation("invalid-line-accepted", format!("{:?} was accepted", bad)); return; }
        Some(Err(m)) => if m.is_empty() { ctx.violation("empty-error", format!("{:?}: error without text", bad)); return; }
    }
    ctx.count("invalid_lines", 1);
    if nrec > 0 { ctx.observe(h); } else { ctx.observe_trivial(); }
    ctx.sample(|| format!("{:?} / rejected {:?}", lines, bad));
}

/// Random bytes never panic.
fn garbage(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    let f = *rng.pick(&FIELDS);
    let n = rng.below(10);
    let val: String = (0..n).map(|_| char::from_u32(if rng.chance(0.7) { rng.range(32, 126) as u32 } else { rng.range(1, 0xd000) as u32 }).unwrap_or('x')).collect();
    let line = match rng.below(3) { 0 => format!("{}={}", f, val), 1 => val.clone(), _ => format!("{}{}", f, val) };
    match guarded(|| Config::parse(std::iter::once(line.as_str())).is_ok()) {
        Err(p) => ctx.panic_violation("parse", &p, &line),
        Ok(ok) => { ctx.count(if ok { "garbage_accepted" } else { "garbage_rejected" }, 1); ctx.observe_trivial(); }
    }
}

/// The generated documentation against the model.
fn doc(ctx: &mut Ctx) {
    let mut buf = Vec::new();
    if ctx.run("write_doc_csv", "", || Config::write_doc_csv(&mut buf).is_ok()) != Some(true) {
        if ctx.violations.is_empty() { ctx.violation("doc-error", "write_doc_csv failed".to_string()); }
        return;
    }
    check_doc(ctx, &buf);
    // writers that fail: an error, no panic, at any point
    let total = buf.len();
    for _ in 0..20 {
        let lim = ctx.rng.below(total);
        let mut w = Failing(lim);
        if ctx.run("write_doc_csv", "", || Config::write_doc_csv(&mut w).is_err()) == Some(false) {
            ctx.violation("doc-write-error-lost", format!("the writer failed after {} bytes but no error was returned", lim)); return;
        }
        ctx.count("failing_writers", 1);
    }
}

struct Failing(usize);
impl std::io::Write for Failing {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0 == 0 { return Err(std::io::Error::new(std::io::ErrorKind::Other, "full")); }
        let k = b.len().min(self.0); self.0 -= k; Ok(k)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

fn check_doc(ctx: &mut Ctx, buf: &[u8]) {
    let mut r = csv::ReaderBuilder::new().has_headers(true).from_reader(buf);
    let head = r.headers().map(|h| h.iter().map(|s| s.to_string()).collect::<Vec<_>>()).unwrap_or_default();
    if head != ["name", "default", "type", "description"] { ctx.violation("doc-header", format!("{:?}", head)); return; }
    let mut seen: Vec<String> = Vec::new();
    for rec in r.records() {
        let rec = match rec { Ok(r) => r, Err(e) => { ctx.violation("doc-not-csv", format!("{}", e)); return; } };
        let name = rec[0].to_string();
        let i = match FIELDS.iter().position(|f| *f == name) { Some(i) => i, None => {
            // a field added later: listed, but not modelled here
            if Config::new().parse_record(&name, "\u{1}").err().map_or(false, |m| m.starts_with("unknown")) { ctx.violation("doc-unknown-field", name); return; }
            continue;
        } };
        if seen.contains(&name) { ctx.violation("doc-duplicate", format!("{} is listed twice", name)); return; }
        let v = default_of(FIELDS[i]);
        let ty = match &v { V::S(_) => "String", V::VS(_) => "Vec<String>", V::B(_) => "bool", V::U8(_) => "u8", V::VU(_) => "Vec<usize>",
                            V::U(_) => "usize", V::F(_) => "NumT", V::U32(_) => "u32", V::U64(_) => "u64" };
        let norm: String = rec[2].chars().filter(|c| !c.is_whitespace()).collect();
        if norm != ty { ctx.violation("doc-type", format!("{} is documented as {} instead of {}", name, &rec[2], ty)); return; }
        let def = &rec[1];
        let ok = match &v {
            V::S(s) => def == s,
            V::VS(x) => x.is_empty() && def == "[]",
            V::VU(x) => x.is_empty() && def == "[]",
            V::B(b) => def == if *b { "True" } else { "False" },
            V::U8(x) => def.parse() == Ok(*x),
            V::U(x) => def.parse() == Ok(*x),
            V::U32(x) => def.parse() == Ok(*x),
            V::U64(x) => def.parse() == Ok(*x),
            V::F(x) => def.parse() == Ok(*x),
        };
        if !ok { ctx.violation("doc-default", format!("{} is documented with default {:?}, it is {:?}", name, def, v)); return; }
        if rec[3].trim().is_empty() { ctx.violation("doc-description", format!("{} has no description", name)); return; }
        seen.push(name);
    }
    if let Some(f) = FIELDS.iter().find(|f| !seen.contains(&f.to_string())) { ctx.violation("doc-missing", format!("{} is not documented", f)); return; }
    ctx.count("documented_fields", seen.len() as u64);
    ctx.observe(hash_bytes(buf));
}

pub fn dispatch(ctx: &mut Ctx) {
    match ctx.case_index % 50 { 0 => doc(ctx), x if x % 5 == 4 => garbage(ctx), _ => case(ctx) }
}

fn main() { run("C15", dispatch); }
