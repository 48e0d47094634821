//! C14: loading data - every written value, name, limit, cardinality and kind; errors, never panics.
use bbmon::gen::tiny;
use bbmon::driver::{guarded, main as run, Ctx};
use bbmon::rng::{hash_bytes, hash_u64, Rng};
use bitboost::config::Config;
use bitboost::data::{Data, FeatType};

/// What the file says: computed from the written text alone.
struct Expect { names: Vec<String>, cols: Vec<Vec<f32>>, cat: Vec<bool>, max_nbins: usize }

fn eq(a: f32, b: f32) -> bool { a == b || (a.is_nan() && b.is_nan()) }

fn compare(data: &Data, e: &Expect) -> Result<(), (&'static str, String)> {
    let nc = e.cols.len();
    let n = e.cols[0].len();
    if data.nfeatures() != nc - 1 || data.nexamples() != n || data.target_id() != nc - 1 {
        return Err(("shape", format!("{} features x {} examples (target column {}) instead of {} x {}", data.nfeatures(), data.nexamples(), data.target_id(), nc - 1, n)));
    }
    for f in 0..nc {
        let col = data.get_feature(f);
        if col.len() != n { return Err(("column-length", format!("column {} has {} values of {}", f, col.len(), n))); }
        for i in 0..n {
            if !eq(col[i], e.cols[f][i]) { return Err(("value", format!("column {} record {}: {} instead of {}", f, i, col[i], e.cols[f][i]))); }
        }
        if data.feat_name(f) != e.names[f] { return Err(("name", format!("column {} is called {:?} instead of {:?}", f, data.feat_name(f), e.names[f]))); }
        let lo = e.cols[f].iter().cloned().fold(f32::INFINITY, f32::min);
        let hi = e.cols[f].iter().cloned().fold(f32::NEG_INFINITY, f32::max);
        if data.feat_limits(f) != (lo, hi) { return Err(("limits", format!("column {} has limits {:?} instead of {:?}", f, data.feat_limits(f), (lo, hi)))); }
        let card = if e.cat[f] { hi as usize + 1 } else { 0 };
        if data.feat_card(f) != card { return Err(("cardinality", format!("column {} has cardinality {} instead of {}", f, data.feat_card(f), card))); }
        let ty = if !e.cat[f] { FeatType::Numerical } else if card > e.max_nbins { FeatType::HiCardCat } else { FeatType::LoCardCat };
        if data.feat_type(f) != ty { return Err(("kind", format!("column {} is {:?} instead of {:?}", f, data.feat_type(f), ty))); }
    }
    let t = data.get_target();
    if t.len() != n || (0..n).any(|i| !eq(t[i], e.cols[nc - 1][i])) { return Err(("target", "the target is not the last column".to_string())); }
    Ok(())
}

fn number(rng: &mut Rng, cat: bool, ncat: usize) -> String {
    if cat {
        let v = rng.below(ncat);
        return match rng.below(8) { 0 => format!("{}.0", v), 1 => format!("{}e0", v), 2 => format!("+{}", v), 3 => format!("0{}", v), _ => format!("{}", v) };
    }
    let v: f64 = match rng.below(8) {
        0 => rng.below(10) as f64,
        1 => -(rng.below(1000) as f64),
        2 => rng.normal(),
        3 => (rng.normal() * 20.0).exp(),
        4 => -(rng.normal() * 20.0).exp(),
        5 => 0.0,
        6 => rng.frange(-1e6, 1e6),
        _ => rng.normal() * 1e-3,
    };
    match rng.below(9) {
        0 => format!("{:e}", v),
        1 => format!("{:.3}", v),
        2 => format!("{}", v as f32),
        3 => format!("{}", v as i64),
        4 => format!("{:E}", v as f32),
        5 => format!("{}.", v as i64),
        6 => { let s = format!("{:.4}", v.abs().fract()); s[1..].to_string() }   // ".1234"
        7 => format!("+{}", v.abs()),
        _ => format!("{}", v),
    }
}

fn field_name(rng: &mut Rng, delim: char) -> String {
    match rng.below(7) {
        0 => String::new(),
        1 => format!("with{}delim", delim),
        2 => "Ünïcode ∑".to_string(),
        3 => "two words".to_string(),
        4 => format!("{}", rng.below(100)),
        5 => rng.pick(&["he said \"hi\"", " padded", "padded ", "\ttab\t", "TAB", "\"\"", "#comment", "'q'"]).to_string(),
        _ => format!("col{}", rng.below(1000)),
    }
}

fn quote(s: &str) -> String { format!("\"{}\"", s.replace('"', "\"\"")) }

struct File { text: String, records: Vec<Vec<String>>, header: Option<Vec<String>>, delim: char, eol: &'static str }

fn render(rng: &mut Rng, header: &Option<Vec<String>>, records: &[Vec<String>], delim: char, eol: &str, quoting: bool) -> String {
    let mut s = String::new();
    let mut line = |rng: &mut Rng, fields: &Vec<String>, last: bool| {
        let v: Vec<String> = fields.iter().map(|f| {
            let must = f.contains(delim) || f.contains('"') || f.contains('\n') || (fields.len() == 1 && f.is_empty());
            if must || (quoting && rng.chance(0.2)) { quote(f) } else { f.clone() }
        }).collect();
        s += &v.join(&delim.to_string());
        if !last || rng.chance(0.7) { s += eol; }
        if !last && rng.chance(0.02) { s += eol; } // blank lines are no records
    };
    if let Some(h) = header { line(rng, h, records.is_empty()); }
    for (i, r) in records.iter().enumerate() { line(rng, r, i + 1 == records.len()); }
    s
}

fn gen_file(rng: &mut Rng, thorough: bool) -> (File, Config, Expect) {
    let delim = *rng.pick(&[',', ',', ';', '\t', '|', ' ', ':']);
    let huge = rng.below(2500) == 0 && !tiny();
    let nc = if huge { if rng.chance(0.5) { rng.range(250, 700) } else { rng.range(1, 3) } } else { rng.range(1, 9) };
    let n = match rng.below(5) { _ if huge => if nc > 9 { rng.range(1, 40) } else { rng.range(65_000, 140_000) }, _ if tiny() => rng.range(1, 4), 0 => 1, 1 => rng.range(1, 5), 2 => rng.range(5, 70), 3 => rng.range(30, 300), _ => rng.range(1, if thorough { 3000 } else { 900 }) };
    let mut config = Config::new();
    config.csv_delimiter = delim as u8;
    config.csv_has_header = rng.chance(0.5);
    config.max_nbins = *rng.pick(&[2usize, 3, 8, 16, 255]);
    let mut cat = vec![false; nc];
    let mut ids: Vec<usize> = Vec::new();
    for f in 0..nc { if rng.chance(0.35) { cat[f] = true; ids.push(f); } }
    if rng.chance(0.3) { ids.push(nc + rng.below(20)); }             // beyond the columns: no effect
    if !ids.is_empty() && rng.chance(0.2) { let d = ids[rng.below(ids.len())]; ids.push(d); }
    rng.shuffle(&mut ids);
    config.categorical_features = ids.clone();
    for c in 0..nc { cat[c] = ids.contains(&c); }
    let ncat: Vec<usize> = (0..nc).map(|_| *rng.pick(&[1usize, 2, 3, config.max_nbins, config.max_nbins + 1, 40, 5000, 70_000, 16_000_000])).collect();
    let records: Vec<Vec<String>> = (0..n).map(|_| (0..nc).map(|f| number(rng, cat[f], ncat[f])).collect()).collect();
    let header = if config.csv_has_header { Some((0..nc).map(|_| field_name(rng, delim)).collect::<Vec<_>>()) } else { None };
    let eol = *rng.pick(&["\n", "\n", "\r\n"]);
    let quoting = rng.chance(0.3);
    let text = render(rng, &header, &records, delim, eol, quoting);
    let cols = (0..nc).map(|f| records.iter().map(|r| r[f].parse::<f32>().expect("HARNESS number")).collect()).collect();
    let names = header.clone().unwrap_or(vec![String::new(); nc]);
    let e = Expect { names, cols, cat, max_nbins: config.max_nbins };
    (File { text, records, header, delim, eol }, config, e)
}

fn valid(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    let (f, config, e) = gen_file(&mut rng, ctx.thorough);
    let d = format!("{} records x {} columns, delimiter {:?}, header {}, cat {:?}, max_nbins {}", f.records.len(), e.cols.len(), f.delim,
                    config.csv_has_header, config.categorical_features, config.max_nbins);
    let r = match ctx.run("from_csv", &d, || Data::from_csv(&config, &f.text)) { Some(r) => r, None => return };
    match r {
        Err(m) => { ctx.violation("valid-rejected", format!("{} [{}]", m, d)); return; }
        Ok(data) => if let Err((s, m)) = compare(&data, &e) { ctx.violation(s, format!("{} [{}]", m, d)); return; }
    }
    // the other two entry points
    if rng.chance(0.2) {
        let dir = std::env::var("BBMON_SCRATCH").unwrap_or("/tmp".to_string());
        let path = format!("{}/c14-{}.csv", dir, std::process::id());
        std::fs::write(&path, &f.text).expect("HARNESS scratch");
        let r = guarded(|| (Data::from_csv_path(&config, &path), Data::from_csv_reader(&config, Slow(f.text.as_bytes()))));
        std::fs::remove_file(&path).ok();
        match r {
            Err(p) => { ctx.panic_violation("from_csv_path", &p, &d); return; }
            Ok((a, b)) => for x in vec![a, b] {
                match x {
                    Err(m) => { ctx.violation("valid-rejected", format!("{} [{}]", m, d)); return; }
                    Ok(data) => if let Err((s, m)) = compare(&data, &e) { ctx.violation(s, format!("{} [{}]", m, d)); return; }
                }
            },
        }
        ctx.count("files_by_path_and_reader", 1);
    }
    ctx.count("valid_files", 1);
    ctx.count("values_compared", (f.records.len() * e.cols.len()) as u64);
    ctx.observe(hash_u64(hash_bytes(f.text.as_bytes()), config.csv_has_header as u64));
    ctx.sample(|| d.clone());
}

/// Hands out a few bytes per read.
struct Slow<'a>(&'a [u8]);
impl<'a> std::io::Read for Slow<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let k = self.0.len().min(buf.len()).min(7);
        buf[..k].copy_from_slice(&self.0[..k]);
        self.0 = &self.0[k..];
        Ok(k)
    }
}

fn malformed(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    let (f, config, e) = gen_file(&mut rng, false);
    let (mut header, mut records) = (f.header.clone(), f.records.clone());
    let nc = e.cols.len();
    let i = rng.below(records.len());
    let col = rng.below(nc);
    let what = match rng.below(6) {
        0 => { // a record too long or too short; not the only line (its own length defines the shape)
            if records.len() + header.is_some() as usize == 1 { return; }
            if nc > 1 && rng.chance(0.5) { records[i].pop(); "short-record" } else { records[i].push("1".to_string()); "long-record" }
        }
        1 | 2 => {
            let bad = *rng.pick(&["abc", "", "1.2.3", "0x10", "1,5x", "--1", "1e", "e5", "one", "5%", "1_000", "NA", "?", "null", "1 2"]);
            if nc == 1 && bad.is_empty() { return; }
            records[i][col] = bad.to_string();
            "non-numeric"
        }
        3 => {
            let c = match (0..nc).find(|&c| e.cat[c]) { Some(c) => c, None => return };
            records[i][c] = rng.pick(&["-1", "0.5", "1.25", "-0.001", "3.0000002", "NaN", "-5e3", "inf", "-inf"]).to_string();
            "invalid-category"
        }
        4 => { records.clear(); "no-records" }
        _ => {
            match header.as_mut() { None => return, Some(h) => { if nc > 1 && rng.chance(0.5) { h.pop(); } else { h.push("extra".to_string()); } } }
            "ragged-header"
        }
    };
    let quoting = rng.chance(0.2);
    let text = render(&mut rng, &header, &records, f.delim, f.eol, quoting);
    let d = format!("{} at record {} column {}; {} records x {} columns, delimiter {:?}, header {}, cat {:?}", what, i, col, records.len(), nc, f.delim,
                    config.csv_has_header, config.categorical_features);
    match ctx.run("from_csv", &d, || Data::from_csv(&config, &text).map(|x| x.nexamples())) {
        None => {}
        Some(Ok(_)) => ctx.violation(&format!("{}-accepted", what), format!("no error [{}]", d)),
        Some(Err(m)) => {
            if m.is_empty() { ctx.violation("empty-error", format!("the error has no text [{}]", d)); return; }
            ctx.count(what, 1);
            ctx.observe(hash_bytes(text.as_bytes()));
            ctx.sample(|| format!("{} -> {}", d, m));
        }
    }
}

/// Arbitrary text and bytes: any outcome but a panic; what loads is rectangular.
fn garbage(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    let (f, config, _) = gen_file(&mut rng, false);
    let mut b: Vec<u8> = f.text.into_bytes();
    b.truncate(2000);
    let k = rng.range(1, 12);
    for _ in 0..k {
        if b.is_empty() { break; }
        let i = rng.below(b.len());
        match rng.below(5) {
            0 => { b.remove(i); }
            1 => b.insert(i, *rng.pick(&[b'"', b',', b';', b'\n', b'\r', b'-', b'.', b'e', b'9', 0u8, 0xff, b' '])),
            2 => b[i] = rng.below(256) as u8,
            3 => { let t = b.split_off(i); if rng.chance(0.5) { b = t; } }
            _ => { let j = rng.below(b.len()); b.swap(i, j); }
        }
    }
    let missing = rng.chance(0.02);
    let r = guarded(|| {
        if missing { return match Data::from_csv_path(&config, "/nonexistent/dir/file.csv") { Ok(_) => Ok(None), Err(e) => Err(e) }; }
        Data::from_csv_reader(&config, &b[..]).map(Some)
    });
    let d = || format!("{:?} {:?}", String::from_utf8_lossy(&b[..b.len().min(120)]), config.categorical_features);
    match r {
        Err(p) => { let s = d(); ctx.panic_violation("from_csv_reader", &p, &s) }
        Ok(Err(_)) => { ctx.count("garbage_rejected", 1); ctx.observe(hash_bytes(&b)); }
        Ok(Ok(None)) => ctx.violation("missing-file-accepted", "a file that does not exist was loaded".to_string()),
        Ok(Ok(Some(data))) => {
            ctx.count("garbage_loaded", 1);
            if std::str::from_utf8(&b).is_err() { let s = d(); ctx.violation("non-utf8-accepted", s); return; }
            for f in 0..=data.nfeatures() {
                if data.get_feature(f).len() != data.nexamples() || data.nexamples() == 0 {
                    let s = d();
                    ctx.violation("not-rectangular", format!("column {} has {} values, {} examples [{}]", f, data.get_feature(f).len(), data.nexamples(), s));
                    return;
                }
            }
            ctx.observe(hash_bytes(&b));
        }
    }
}

/// Columns set from memory, repeatedly.
fn columns(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    let nf = rng.range(1, 5);
    let n = rng.range(1, 80);
    let mut config = Config::new();
    config.max_nbins = *rng.pick(&[2usize, 4, 16, 255]);
    let mut data = Data::empty(&config, nf, n);
    let mut e = Expect { names: (0..=nf).map(|i| data.feat_name(i).to_string()).collect(), cols: vec![vec![0.0; n]; nf + 1], cat: vec![false; nf + 1], max_nbins: config.max_nbins };
    if let Err((s, m)) = compare(&data, &e) { ctx.violation(&format!("empty-{}", s), m); return; }
    let steps = rng.range(1, 14);
    let mut broken = vec![false; nf + 1];
    for _ in 0..steps {
        let f = rng.below(nf + 1);
        let cat = rng.chance(0.5);
        let ncat = *rng.pick(&[1usize, 2, 5, config.max_nbins, config.max_nbins + 1, 300]);
        let shift = *rng.pick(&[0.0f32, 5.0, -7.0]);
        let mut col: Vec<f32> = (0..n).map(|_| if cat { rng.below(ncat) as f32 } else { (rng.normal() * 10.0) as f32 + shift }).collect();
        let bad = cat && rng.chance(0.2);
        if bad { let i = rng.below(n); col[i] = *rng.pick(&[-1.0f32, 0.5, f32::NAN, f32::INFINITY]); }
        let d = format!("column {} of {} n={} categorical={} bad={}", f, nf, n, cat, bad);
        match ctx.run("set_feature_data", &d, || data.set_feature_data(f, &col, cat)) {
            None => return,
            Some(Ok(())) => {
                if bad { ctx.violation("invalid-category-accepted", d); return; }
                e.cols[f] = col; e.cat[f] = cat; broken[f] = false;
            }
            Some(Err(m)) => {
                if !bad { ctx.violation("valid-column-rejected", format!("{} [{}]", m, d)); return; }
                broken[f] = true; // its contents are unspecified until it is set again
            }
        }
        ctx.count("columns_set", 1);
        // a broken column must not disturb the others: compare with a stand-in
        let mut x = Expect { names: e.names.clone(), cols: e.cols.clone(), cat: e.cat.clone(), max_nbins: e.max_nbins };
        if broken.iter().any(|&b| b) {
            for f in 0..=nf { if broken[f] {
                for g in 0..=nf { if !broken[g] && (0..n).any(|i| !eq(data.get_feature(g)[i], x.cols[g][i])) {
                    ctx.violation("column-disturbed", format!("column {} changed when column {} was rejected", g, f)); return;
                } }
                x.cols[f].clear();
            } }
            continue;
        }
        if let Err((s, m)) = compare(&data, &x) { ctx.violation(&format!("set-{}", s), format!("{} [{}]", m, d)); return; }
    }
    ctx.observe(ctx.case_seed);
}

pub fn dispatch(ctx: &mut Ctx) {
    match ctx.case_index % 8 { 0 | 1 | 2 => valid(ctx), 3 | 4 => malformed(ctx), 5 | 6 => garbage(ctx), _ => columns(ctx) }
}

fn main() { run("C14", dispatch); }
