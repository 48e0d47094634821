//! Workload generation: tables with every feature kind, configurations with every knob.
use crate::rng::Rng;
use bitboost::config::Config;
use bitboost::data::Data;

#[derive(Clone, Debug)]
pub struct Table {
    pub n: usize,
    pub cols: Vec<Vec<f32>>,
    pub cat: Vec<bool>,
    pub target: Vec<f32>,
    pub kinds: Vec<&'static str>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Target { Regression, Binary, Levels }

#[derive(Clone, Debug)]
pub struct TableOpts {
    pub n: usize,
    pub nfeat: usize,
    pub locard: bool,
    pub hicard: bool,
    pub numeric: bool,
    pub constants: bool,
    pub max_nbins: usize,
    pub target: Target,
    /// restrict numeric values to a moderate range around zero
    pub tame: bool,
}

/// Small cases, for executions that are watched at a thousandfold slowdown (Miri).
pub fn tiny() -> bool {
    static T: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *T.get_or_init(|| std::env::var_os("BBMON_TINY").is_some())
}

/// Number of examples, with emphasis on block and word boundaries.
pub fn gen_n(rng: &mut Rng, lo: usize, hi: usize) -> usize {
    const B: [usize; 26] = [1, 2, 3, 5, 8, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513,
        1023, 1025, 4095, 4096, 4097];
    if tiny() { let hi = hi.min(lo + 60); return if rng.chance(0.3) { hi.min(*rng.pick(&[31usize, 32, 33])).max(lo) } else { rng.range(lo, hi) }; }
    for _ in 0..20 {
        let n = match rng.below(8) {
            0 | 1 => *rng.pick(&B),
            2 => rng.range(lo, hi.min(lo + 40)),
            3 => 256 * rng.range(1, 40) + *rng.pick(&[0usize, 0, 1, 255, 128, 31]),
            4 | 5 => rng.range(lo, hi.min(800.max(lo))),
            _ => rng.range(lo, hi),
        };
        if n >= lo && n <= hi { return n; }
    }
    rng.range(lo, hi)
}

/// Like `gen_n`, but once in a while a large data set: more than 65536 examples, more blocks than a
/// fresh store holds.
pub fn gen_n_wide(rng: &mut Rng, lo: usize, hi: usize) -> usize {
    let n = gen_n(rng, lo, hi);
    if !tiny() && rng.below(400) == 0 { return rng.range(65_537, 150_000); }
    n
}

/// Does the column hold two different values (missing values aside)?
pub fn is_useful(c: &[f32]) -> bool {
    let lo = c.iter().cloned().fold(f32::INFINITY, f32::min);
    let hi = c.iter().cloned().fold(f32::NEG_INFINITY, f32::max);
    lo < hi
}

fn numeric_col(rng: &mut Rng, n: usize, tame: bool) -> (Vec<f32>, &'static str) {
    let k = if tame { rng.below(6) } else { rng.below(12) };
    match k {
        0 => ((0..n).map(|_| rng.f32()).collect(), "uniform"),
        1 => ((0..n).map(|_| rng.normal() as f32).collect(), "normal"),
        2 => { let d = rng.range(2, 9); ((0..n).map(|_| rng.below(d) as f32 - 3.0).collect(), "few-values") }
        3 => { let d = rng.range(2, 2000); ((0..n).map(|_| rng.below(d) as f32).collect(), "integers") }
        4 => ((0..n).map(|i| i as f32 - n as f32 / 2.0).collect(), "ramp"),
        5 => ((0..n).map(|_| if rng.chance(0.9) { 0.0 } else { rng.normal() as f32 }).collect(), "mostly-zero"),
        6 => ((0..n).map(|_| (rng.normal() * 3.0).exp() as f32).collect(), "lognormal"),
        7 => { let off = *rng.pick(&[1.0e3f32, -1.0e4, 2.5e5]); ((0..n).map(|_| off + rng.f32() * 10.0).collect(), "offset") }
        8 => ((0..n).map(|_| rng.f32() * 1.0e-5).collect(), "tiny"),
        9 => {
            let p = *rng.pick(&[0.02, 0.2, 0.6, 0.97]);
            let d = *rng.pick(&[3usize, 50, 100_000]);
            ((0..n).map(|_| if rng.chance(p) { f32::NAN } else { rng.below(d) as f32 - 1.0 }).collect(), "missing")
        }
        10 => {
            // values within a few units in the last place of multiples of 1/512 of the range: where
            // computations of the place of a value that round differently disagree
            let (lo, width) = (*rng.pick(&[0.0f32, -1.0, 0.3, -7.7, 1.0e3]) * rng.f32(), 0.1 + rng.f32() * 100.0);
            let hi = lo + width;
            let delta = (hi - lo) / 512.0;
            let m = *rng.pick(&[3usize, 20, 512]);
            let js: Vec<usize> = (0..m).map(|_| rng.below(513)).collect();
            let mut c: Vec<f32> = (0..n).map(|_| {
                let v = lo + *rng.pick(&js) as f32 * delta;
                let d = rng.below(5) as i32 - 2;
                let v = if v == 0.0 { v } else { f32::from_bits((v.to_bits() as i32 + d) as u32) };
                v.max(lo).min(hi)
            }).collect();
            if n >= 2 { c[rng.below(n / 2)] = lo; let i = n / 2 + rng.below(n - n / 2); c[i] = hi; }
            (c, "bin-edges")
        }
        _ => ((0..n).map(|_| ((rng.f32() - 0.5) * 2.0e6).round()).collect(), "wide"),
    }
}

pub fn gen_table(rng: &mut Rng, o: &TableOpts) -> Table {
    let n = o.n;
    let mut cols = Vec::new();
    let mut cat = Vec::new();
    let mut kinds = Vec::new();
    let mut kinds_allowed: Vec<u8> = Vec::new();
    if o.locard { kinds_allowed.extend_from_slice(&[0, 0, 1]); }
    if o.hicard { kinds_allowed.extend_from_slice(&[2, 2]); }
    if o.numeric { kinds_allowed.extend_from_slice(&[3, 3, 3]); }
    assert!(!kinds_allowed.is_empty());
    for f in 0..o.nfeat {
        // the first feature is never constant, so that something is always learnable
        if o.constants && f > 0 && rng.chance(0.08) {
            if rng.chance(0.5) { cols.push(vec![0.0; n]); cat.push(true); kinds.push("const-cat"); }
            else { let v = *rng.pick(&[0.0f32, 3.25, -17.0]); cols.push(vec![v; n]); cat.push(false); kinds.push("const-num"); }
            continue;
        }
        match *rng.pick(&kinds_allowed) {
            0 => {
                let k = rng.range(2, o.max_nbins.max(2));
                let skew = rng.chance(0.3);
                let c = (0..n).map(|_| { let mut v = rng.below(k); if skew { v = v.min(rng.below(k)); } v as f32 }).collect();
                cols.push(c); cat.push(true); kinds.push("locard");
            }
            1 => {
                let p = *rng.pick(&[0.5, 0.1, 0.9, 0.02]);
                cols.push((0..n).map(|_| if rng.chance(p) { 1.0 } else { 0.0 }).collect()); cat.push(true); kinds.push("two-cat");
            }
            2 => {
                let k = if !tiny() && rng.below(40) == 0 { *rng.pick(&[4097usize, 20_000, 65_536, 65_537, 100_000]) + rng.below(5) } else { rng.range(o.max_nbins + 1, (o.max_nbins + 1) * 8 + 20) };
                let mut c: Vec<f32> = (0..n).map(|_| rng.below(k) as f32).collect();
                // make sure the cardinality really exceeds max_nbins
                let i = rng.below(n); c[i] = (k - 1).max(o.max_nbins) as f32;
                cols.push(c); cat.push(true); kinds.push("hicard");
            }
            _ => { let (c, k) = numeric_col(rng, n, o.tame); cols.push(c); cat.push(false); kinds.push(k); }
        }
    }
    let w: Vec<f64> = (0..o.nfeat).map(|_| rng.normal()).collect();
    let noise = *rng.pick(&[0.0, 0.1, 1.0]);
    let raw: Vec<f64> = (0..n).map(|i| {
        let mut s = 0.0;
        for f in 0..o.nfeat {
            let v = if cols[f][i].is_nan() { 2.0 } else { cols[f][i] as f64 };
            let z = if cat[f] { (((v as u64).wrapping_mul(2654435761) >> 7) % 7) as f64 - 3.0 } else { (v * 3.0).sin() };
            s += w[f] * z;
        }
        s + noise * rng.normal()
    }).collect();
    let target: Vec<f32> = match o.target {
        Target::Regression => {
            let (sc, off) = if o.tame { (1.0, 0.0) } else { (*rng.pick(&[1.0, 100.0, 0.01]), *rng.pick(&[0.0, 0.0, 50.0, -1000.0])) };
            raw.iter().map(|&x| (x * sc + off) as f32).collect()
        }
        Target::Levels => raw.iter().map(|&x| (x.round() as i32).rem_euclid(5) as f32).collect(),
        Target::Binary => {
            let mut s = raw.clone(); s.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let q = s[((n as f64) * *rng.pick(&[0.5, 0.3, 0.8])) as usize % n];
            let mut t: Vec<f32> = raw.iter().map(|&x| if x > q { 1.0 } else { 0.0 }).collect();
            // both classes present
            if n >= 2 {
                let i = rng.below(n); t[i] = 1.0;
                let j = (i + 1 + rng.below(n - 1)) % n; t[j] = 0.0;
            }
            t
        }
    };
    Table { n, cols, cat, target, kinds }
}

impl Table {
    pub fn nfeat(&self) -> usize { self.cols.len() }
    pub fn to_data(&self, config: &Config) -> Data {
        let mut d = Data::empty(config, self.nfeat(), self.n);
        for f in 0..self.nfeat() { d.set_feature_data(f, &self.cols[f], self.cat[f]).unwrap(); }
        d.set_feature_data(self.nfeat(), &self.target, false).unwrap();
        d
    }
    pub fn cat_ids(&self) -> Vec<usize> { (0..self.nfeat()).filter(|&f| self.cat[f]).collect() }
    pub fn to_csv(&self, header: bool, delim: char) -> String {
        let mut s = String::new();
        if header {
            for f in 0..self.nfeat() { s += &format!("col{}{}", f, delim); }
            s += "target\n";
        }
        for i in 0..self.n {
            for f in 0..self.nfeat() { s += &format!("{}{}", self.cols[f][i], delim); }
            s += &format!("{}\n", self.target[i]);
        }
        s
    }
    pub fn fingerprint(&self) -> u64 {
        let mut h = self.n as u64;
        for c in self.cols.iter().chain(std::iter::once(&self.target)) {
            for &v in c { h = crate::rng::hash_u64(h, v.to_bits() as u64); }
        }
        h
    }
    pub fn describe(&self) -> String { format!("n={} features={:?}", self.n, self.kinds) }
}

/// A cloneable set of the knobs the harness varies.
#[derive(Clone, Debug)]
pub struct Knobs {
    pub objective: &'static str,
    pub niterations: usize,
    pub learning_rate: f32,
    pub reg_lambda: f32,
    pub min_examples_leaf: u32,
    pub min_gain: f32,
    pub huber_alpha: f32,
    pub max_nbins: usize,
    pub discr_nbits: usize,
    pub max_tree_depth: usize,
    pub compression_threshold: f32,
    pub binary_gradient_bound: f32,
    pub random_seed: u64,
    pub feature_fraction: f32,
    pub example_fraction: f32,
    pub sample_freq: usize,
}

impl Default for Knobs {
    fn default() -> Knobs {
        Knobs { objective: "l2", niterations: 5, learning_rate: 1.0, reg_lambda: 0.0, min_examples_leaf: 1, min_gain: 1e-6,
                huber_alpha: 0.95, max_nbins: 16, discr_nbits: 4, max_tree_depth: 6, compression_threshold: 0.5,
                binary_gradient_bound: 1.25, random_seed: 1, feature_fraction: 1.0, example_fraction: 1.0, sample_freq: 1 }
    }
}

impl Knobs {
    pub fn to_config(&self) -> Config {
        let mut c = Config::new();
        c.objective = self.objective.to_string();
        c.niterations = self.niterations;
        c.learning_rate = self.learning_rate;
        c.reg_lambda = self.reg_lambda;
        c.min_examples_leaf = self.min_examples_leaf;
        c.min_gain = self.min_gain;
        c.huber_alpha = self.huber_alpha;
        c.max_nbins = self.max_nbins;
        c.discr_nbits = self.discr_nbits;
        c.max_tree_depth = self.max_tree_depth;
        c.compression_threshold = self.compression_threshold;
        c.binary_gradient_bound = self.binary_gradient_bound;
        c.random_seed = self.random_seed;
        c.feature_fraction = self.feature_fraction;
        c.example_fraction = self.example_fraction;
        c.sample_freq = self.sample_freq;
        c
    }
    pub fn args(&self) -> Vec<String> {
        vec![
            format!("objective={}", self.objective), format!("niterations={}", self.niterations),
            format!("learning_rate={}", self.learning_rate), format!("reg_lambda={}", self.reg_lambda),
            format!("min_examples_leaf={}", self.min_examples_leaf), format!("min_gain={}", self.min_gain),
            format!("huber_alpha={}", self.huber_alpha), format!("max_nbins={}", self.max_nbins),
            format!("discr_nbits={}", self.discr_nbits), format!("max_tree_depth={}", self.max_tree_depth),
            format!("compression_threshold={}", self.compression_threshold),
            format!("binary_gradient_bound={}", self.binary_gradient_bound), format!("random_seed={}", self.random_seed),
            format!("feature_fraction={}", self.feature_fraction), format!("example_fraction={}", self.example_fraction),
            format!("sample_freq={}", self.sample_freq),
        ]
    }
}

/// Random knobs; `n` is the number of examples, so that the bag is never empty.
pub fn gen_knobs(rng: &mut Rng, n: usize) -> Knobs {
    let mut k = Knobs::default();
    k.max_nbins = *rng.pick(&[2usize, 3, 4, 7, 8, 16, 16, 16, 32, 63, 255]);
    k.discr_nbits = *rng.pick(&[1usize, 2, 4, 8]);
    k.max_tree_depth = rng.range(1, 7);
    k.niterations = rng.range(1, 5);
    k.learning_rate = *rng.pick(&[1.0f32, 0.5, 0.1, 0.3]);
    k.reg_lambda = *rng.pick(&[0.0f32, 0.0, 1.0, 10.0, 0.1]);
    if rng.chance(0.04) { k.reg_lambda = *rng.pick(&[1.0e3f32, 1.0e6, 1.0e-3, 137.5]); }
    k.min_examples_leaf = *rng.pick(&[1u32, 1, 1, 2, 3, 5, 20]);
    if rng.chance(0.03) { k.min_examples_leaf = 0; }
    k.min_gain = *rng.pick(&[1e-6f32, 1e-6, 1e-3, 0.1, 1.0]);
    if rng.chance(0.04) { k.min_gain = *rng.pick(&[0.0f32, -0.5, -1.0e3]); }
    k.compression_threshold = *rng.pick(&[0.5f32, 0.5, 0.0, 0.1, 0.25, 0.9, 1.0]);
    k.random_seed = if rng.chance(0.2) { *rng.pick(&[0u64, 0, 1, u64::MAX, 1 << 40, 1 << 32, u32::MAX as u64]) } else { rng.u64() % 1000 };
    k.feature_fraction = *rng.pick(&[1.0f32, 1.0, 1.0, 0.5, 0.75]);
    k.example_fraction = *rng.pick(&[1.0f32, 1.0, 1.0, 0.5, 0.8, 0.25, 0.99, 0.1, 0.02]);
    if (n as f32 * k.example_fraction).round() < 1.0 { k.example_fraction = 1.0; }
    k.sample_freq = *rng.pick(&[1usize, 1, 1, 2, 3]);
    if rng.chance(0.06) { k.sample_freq = *rng.pick(&[4usize, 5, 10, 50]); }
    k.huber_alpha = *rng.pick(&[0.95f32, 0.5, 0.9]);
    k.binary_gradient_bound = *rng.pick(&[1.25f32, 2.0, 0.75]);
    if rng.chance(0.02) { k.max_nbins = *rng.pick(&[1usize, 256, 257, 300, 600, 1000]); }
    if rng.chance(0.02) { k.max_tree_depth = rng.range(8, 12); }
    if tiny() { k.max_nbins = k.max_nbins.min(8); k.max_tree_depth = k.max_tree_depth.min(3); k.niterations = k.niterations.min(2); }
    k
}

pub const OBJECTIVES: [&str; 5] = ["l2", "l1", "huber", "binary", "hinge"];

pub fn target_for(objective: &str) -> Target {
    match objective { "binary" | "hinge" => Target::Binary, _ => Target::Regression }
}
