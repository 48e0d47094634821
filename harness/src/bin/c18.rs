//! C18: prediction is a sum over trees of the leaf an example reaches, whatever the data set around it.
use bbmon::driver::{main as run, Ctx};
use bbmon::exact::close;
use bbmon::gen::*;
use bbmon::probe::*;
use bbmon::rng::{hash_u64, Rng};
use bbmon::session::*;
use bitboost::boost::Booster;
use bitboost::config::Config;
use bitboost::data::Data;
use bitboost::dataset::Dataset;
use bitboost::objective::objective_from_name;
use bitboost::tree::*;

fn data_of(t: &Table, config: &Config, rows: &[usize]) -> Data {
    let mut d = Data::empty(config, t.nfeat(), rows.len());
    for f in 0..t.nfeat() {
        let c: Vec<f32> = rows.iter().map(|&i| t.cols[f][i]).collect();
        d.set_feature_data(f, &c, t.cat[f]).expect("HARNESS column");
    }
    d
}

/// Re-predicts rows in other company: permuted, repeated, alone. `base[i]` is the prediction of row i.
fn company(ctx: &mut Ctx, rng: &mut Rng, t: &Table, config: &Config, base: &[f32], d: &str, predict: &dyn Fn(&Data) -> Vec<f32>) -> bool {
    let n = t.n;
    for round in 0..4 {
        let rows: Vec<usize> = match round {
            0 => { let mut r: Vec<usize> = (0..n).collect(); rng.shuffle(&mut r); r }
            1 => vec![rng.below(n)],
            2 => { let k = rng.range(1, 2 * n.min(200)); (0..k).map(|_| rng.below(n)).collect() }
            _ => { let i = rng.below(n); vec![i; rng.range(1, 70)] }
        };
        let data = data_of(t, config, &rows);
        let p = match ctx.run("predict", d, || predict(&data)) { Some(p) => p, None => return false };
        if p.len() != rows.len() { ctx.violation("length", format!("{} predictions for {} examples [{}]", p.len(), rows.len(), d)); return false; }
        for (j, &i) in rows.iter().enumerate() {
            if p[j].to_bits() != base[i].to_bits() {
                ctx.violation("depends-on-other-examples", format!("row {} predicted {} among all rows but {} as row {} of {} [{}]", i, base[i], p[j], j, rows.len(), d));
                return false;
            }
        }
        ctx.count("rows_repredicted", rows.len() as u64);
    }
    true
}

/// A tree written down by the harness, with its own evaluation.
struct Hand { tree: Tree, crits: Vec<Option<(SplitType, usize, f32)>>, values: Vec<f32>, supercats: Vec<Vec<u32>>, shrink: f32, bias: f32 }

impl Hand {
    fn leaf(&self, t: &Table, i: usize) -> usize {
        let mut id = 0;
        loop {
            let left = match &self.crits[id] {
                None => return id,
                Some((SplitType::NumLt, f, v)) => t.cols[*f][i] < *v,
                Some((SplitType::LoCardCatEq, f, v)) => t.cols[*f][i] == *v,
                Some((SplitType::HiCardCatLt, f, v)) => { let c = t.cols[*f][i] as usize; c < self.supercats[*f].len() && self.supercats[*f][c] <= *v as u32 }
                _ => panic!("HARNESS crit"),
            };
            id = 2 * id + if left { 1 } else { 2 };
        }
    }
    fn value(&self, t: &Table, i: usize) -> f64 { self.shrink as f64 * (self.values[self.leaf(t, i)] as f64 + self.bias as f64) }
}

/// `exact`: all values are small multiples of 1/16, so that any sum of them is exact.
fn gen_hand(rng: &mut Rng, t: &Table, exact: bool) -> Hand {
    let depth = rng.range(1, 6);
    let supercats: Vec<Vec<u32>> = (0..t.nfeat()).map(|f| if t.kinds[f] == "hicard" {
        let len = if rng.below(20) == 0 && !tiny() { rng.range(1000, 80_000) } else { rng.range(3, 60) }; let k = if rng.below(10) == 0 { len.min(rng.range(2, 700)) } else { rng.range(2, len.min(9)) } as u32; (0..len).map(|_| rng.below(k as usize) as u32).collect()
    } else { vec![] }).collect();
    let mut tree = Tree::new(depth, supercats.clone());
    let nmax = tree.max_nnodes();
    let mut crits = vec![None; nmax];
    let mut values = vec![0.0f32; nmax];
    let p = *rng.pick(&[1.0, 0.8, 0.5]);
    let mut stack = vec![(0usize, 0usize)];
    let mut order: Vec<(usize, SplitType, usize, f32)> = Vec::new();
    while let Some((id, dep)) = stack.pop() {
        if dep < depth && (id == 0 || rng.chance(p)) {
            let f = rng.below(t.nfeat());
            let i = rng.below(t.n);
            let (ty, v) = match t.kinds[f] {
                "hicard" => (SplitType::HiCardCatLt, if rng.chance(0.7) { rng.below(supercats[f].len().min(9)) } else { *rng.pick(&supercats[f]) as usize } as f32),
                "locard" => (SplitType::LoCardCatEq, if rng.chance(0.8) { t.cols[f][i] } else { 1234.0 }),
                _ => (SplitType::NumLt, if rng.chance(0.6) { t.cols[f][i] } else { rng.normal() as f32 }),
            };
            crits[id] = Some((ty.clone(), f, v));
            order.push((id, ty, f, v));
            stack.push((2 * id + 1, dep + 1));
            stack.push((2 * id + 2, dep + 1));
        } else {
            values[id] = if exact { rng.below(41) as f32 - 20.0 } else { (rng.normal() * *rng.pick(&[1.0, 100.0, 0.001])) as f32 };
            if rng.chance(0.05) { values[id] = 0.0; } else { tree.set_value(id, values[id]); }   // values start at 0
        }
    }
    for (id, ty, f, v) in order { tree.split_node(id, SplitCrit { split_type: ty, feature_id: f, split_value: v }); }
    let mut shrink = 1.0f32;
    for _ in 0..rng.below(3) { let s = if exact { *rng.pick(&[0.5f32, 0.25, 2.0, 1.0]) } else { *rng.pick(&[0.5f32, 0.1, 2.0, 1.0]) }; tree.set_shrinkage(s); shrink *= s; }
    let mut bias = 0.0;
    for _ in 0..rng.below(3) { bias = if exact { rng.below(9) as f32 - 4.0 } else { (rng.normal() * 3.0) as f32 }; tree.set_bias(bias); }
    Hand { tree, crits, values, supercats, shrink, bias }
}

/// A prediction table with columns the hand-made trees can test.
fn gen_rows(rng: &mut Rng) -> Table {
    let n = gen_n_wide(rng, 1, 600);
    let nf = rng.range(1, 5);
    let mut t = Table { n, cols: vec![], cat: vec![], target: vec![0.0; n], kinds: vec![] };
    for _ in 0..nf {
        match rng.below(3) {
            0 => { t.kinds.push("locard"); t.cat.push(true); let k = rng.range(1, 20); t.cols.push((0..n).map(|_| rng.below(k) as f32).collect()); }
            1 => { t.kinds.push("hicard"); t.cat.push(true); let k = *rng.pick(&[10usize, 60, 61, 300, 1200, 9000, 100_000, 16_000_000]); t.cols.push((0..n).map(|_| rng.below(k) as f32).collect()); }
            _ => { t.kinds.push("num"); t.cat.push(false); let k = rng.below(3); t.cols.push((0..n).map(|_| match k { 0 => rng.normal() as f32, 1 => rng.below(5) as f32, _ => *rng.pick(&[0.0f32, -0.0, 1e30, -1e30, f32::MAX, f32::MIN_POSITIVE]) }).collect()); }
        }
    }
    t
}

fn hand_made(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    let t = gen_rows(&mut rng);
    let config = Config::new();
    let all: Vec<usize> = (0..t.n).collect();
    let data = data_of(&t, &config, &all);
    let k = if rng.below(100) == 0 && t.n < 2000 && !tiny() { rng.range(20, 300) } else { rng.range(0, 6) };
    let exact = rng.chance(0.5);
    let hands: Vec<Hand> = (0..k).map(|_| gen_hand(&mut rng, &t, exact)).collect();
    let bias = if rng.chance(0.15) { 0.0 } else if exact { rng.below(200) as f32 / 4.0 - 25.0 } else if rng.chance(0.7) { (rng.normal() * 10.0) as f32 } else { 0.0 };
    let d = format!("{} hand-made trees, {} rows of {:?}", k, t.n, t.kinds);
    let mut unseen = 0u64;
    for (j, h) in hands.iter().enumerate() {
        let p = match ctx.run("tree-predict", &d, || h.tree.predict(&data)) { Some(p) => p, None => return };
        for i in 0..t.n {
            let want = h.value(&t, i);
            if !close(p[i] as f64, want, 1e-6, 1e-6 * (h.bias.abs() as f64 + 1e-30) * h.shrink as f64) {
                let row: Vec<f32> = (0..t.nfeat()).map(|f| t.cols[f][i]).collect();
                ctx.violation("leaf", format!("tree {} row {} {:?}: prediction {} instead of {} (leaf {}) [{}]", j, i, row, p[i], want, h.leaf(&t, i), d));
                return;
            }
            for f in 0..t.nfeat() { if t.kinds[f] == "hicard" && t.cols[f][i] as usize >= h.supercats[f].len() { unseen += 1; } }
        }
        if !entry_points(ctx, &mut rng, &h.tree, &data, &p, &d) { return; }
        // a copy predicts the same
        let c = h.tree.clone();
        if c.predict(&data).iter().zip(&p).any(|(a, b)| a.to_bits() != b.to_bits()) { ctx.violation("clone", format!("a copy of tree {} predicts otherwise [{}]", j, d)); return; }
        // counts of nodes
        let ni = h.crits.iter().filter(|c| c.is_some()).count();
        if h.tree.ninternal() != ni || h.tree.nleafs() != ni + 1 || h.tree.nnodes() != 2 * ni + 1 { ctx.violation("node-count", format!("{} splits, tree reports {} internal {} leaves {} nodes", ni, h.tree.ninternal(), h.tree.nleafs(), h.tree.nnodes())); return; }
    }
    let mut m = AdditiveTree::new();
    if rng.chance(0.3) { m.set_bias(77.0); m.set_bias(bias); } else if bias != 0.0 { m.set_bias(bias); }   // a new model's bias is 0
    for h in &hands { m.push_tree(h.tree.clone()); }
    let p = match ctx.run("predict", &d, || m.predict(&data)) { Some(p) => p, None => return };
    for i in 0..t.n {
        let (mut want, mut mag) = (bias as f64, bias.abs() as f64);
        for h in &hands { let v = h.value(&t, i); want += v; mag += v.abs(); }
        if exact && p[i] as f64 != want { ctx.violation("exact-sum", format!("row {}: prediction {} instead of {}, no rounding involved [{}]", i, p[i], want, d)); return; }
        if !((p[i] as f64 - want).abs() <= 1e-6 * mag * (k as f64 + 1.0) + 1e-30) { ctx.violation("sum", format!("row {}: prediction {} instead of {} [{}]", i, p[i], want, d)); return; }
    }
    if !model_entry_points(ctx, &mut rng, &m, &data, &p, &d) { return; }
    if !company(ctx, &mut rng, &t, &config, &p, &d, &|x| m.predict(x)) { return; }
    // adding a tree adds exactly that tree's values
    if k > 0 {
        let mut m2 = m.clone();
        m2.push_tree(hands[0].tree.clone());
        let p2 = m2.predict(&data);
        for i in 0..t.n {
            let want = p[i] + hands[0].tree.predict_single(&data, i);
            if !close(p2[i] as f64, want as f64, 1e-6, 1e-6 * p[i].abs() as f64) { ctx.violation("push-tree", format!("row {}: {} plus one tree gives {} instead of {} [{}]", i, p[i], p2[i], want, d)); return; }
        }
        if m.predict(&data).iter().zip(&p).any(|(a, b)| a.to_bits() != b.to_bits()) { ctx.violation("clone-shares", format!("extending a copy changed the model [{}]", d)); return; }
    }
    ctx.count("unseen_categories", unseen);
    ctx.count("hand_made_trees", k as u64);
    if k > 0 { ctx.observe(ctx.case_seed); } else { ctx.observe_trivial(); }
    ctx.sample(|| d.clone());
}

fn entry_points(ctx: &mut Ctx, rng: &mut Rng, tree: &Tree, data: &Data, p: &[f32], d: &str) -> bool {
    let n = data.nexamples();
    let mut b: Vec<f32> = (0..n).map(|_| *rng.pick(&[0.0f32, 1e9, f32::NAN, -3.5])).collect();
    tree.predict_buf(data, &mut b);
    let mut a: Vec<f32> = vec![f32::NAN; n];
    tree.predict_and(data, &mut a, |v, x| *x = v);
    for i in 0..n {
        let s = tree.predict_single(data, i);
        if s.to_bits() != p[i].to_bits() || b[i].to_bits() != p[i].to_bits() || a[i].to_bits() != p[i].to_bits() {
            ctx.violation("entry-points", format!("row {}: predict {} predict_buf {} predict_and {} predict_single {} [{}]", i, p[i], b[i], a[i], s, d));
            return false;
        }
    }
    true
}

fn model_entry_points(ctx: &mut Ctx, rng: &mut Rng, m: &AdditiveTree, data: &Data, p: &[f32], d: &str) -> bool {
    let n = data.nexamples();
    let mut b: Vec<f32> = (0..n).map(|_| *rng.pick(&[0.0f32, 1e9, f32::NAN, -3.5])).collect();
    m.predict_buf(data, &mut b);
    let again = m.predict(data);
    for i in 0..n {
        if b[i].to_bits() != p[i].to_bits() || again[i].to_bits() != p[i].to_bits() {
            ctx.violation("entry-points", format!("row {}: predict {} predict_buf {} predict again {} [{}]", i, p[i], b[i], again[i], d));
            return false;
        }
    }
    true
}

/// Rows for prediction: training rows, mixtures, values outside the range, unseen categories.
fn new_rows(rng: &mut Rng, t: &Table) -> Table {
    let m = if rng.below(400) == 0 && !tiny() { rng.range(4000, 80_000) } else { rng.range(1, 200) };
    let mut p = Table { n: m, cols: vec![], cat: t.cat.clone(), target: vec![0.0; m], kinds: t.kinds.clone() };
    for f in 0..t.nfeat() {
        let hi = t.cols[f].iter().cloned().fold(f32::MIN, f32::max);
        p.cols.push((0..m).map(|_| {
            if rng.chance(0.6) { t.cols[f][rng.below(t.n)] }
            else if t.cat[f] { *rng.pick(&[hi + 1.0, hi + 17.0, 65536.0, 16_000_000.0, 0.0]) }
            else { *rng.pick(&[hi + 1.0, -1e30, 1e30, 0.0, hi]) }
        }).collect());
    }
    p
}

fn trained(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    let n = gen_n_wide(&mut rng, 8, 1500);
    let mut k = gen_knobs(&mut rng, n);
    k.objective = *rng.pick(&["l2", "l1", "huber", "binary"]);
    if rng.below(60) == 0 && n < 300 && !tiny() { k.niterations = rng.range(60, 300); k.max_tree_depth = k.max_tree_depth.min(4); }
    let mut t = gen_session_table(&mut rng, &k, n, true);
    t.target = gen_table(&mut rng, &TableOpts { n, nfeat: 1, locard: false, hicard: false, numeric: true, constants: false, max_nbins: 4, target: target_for(k.objective), tame: true }).target;
    if nuseful(&t) == 0 || t.target.iter().all(|&v| v == t.target[0]) { return; }
    if (nuseful(&t) as f32 * k.feature_fraction).round() < 1.0 { k.feature_fraction = 1.0; }
    let config = k.to_config();
    let d = format!("{} | {:?}", t.describe(), k);
    let data = t.to_data(&config);
    let mut o = objective_from_name(k.objective).unwrap();
    let model = match ctx.run("boost", &d, || Booster::new(&config, &data, o.as_mut(), &[]).train()) { Some(m) => m, None => return };
    // the model trained on k trees, tree by tree: bias of zero trees plus differences
    let rows = new_rows(&mut rng, &t);
    let all: Vec<usize> = (0..rows.n).collect();
    let rdata = data_of(&rows, &config, &all);
    let p = match ctx.run("predict", &d, || model.predict(&rdata)) { Some(p) => p, None => return };
    if p.iter().any(|v| !v.is_finite()) { ctx.violation("not-finite", d.clone()); return; }
    if !model_entry_points(ctx, &mut rng, &model, &rdata, &p, &d) { return; }
    if !company(ctx, &mut rng, &rows, &config, &p, &d, &|x| model.predict(x)) { return; }
    // predictions on the training data come first or last: no influence
    let tr = model.predict(&data);
    if model.predict(&rdata).iter().zip(&p).any(|(a, b)| a.to_bits() != b.to_bits()) { ctx.violation("earlier-predictions", d.clone()); return; }
    let trows: Vec<usize> = (0..n).collect();
    let again = model.predict(&data_of(&t, &config, &trows));
    if again.iter().zip(&tr).any(|(a, b)| a.to_bits() != b.to_bits()) { ctx.violation("target-influences-prediction", d.clone()); return; }
    ctx.count("trained_models", 1);
    ctx.observe(ctx.case_seed);
    ctx.sample(|| d);
}

/// One trained tree: a category beyond those of training goes right at category splits; the rest
/// is decided by the tests the tree stores, told from single-feature probes.
fn unseen(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    let n = gen_n(&mut rng, 30, 1500);
    let mut k = gen_knobs(&mut rng, n);
    k.max_tree_depth = 1; k.example_fraction = 1.0; k.feature_fraction = 1.0; k.min_gain = 1e-6; k.min_examples_leaf = 1; k.reg_lambda = 0.0;
    let hicard = rng.chance(0.6);
    let t = gen_table(&mut rng, &TableOpts { n, nfeat: 1, locard: !hicard, hicard, numeric: false, constants: false, max_nbins: k.max_nbins, target: Target::Regression, tame: true });
    if nuseful(&t) == 0 { return; }
    let config = k.to_config();
    let d = format!("{} | {:?}", t.describe(), k);
    let data = t.to_data(&config);
    let (grads, bounds, _) = gen_grads(&mut rng, &t, k.discr_nbits);
    let mut synth = Synth::new(grads, bounds);
    let tree = match ctx.run("train", &d, || {
        let mut ds = Dataset::new(&config, &data);
        ds.update(&config, &synth.grads, bounds);
        let mut c = TreeLearnerContext::new(&config, &data);
        train_tree(&mut c, &mut ds, &mut synth)
    }) { Some(t) => t, None => return };
    if synth.leaves.len() != 2 { ctx.observe_trivial(); return; }
    let right = tree.node_value(2);
    let hi = t.cols[0].iter().cloned().fold(0.0f32, f32::max);
    let vals = [hi + 1.0, hi + 2.0, hi * 3.0 + 100.0, 1e6, 16_777_216.0];
    let mut pd = Data::empty(&config, 1, vals.len());
    pd.set_feature_data(0, &vals, true).expect("HARNESS column");
    let p = match ctx.run("predict-unseen", &d, || tree.predict(&pd)) { Some(p) => p, None => return };
    for i in 0..vals.len() {
        if p[i] != right { ctx.violation("unseen-category", format!("category {} (training has up to {}) gets {} instead of the right leaf's {} [{}]", vals[i], hi, p[i], right, d)); return; }
    }
    ctx.count("unseen_routed_right", vals.len() as u64);
    ctx.observe(hash_u64(ctx.case_seed, 3));
}

pub fn dispatch(ctx: &mut Ctx) {
    match ctx.case_index % 5 { 0 | 1 => hand_made(ctx), 2 | 3 => trained(ctx), _ => unseen(ctx) }
}

fn main() { run("C18", dispatch); }
