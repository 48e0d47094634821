//! Monitors that sit on the public `Objective` interface: they see every leaf the tree learner
//! creates, with the example set it assigns to that leaf, and every out-of-bag update.
use bitboost::config::Config;
use bitboost::data::Data;
use bitboost::dataset::Dataset;
use bitboost::objective::Objective;
use bitboost::tree::{Tree, TreeLearner, TreeLearnerContext};

/// An objective whose gradients are dictated by the harness; each leaf gets a unique id as value.
pub struct Synth {
    pub grads: Vec<f32>,
    pub bounds: (f32, f32),
    pub preds: Vec<f32>,
    pub next_id: u32,
    pub leaves: Vec<(f32, Vec<usize>)>,
    pub oob: Vec<(usize, f32)>,
    pub targets_len: Vec<usize>,
}

impl Synth {
    pub fn new(grads: Vec<f32>, bounds: (f32, f32)) -> Synth {
        let n = grads.len();
        Synth { grads, bounds, preds: vec![0.0; n], next_id: 1, leaves: Vec::new(), oob: Vec::new(), targets_len: Vec::new() }
    }
    pub fn reset_log(&mut self) { self.leaves.clear(); self.oob.clear(); self.next_id = 1; self.targets_len.clear(); }
}

impl Objective for Synth {
    fn name(&self) -> &'static str { "Synth" }
    fn gradients(&self) -> &[f32] { &self.grads }
    fn predictions(&self) -> &[f32] { &self.preds }
    fn bounds(&self) -> (f32, f32) { self.bounds }
    fn bias(&self) -> f32 { 0.0 }
    fn initialize(&mut self, _: &Config, _: &[f32]) {}
    fn update(&mut self, _: &[f32]) {}
    fn predict_leaf_value(&mut self, targets: &[f32], examples: &[usize]) -> f32 {
        let id = self.next_id as f32;
        self.next_id += 1;
        self.targets_len.push(targets.len());
        self.leaves.push((id, examples.to_vec()));
        id
    }
    fn update_out_of_bag_prediction(&mut self, i: usize, value: f32) { self.oob.push((i, value)); }
}

/// Wraps a real objective and logs the protocol the learner follows with it.
pub struct Recorder {
    pub inner: Box<dyn Objective>,
    pub iters: Vec<IterLog>,
    pub initialized: u32,
}

#[derive(Default, Clone)]
pub struct IterLog {
    pub preds_before: Vec<f32>,
    pub grads: Vec<f32>,
    pub bounds: (f32, f32),
    pub leaves: Vec<(f32, Vec<usize>)>,
    pub oob: Vec<(usize, f32)>,
}

impl Recorder {
    pub fn new(inner: Box<dyn Objective>) -> Recorder { Recorder { inner, iters: Vec::new(), initialized: 0 } }
}

impl Objective for Recorder {
    fn name(&self) -> &'static str { self.inner.name() }
    fn gradients(&self) -> &[f32] { self.inner.gradients() }
    fn predictions(&self) -> &[f32] { self.inner.predictions() }
    fn bounds(&self) -> (f32, f32) { self.inner.bounds() }
    fn bias(&self) -> f32 { self.inner.bias() }
    fn initialize(&mut self, config: &Config, targets: &[f32]) { self.initialized += 1; self.inner.initialize(config, targets); }
    fn update(&mut self, targets: &[f32]) {
        let mut log = IterLog::default();
        log.preds_before = self.inner.predictions().to_vec();
        self.inner.update(targets);
        log.grads = self.inner.gradients().to_vec();
        log.bounds = self.inner.bounds();
        self.iters.push(log);
    }
    fn predict_leaf_value(&mut self, targets: &[f32], examples: &[usize]) -> f32 {
        let v = self.inner.predict_leaf_value(targets, examples);
        if let Some(l) = self.iters.last_mut() { l.leaves.push((v, examples.to_vec())); }
        v
    }
    fn update_out_of_bag_prediction(&mut self, i: usize, value: f32) {
        self.inner.update_out_of_bag_prediction(i, value);
        if let Some(l) = self.iters.last_mut() { l.oob.push((i, value)); }
    }
}

/// Train one tree with dictated gradients on an already updated dataset.
pub fn train_tree(ctx: &mut TreeLearnerContext, dataset: &mut Dataset, obj: &mut Synth) -> Tree {
    obj.reset_log();
    let supercats = dataset.get_supercats().clone();
    TreeLearner::new(ctx, dataset, supercats, obj).train()
}

/// The in-bag examples, in local-index order.
pub fn bag(dataset: &Dataset) -> Vec<usize> {
    let mut v = Vec::new();
    dataset.active_examples_iter(|i, j| { debug_assert_eq!(i, v.len()); v.push(j); });
    v
}

/// A node of the tree as reconstructed from leaf ids and leaf example sets.
#[derive(Clone, Debug)]
pub struct Node {
    pub heap_id: usize,
    pub depth: usize,
    pub leaf: Option<usize>,             // index into `leaves`
    pub children: Option<(usize, usize)>, // indices into the node vector
    pub examples: Vec<usize>,            // global example indices, sorted
}

/// Reconstruct the tree from node values (unique leaf ids; internal nodes hold 0).
/// Returns None if the node values do not describe a proper binary tree.
pub fn read_tree(tree: &Tree, leaves: &[(f32, Vec<usize>)]) -> Result<Vec<Node>, String> {
    let nmax = tree.max_nnodes();
    let mut leaf_of = vec![None; nmax];
    for (k, (id, _)) in leaves.iter().enumerate() {
        let at: Vec<usize> = (0..nmax).filter(|&x| tree.node_value(x) == *id).collect();
        if at.len() != 1 { return Err(format!("leaf value {} is stored at {} tree nodes", id, at.len())); }
        leaf_of[at[0]] = Some(k);
    }
    let mut has_leaf = vec![false; nmax];
    for id in (0..nmax).rev() {
        let (l, r) = (tree.left_child(id), tree.right_child(id));
        has_leaf[id] = leaf_of[id].is_some() || (l < nmax && has_leaf[l]) || (r < nmax && has_leaf[r]);
    }
    fn build(tree: &Tree, id: usize, depth: usize, leaf_of: &[Option<usize>], has_leaf: &[bool],
             leaves: &[(f32, Vec<usize>)], out: &mut Vec<Node>) -> Result<usize, String> {
        let nmax = leaf_of.len();
        if id >= nmax || !has_leaf[id] { return Err(format!("node {} has no leaf below it", id)); }
        let me = out.len();
        out.push(Node { heap_id: id, depth, leaf: None, children: None, examples: Vec::new() });
        if let Some(k) = leaf_of[id] {
            let (l, r) = (tree.left_child(id), tree.right_child(id));
            if (l < nmax && has_leaf[l]) || (r < nmax && has_leaf[r]) {
                return Err(format!("leaf node {} has descendants", id));
            }
            out[me].leaf = Some(k);
            let mut ex = leaves[k].1.clone();
            ex.sort_unstable();
            out[me].examples = ex;
        } else {
            let l = build(tree, tree.left_child(id), depth + 1, leaf_of, has_leaf, leaves, out)?;
            let r = build(tree, tree.right_child(id), depth + 1, leaf_of, has_leaf, leaves, out)?;
            let mut ex = out[l].examples.clone();
            ex.extend_from_slice(&out[r].examples);
            ex.sort_unstable();
            out[me].children = Some((l, r));
            out[me].examples = ex;
        }
        Ok(me)
    }
    let mut out = Vec::new();
    build(tree, 0, 0, &leaf_of, &has_leaf, leaves, &mut out)?;
    Ok(out)
}

pub fn describe_data(data: &Data) -> String {
    (0..data.nfeatures()).map(|f| format!("{:?}/{}/{:?}", data.feat_type(f), data.feat_card(f), data.feat_limits(f)))
        .collect::<Vec<_>>().join(" ")
}
