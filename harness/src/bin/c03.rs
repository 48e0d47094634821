//! C03: greedy optimality of every split on the discretized gradients, and admissible leaves.
use bbmon::driver::{main as run, Ctx};
use bbmon::exact::linproj;
use bbmon::probe::*;
use bbmon::rng::hash_u64;
use bbmon::session::*;

fn loss(g: f64, n: f64, lambda: f64) -> f64 { -0.5 * g * g / (n + lambda) }

/// True when a node's loss is computed without rounding by any reasonable formula: the gradient sum is
/// a small multiple of 1/2 and the divisor a power of two (or the sum is zero).
fn exact_loss(g: f64, n: f64, lambda: f64) -> bool {
    let d = n + lambda;
    g == 0.0 || (g.abs() <= 500.0 && (2.0 * g).fract() == 0.0 && d.fract() == 0.0 && d >= 1.0 && d <= 4096.0 && (d as u64).is_power_of_two())
}

fn case(ctx: &mut Ctx) {
    let n_max = if ctx.thorough { 6000 } else { 2500 };
    let fp0 = ctx.case_seed;
    let r = session(ctx, &SessionOpts { n_max, trees_max: 3, tame: false, csv: false }, |ctx, s| {
        let d = format!("tree {} | {} | {:?}", s.index, s.table.describe(), s.knobs);
        let k = s.knobs;
        let nodes = match read_tree(&s.tree, &s.synth.leaves) {
            Ok(n) => n,
            Err(e) => { ctx.violation("malformed-tree", format!("{} [{}]", e, d)); return; }
        };
        if s.tree.max_depth() != k.max_tree_depth { ctx.violation("max-depth", format!("tree built with depth {} [{}]", s.tree.max_depth(), d)); return; }
        let (lo, hi) = (s.synth.bounds.0 as f64, s.synth.bounds.1 as f64);
        let lambda = k.reg_lambda as f64;
        let min_gain = k.min_gain as f64;
        let nb = s.bag.len() as f64;
        let b = lo.abs().max(hi.abs());
        let step = (hi - lo) / ((1u64 << k.discr_nbits) - 1) as f64;
        let step_exact = (2.0 * step).fract() == 0.0 && (2.0 * lo).fract() == 0.0;
        let tol = 1e-6 * b * b * nb;
        let mut local = vec![usize::MAX; s.table.n];
        for (l, &g) in s.bag.iter().enumerate() { local[g] = l; }
        let stat = |ex: &[usize]| -> (f64, f64) {
            let q: u64 = ex.iter().map(|&i| s.levels[i]).sum();
            (linproj(q as f64, ex.len() as f64, lo, hi, k.discr_nbits), ex.len() as f64)
        };
        let active: Vec<usize> = s.dataset.active_features().to_vec();
        let mut nsplit = 0u64;
        let mut ncand = 0u64;
        for node in &nodes {
            for &i in &node.examples {
                if i >= s.table.n || local[i] == usize::MAX { ctx.violation("leaf-example", format!("leaf holds example {} which is not in the bag [{}]", i, d)); return; }
            }
            if node.depth > k.max_tree_depth { ctx.violation("too-deep", format!("leaf at depth {} [{}]", node.depth, d)); return; }
            if node.leaf.is_some() && node.depth == k.max_tree_depth { continue; }
            let (g, c) = stat(&node.examples);
            let ploss = loss(g, c, lambda);
            // best admissible candidate, exactly
            let mut best: Option<(f64, usize, usize)> = None;
            for &f in &active {
                for split in 0..s.dataset.get_nbins(f) {
                    let bv = s.dataset.get_bitvec(f, split);
                    let w = bv.cast::<u32>();
                    let (mut lq, mut lc) = (0u64, 0u64);
                    for &i in &node.examples {
                        let l = local[i];
                        if w[l >> 5] >> (l & 31) & 1 == 1 { lq += s.levels[i]; lc += 1; }
                    }
                    let lc = lc as f64;
                    let rc = c - lc;
                    ncand += 1;
                    if lc < k.min_examples_leaf as f64 || rc < k.min_examples_leaf as f64 || lc == 0.0 || rc == 0.0 { continue; }
                    let lg = linproj(lq as f64, lc, lo, hi, k.discr_nbits);
                    let gain = ploss - loss(lg, lc, lambda) - loss(g - lg, rc, lambda);
                    if best.map_or(true, |x| gain > x.0) { best = Some((gain, f, split)); }
                }
            }
            match node.children {
                Some((l, r)) => {
                    nsplit += 1;
                    let (lg, lc) = stat(&nodes[l].examples);
                    let (rg, rc) = stat(&nodes[r].examples);
                    if lc < k.min_examples_leaf as f64 || rc < k.min_examples_leaf as f64 {
                        ctx.violation("min-examples", format!("node {} is split into {} and {} examples [{}]", node.heap_id, lc, rc, d));
                        return;
                    }
                    let gain = ploss - loss(lg, lc, lambda) - loss(rg, rc, lambda);
                    if !(gain > min_gain - tol) {
                        ctx.violation("gain-below-min", format!("node {} ({} examples) is split with gain {} <= min_gain {} [{}]", node.heap_id, c, gain, min_gain, d));
                        return;
                    }
                    // where no rounding is involved the comparison with min_gain is exact
                    if step_exact && exact_loss(g, c, lambda) && exact_loss(lg, lc, lambda) && exact_loss(rg, rc, lambda) {
                        ctx.count("splits_without_rounding", 1);
                        if !(gain > min_gain) {
                            ctx.violation("gain-at-min", format!("node {} ({} examples) is split with gain {} which does not exceed min_gain {} (no rounding involved) [{}]", node.heap_id, c, gain, min_gain, d));
                            return;
                        }
                    }
                    let (bg, bf, bs) = best.unwrap_or((f64::NEG_INFINITY, 0, 0));
                    if gain < bg - tol {
                        ctx.violation("not-best-split", format!("node {} ({} examples) is split with gain {} ({}|{}), feature {} split {} has gain {} [{}]", node.heap_id, c, gain, lc, rc, bf, bs, bg, d));
                        return;
                    }
                    if gain > bg + tol {
                        ctx.violation("not-a-candidate", format!("node {} ({} examples) is split with gain {} ({}|{}) which no active feature offers (best {}) [{}]", node.heap_id, c, gain, lc, rc, bg, d));
                        return;
                    }
                    if bg > gain { ctx.maximum("worst_gap_1e-12_of_scale", ((bg - gain) / (b * b * nb) * 1e12) as u64); }
                    if bg > 100.0 * tol { ctx.count("splits_far_above_rounding", 1); }
                }
                None => {
                    if let Some((bg, bf, bs)) = best {
                        if bg == min_gain { ctx.count("leaves_exactly_at_min_gain", 1); }
                        if bg > min_gain + tol {
                            ctx.violation("missed-split", format!("node {} ({} examples, depth {}) is a leaf although feature {} split {} has gain {} > {} [{}]", node.heap_id, c, node.depth, bf, bs, bg, min_gain, d));
                            return;
                        }
                    }
                    ctx.count("early_leaves", 1);
                }
            }
        }
        ctx.count("splits", nsplit);
        ctx.count("candidates", ncand);
        if nsplit >= 1 { ctx.observe(hash_u64(fp0, s.index as u64)); } else { ctx.observe_trivial(); }
        ctx.sample(|| format!("{} splits={} candidates={}", d, nsplit, ncand));
    });
    if let Err((p, d)) = r { ctx.panic_violation("train", &p, &d); }
}

pub fn dispatch(ctx: &mut Ctx) { case(ctx) }

fn main() { run("C03", dispatch); }
