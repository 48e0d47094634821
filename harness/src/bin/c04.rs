//! C04: the masked count / masked sum kernels equal a scalar loop over the bits.
use bbmon::bits::*;
use bbmon::driver::{main as run, Ctx};
use bbmon::rng::{hash_u64, Rng};
use bitboost::bitblock::BitBlocks;
use bitboost::bitslice::{Bitslice, BitsliceLayout, BitsliceLayout1, BitsliceLayout2, BitsliceLayout4, BitsliceLayout8};
use bitboost::count_and_sum::*;
use bitboost::slice_store::{BitBlockStore, BitSliceLayout, BitSliceLayout1, BitSliceLayout2, BitSliceLayout4, BitSliceLayout8, SliceRange};

fn values(rng: &mut Rng, n: usize, width: usize) -> Vec<u8> {
    let m = (1u32 << width) - 1;
    match rng.below(4) {
        0 => vec![m as u8; n],
        1 => { let k = rng.below(width); vec![1u8 << k; n] } // a single lane
        2 => (0..n).map(|_| (rng.u32() & rng.u32() & m) as u8).collect(),
        _ => (0..n).map(|_| (rng.u32() & m) as u8).collect(),
    }
}

/// sorted distinct indices into `m` words; padded with zeros (whose masks are zero)
fn sorted_indices(rng: &mut Rng, k: usize, m: usize) -> Vec<u32> {
    let mut all: Vec<u32> = (0..m as u32).collect();
    rng.shuffle(&mut all);
    all.truncate(k);
    all.sort_unstable();
    all
}

struct Shape { a: Vec<u32>, b: Vec<u32>, c: Vec<u32>, idx: Vec<u32>, idx2: Vec<u32> }

/// Compressed side: `k` useful words, padded to full blocks with (index 0, mask 0).
fn pad(mut idx: Vec<u32>, mut mask: Vec<u32>) -> (Vec<u32>, Vec<u32>) {
    while idx.len() % 8 != 0 { idx.push(0); mask.push(0); }
    (idx, mask)
}

/// Nearly all bits set.
fn dense(rng: &mut Rng, n: usize) -> Vec<u32> {
    let p = *rng.pick(&[0.0, 0.001, 0.02]);
    (0..n).map(|_| if rng.chance(p) { rng.u32() } else { !0 }).collect()
}

fn gen(rng: &mut Rng, big: usize) -> Shape {
    // once in a while so many blocks that a lane's share exceeds 16 bits
    let huge = !bbmon::gen::tiny() && rng.below(250) == 0;
    let nb = if huge { rng.range(2050, 3000) } else { nblocks(rng, big) };
    let (a, b) = if huge { (dense(rng, nb * 8), dense(rng, nb * 8)) } else { (words(rng, nb * 8), words(rng, nb * 8)) };
    // other side for the compressed kernels: m words, indexed
    let mb = if huge { nb + rng.below(50) } else if rng.chance(0.5) { nb + rng.below(nb * 2 + 2) } else { nblocks(rng, big * 2) };
    let c = if huge { dense(rng, mb * 8) } else { words(rng, mb * 8) };
    let sorted = rng.chance(0.7);
    let idx = if sorted && mb >= nb { sorted_indices(rng, nb * 8, mb * 8) }
        else { (0..nb * 8).map(|_| rng.below(mb * 8) as u32).collect() };
    let idx2 = Vec::new();
    Shape { a, b, c, idx, idx2 }
}

fn check(ctx: &mut Ctx, what: &str, got: u64, want: u64, s: &Shape) {
    ctx.count("kernel_calls", 1);
    ctx.check(got == want, &format!("{}", what), || format!("{} returned {} but the scalar sum is {} ({} words, other side {} words)", what, got, want, s.a.len(), s.c.len()));
}

fn new_bitslice<L: BitsliceLayout>(vals: &[u8]) -> Bitslice {
    let mut bs = Bitslice::new();
    {
        let mut v = bs.with_layout_mut::<L>();
        v.resize(vals.len());
        for (i, &x) in vals.iter().enumerate() { v.set_value(i, x); }
    }
    bs
}

type F00 = fn(&BitBlocks, &BitBlocks, &BitBlocks) -> u64;
type F10 = fn(&BitBlocks, &BitBlocks, &BitBlocks, &BitBlocks) -> u64;
type F11 = fn(&BitBlocks, &BitBlocks, &BitBlocks, &BitBlocks, &BitBlocks) -> u64;

fn and_sum(vals: &[u8], m: impl Fn(usize) -> bool) -> u64 {
    vals.iter().enumerate().filter(|&(i, _)| m(i)).map(|(_, &v)| v as u64).sum()
}

fn new_kernels<L: BitsliceLayout>(ctx: &mut Ctx, s: &Shape, f00: F00, f10: F10, f11: F11) {
    let w = L::width();
    let mut rng = ctx.rng.clone();
    let vals = values(&mut rng, s.a.len() * 32, w);
    let bs = new_bitslice::<L>(&vals);
    let (a, b, c, idx) = (blocks_of(&s.a), blocks_of(&s.b), blocks_of(&s.c), blocks_of(&s.idx));
    let want = and_sum(&vals, |i| bit(&s.a, i) && bit(&s.b, i));
    check(ctx, &format!("sum_and3_w{}_c00", w), f00(bs.as_bitblocks(), &a, &b), want, s);
    let want = and_sum(&vals, |i| bit(&s.a, i) && bit(&s.c, s.idx[i / 32] as usize * 32 + i % 32));
    check(ctx, &format!("sum_and3_w{}_c10", w), f10(bs.as_bitblocks(), &idx, &a, &c), want, s);

    // both sides compressed
    let huge = s.a.len() > 16_000;
    let universe = if huge { rng.range(16_500, 24_000) } else { rng.range(1, 400) };
    let (k1, k2) = if huge { (rng.range(universe - 60, universe), rng.range(universe - 60, universe)) } else { (rng.range(1, universe), rng.range(1, universe)) };
    let (i1, m1) = { let i = sorted_indices(&mut rng, k1, universe); let m = if huge { dense(&mut rng, k1) } else { words(&mut rng, k1) }; pad(i, m) };
    let (i2, m2) = { let i = sorted_indices(&mut rng, k2, universe); let m = if huge { dense(&mut rng, k2) } else { words(&mut rng, k2) }; pad(i, m) };
    let vals = values(&mut rng, i1.len() * 32, w);
    let bs = new_bitslice::<L>(&vals);
    let mut want = 0u64;
    let mut cnt = 0u64;
    for p in 0..k1 {
        if let Ok(q) = i2[..k2].binary_search(&i1[p]) {
            for j in 0..32 { if (m1[p] & m2[q]) >> j & 1 == 1 { want += vals[p * 32 + j] as u64; cnt += 1; } }
        }
    }
    let (i1, m1, i2, m2) = (blocks_of(&i1), blocks_of(&m1), blocks_of(&i2), blocks_of(&m2));
    check(ctx, &format!("sum_and3_w{}_c11", w), f11(bs.as_bitblocks(), &i1, &m1, &i2, &m2), want, s);
    check(ctx, "count_and2_c11", count_and2_c11(&i1, &m1, &i2, &m2), cnt, s);
    check(ctx, "count_and2_c11(swapped)", count_and2_c11(&i2, &m2, &i1, &m1), cnt, s);
}

fn old_kernels<L: BitSliceLayout>(ctx: &mut Ctx, s: &Shape) {
    let w = L::width();
    let mut rng = ctx.rng.clone();
    let n = s.a.len() * 32;
    let vals = values(&mut rng, n, w);
    let mut store = BitBlockStore::new(rng.range(1, 64));
    let put = |store: &mut BitBlockStore, v: &[u32]| -> SliceRange { store.alloc_from_iter(v.len(), v.iter().cloned()) };
    // unrelated allocations in between, so that overruns hit foreign data
    let _g0 = { let g = words(&mut rng, 8); put(&mut store, &g) };
    let ra = put(&mut store, &s.a);
    let _g1 = { let g = words(&mut rng, 16); put(&mut store, &g) };
    let rb = put(&mut store, &s.b);
    let rc = put(&mut store, &s.c);
    let ri = put(&mut store, &s.idx);
    let rs = store.alloc_zero_bitslice::<L>(n);
    let _g2 = { let g = words(&mut rng, 8); put(&mut store, &g) };
    { let mut bs = store.get_bitslice_mut::<L>(rs); for (i, &v) in vals.iter().enumerate() { bs.set_value(i, v); } }
    let (a, b, c, idx, bs) = (store.get_bitvec(ra), store.get_bitvec(rb), store.get_bitvec(rc), store.get_bitvec(ri), store.get_bitslice::<L>(rs));

    let cnt = (0..n).filter(|&i| bit(&s.a, i) && bit(&s.b, i)).count() as u64;
    check(ctx, "count_ones_and", a.count_ones_and(&b), cnt, s);
    check(ctx, "count_and2_c00", count_and2_c00(&blocks_of(&s.a), &blocks_of(&s.b)), cnt, s);
    let cntc = (0..n).filter(|&i| bit(&s.a, i) && bit(&s.c, s.idx[i / 32] as usize * 32 + i % 32)).count() as u64;
    check(ctx, "count_ones_and_compr", a.count_ones_and_compr(&idx, &c), cntc, s);
    check(ctx, "count_and2_c10", count_and2_c10(&blocks_of(&s.idx), &blocks_of(&s.a), &blocks_of(&s.c)), cntc, s);

    let want = and_sum(&vals, |i| bit(&s.a, i) && bit(&s.b, i));
    check(ctx, &format!("sum_all_masked2 w{}", w), bs.sum_all_masked2(&a, &b), want, s);
    let want = and_sum(&vals, |i| bit(&s.a, i) && bit(&s.c, s.idx[i / 32] as usize * 32 + i % 32));
    check(ctx, &format!("sum_all_masked2_compr w{}", w), bs.sum_all_masked2_compr(&idx, &a, &c), want, s);

    for _ in 0..6 {
        let i = rng.below(s.a.len());
        let m = rng.mask32();
        let want: u64 = (0..32).filter(|j| m >> j & 1 == 1).map(|j| vals[i * 32 + j] as u64).sum();
        check(ctx, &format!("sum_masked w{}", w), bs.sum_masked(i, m) as u64, want, s);
        let (lo, hi) = *rng.pick(&[(-1.0f32, 1.0f32), (0.0, 3.0), (-1.25, 1.25), (-7.5, 2.0)]);
        let (sum, count) = bs.sum_scaled_masked(i, m, (lo, hi));
        let exact = bbmon::exact::linproj(want as f64, m.count_ones() as f64, lo as f64, hi as f64, w);
        check(ctx, &format!("sum_scaled_masked count w{}", w), count as u64, m.count_ones() as u64, s);
        ctx.check((sum as f64 - exact).abs() <= 1e-4 * (1.0 + (hi - lo) as f64 * 32.0), &format!("sum_scaled_masked w{}", w),
            || format!("scaled masked sum {} but exact value is {} (mask {:x}, bounds {:?})", sum, exact, m, (lo, hi)));
    }
    // or-assign (used to accumulate split bitsets)
    let mut acc = { let mut v = BitBlocks::zero_blocks(s.a.len() / 8); v.cast_mut::<u32>().copy_from_slice(&s.a); v };
    unsafe { bitboost::simd::or_assign(&mut acc, &b); }
    let ok = acc.cast::<u32>().iter().zip(s.a.iter().zip(&s.b)).all(|(&x, (&y, &z))| x == y | z);
    ctx.check(ok, "or_assign", || format!("or_assign of {} words differs from the wordwise or", s.a.len()));
    ctx.count("kernel_calls", 1);
}

pub fn dispatch(ctx: &mut Ctx) {
    let mut rng = ctx.rng.clone();
    let s = gen(&mut rng, if ctx.thorough { 400 } else { 120 });
    ctx.rng = rng;
    let fp = s.a.iter().chain(&s.b).chain(&s.c).chain(&s.idx).fold(s.idx2.len() as u64, |h, &x| hash_u64(h, x as u64));
    match ctx.case_index / 8 % 4 {
        0 => { new_kernels::<BitsliceLayout1>(ctx, &s, sum_and3_w1_c00, sum_and3_w1_c10, sum_and3_w1_c11); old_kernels::<BitSliceLayout1>(ctx, &s); }
        1 => { new_kernels::<BitsliceLayout2>(ctx, &s, sum_and3_w2_c00, sum_and3_w2_c10, sum_and3_w2_c11); old_kernels::<BitSliceLayout2>(ctx, &s); }
        2 => { new_kernels::<BitsliceLayout4>(ctx, &s, sum_and3_w4_c00, sum_and3_w4_c10, sum_and3_w4_c11); old_kernels::<BitSliceLayout4>(ctx, &s); }
        _ => { new_kernels::<BitsliceLayout8>(ctx, &s, sum_and3_w8_c00, sum_and3_w8_c10, sum_and3_w8_c11); old_kernels::<BitSliceLayout8>(ctx, &s); }
    }
    let nz = s.a.iter().zip(&s.b).any(|(x, y)| x & y != 0);
    if nz { ctx.observe(fp); } else { ctx.observe_trivial(); }
    ctx.maximum("blocks", (s.a.len() / 8) as u64);
    ctx.sample(|| format!("{} words and {} words, indices {:?}.., first masks {:x?}", s.a.len(), s.c.len(), &s.idx[..s.idx.len().min(4)], &s.a[..4]));
    
}

fn main() { run("C04", dispatch); }
