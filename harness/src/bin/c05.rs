//! C05: bit-slices behave like an array of small integers.
use bbmon::driver::{main as run, Ctx};
use bbmon::exact::{level, linproj};
use bbmon::rng::{hash_u64, Rng};
use bitboost::bitslice::{self, Bitslice, BitsliceLayout};
use bitboost::slice_store::{self, BitBlockStore, BitSliceLayout};

const BOUNDS: [(f32, f32); 9] = [(-1.0, 1.0), (0.0, 1.0), (-1.25, 1.25), (-1.0, 2.0), (-1e-3, 1e-3), (-1e4, 1e4), (0.5, 0.75), (-7.0, -6.5), (-1e-6, 3e5)];

fn gen_len(rng: &mut Rng) -> usize {
    if rng.below(250) == 0 && !bbmon::gen::tiny() { return rng.range(65_000, 140_000); }
    if rng.chance(0.5) { *rng.pick(&[1usize, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1024]) } else { rng.range(1, 1500) }
}

/// Positions that exercise every corner of the layout.
fn gen_pos(rng: &mut Rng, n: usize) -> usize {
    if rng.chance(0.5) { rng.below(n) } else {
        let b = *rng.pick(&[32usize, 64, 128, 256]);
        let k = rng.below(n / b + 1) * b;
        (k + *rng.pick(&[0usize, 1, b - 1])).min(n - 1)
    }
}

/// A value to be discretized; also at, and very near, the bounds and grid points.
fn gen_value(rng: &mut Rng, (lo, hi): (f32, f32), w: usize) -> f32 {
    let max = ((1u64 << w) - 1) as f64;
    let step = (hi as f64 - lo as f64) / max;
    match rng.below(8) {
        0 => lo, 1 => hi,
        2 => lo - rng.f32() * (hi - lo) * *rng.pick(&[0.01f32, 1.0, 100.0]),
        3 => hi + rng.f32() * (hi - lo) * *rng.pick(&[0.01f32, 1.0, 100.0]),
        4 => (lo as f64 + step * rng.below(max as usize + 1) as f64) as f32,
        5 => (lo as f64 + step * (rng.below(max as usize) as f64 + 0.5 + rng.frange(-0.01, 0.01))) as f32,
        _ => lo + rng.f32() * (hi - lo),
    }
}

/// Is `got` an admissible level for x? Ties (in exact arithmetic, up to float rounding) may go either way.
fn level_ok(got: u8, x: f32, (lo, hi): (f32, f32), w: usize) -> bool {
    let (want, tie) = level(x as f64, lo as f64, hi as f64, w);
    // relative rounding of (v-lo)/(hi-lo)*max, including cancellation in v-lo
    let max = ((1u64 << w) - 1) as f64;
    let eps = max * 3e-7 * (1.0 + (lo.abs().max(hi.abs()) as f64) / (hi as f64 - lo as f64));
    if tie > eps { got as u64 == want } else { (got as i64 - want as i64).abs() <= 1 }
}

macro_rules! scaled_check {
    ($ctx:ident, $what:expr, $s:expr, $model:expr, $pos:expr, $w:expr) => {{
        let b = *$ctx.rng.pick(&BOUNDS);
        let x = gen_value(&mut $ctx.rng, b, $w);
        let got = $s.set_scaled_value($pos, x, b);
        $model[$pos] = $s.get_value($pos);
        $ctx.count("scaled_writes", 1);
        if got != $model[$pos] { $ctx.violation(concat!($what, ":returned-level"), format!("returned level {} but stored {}", got, $model[$pos])); }
        if !level_ok(got, x, b, $w) { $ctx.violation(concat!($what, ":rounding"), format!("width {} value {} bounds {:?} stored as level {}", $w, x, b, got)); }
        let back = $s.get_scaled_value($pos, b) as f64;
        let (lo, hi) = (b.0 as f64, b.1 as f64);
        let step = (hi - lo) / ((1u64 << $w) - 1) as f64;
        let eps = 1e-6 * (lo.abs() + hi.abs());
        let clamped = (x as f64).max(lo).min(hi);
        if (back - clamped).abs() > step * 0.5 + eps {
            $ctx.violation(concat!($what, ":half-step"), format!("width {} value {} bounds {:?} reads back {} (step {})", $w, x, b, back, step));
        }
        if (back - (lo + got as f64 * step)).abs() > eps {
            $ctx.violation(concat!($what, ":scaled-read"), format!("width {} level {} bounds {:?} reads {}", $w, got, b, back));
        }
    }}
}

macro_rules! monotone_check {
    ($ctx:ident, $what:expr, $s:expr, $model:expr, $n:expr, $w:expr) => {{
        let b = *$ctx.rng.pick(&BOUNDS);
        let mut xs: Vec<f32> = (0..12).map(|_| gen_value(&mut $ctx.rng, b, $w)).collect();
        xs.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let mut prev = 0u8;
        for x in xs {
            let pos = gen_pos(&mut $ctx.rng, $n);
            let got = $s.set_scaled_value(pos, x, b);
            $model[pos] = $s.get_value(pos);
            if got < prev { $ctx.violation(concat!($what, ":monotone"), format!("width {} bounds {:?}: value {} has level {} below {}", $w, b, x, got, prev)); }
            prev = got;
        }
    }}
}

fn verify(ctx: &mut Ctx, what: &str, n: usize, model: &[u8], get: impl Fn(usize) -> u8) -> bool {
    ctx.count("reads", n as u64);
    for i in 0..n {
        let g = get(i);
        if g != model[i] { ctx.violation(what, format!("position {} of {} holds {} instead of {}", i, n, g, model[i])); return false; }
    }
    true
}

fn masked(model: &[u8], blk: usize, mask: u32) -> u64 {
    (0..32).filter(|b| mask >> b & 1 == 1).map(|b| *model.get(blk * 32 + b).unwrap_or(&0) as u64).sum()
}

/// slice_store::BitSlice: two slices in one store, with a third allocation between them.
fn store_slice<L: BitSliceLayout>(ctx: &mut Ctx) {
    let w = L::width();
    let (n1, n2) = (gen_len(&mut ctx.rng), gen_len(&mut ctx.rng));
    let mut store = BitBlockStore::new(*ctx.rng.pick(&[1usize, 4, 64, 1024]));
    let r1 = store.alloc_zero_bitslice::<L>(n1);
    let guard = store.alloc_one_blocks(1 + ctx.case_index as usize % 3);
    let r2 = store.alloc_zero_bitslice::<L>(n2);
    let max = ((1u32 << w) - 1) as u8;
    // every addressable position, not only the requested ones
    let (c1, c2) = ((n1 + 255) / 256 * 256, (n2 + 255) / 256 * 256);
    let (mut m1, mut m2) = (vec![0u8; c1], vec![0u8; c2]);
    if !verify(ctx, "BitSlice:not-zeroed", c1, &m1, |i| store.get_bitslice::<L>(r1).get_value(i)) { return; }
    let mut h = hash_u64(w as u64, (n1 * 4096 + n2) as u64);
    for step in 0..60 {
        let kind = ctx.rng.below(10);
        h = hash_u64(h, kind as u64);
        match kind {
            0..=2 => {
                let p = gen_pos(&mut ctx.rng, c1);
                let v = if ctx.rng.chance(0.3) { max } else { ctx.rng.u32() as u8 & max };
                h = hash_u64(h, p as u64 * 256 + v as u64);
                store.get_bitslice_mut::<L>(r1).set_value(p, v);
                m1[p] = v;
            }
            3 => { let p = gen_pos(&mut ctx.rng, c2); let v = ctx.rng.u32() as u8 & max; store.get_bitslice_mut::<L>(r2).set_value(p, v); m2[p] = v; }
            4 | 5 => { let p = gen_pos(&mut ctx.rng, c1); let mut s = store.get_bitslice_mut::<L>(r1); scaled_check!(ctx, "BitSlice", s, m1, p, w); }
            6 => { let mut s = store.get_bitslice_mut::<L>(r1); monotone_check!(ctx, "BitSlice", s, m1, c1, w); }
            7 => {
                let (f, t) = (ctx.rng.below(c1 / 32), ctx.rng.below(c2 / 32));
                let (a, mut b) = if ctx.rng.chance(0.5) { store.get_two_bitslices_mut::<L>(r1, r2) }
                    else { let (y, x) = store.get_two_bitslices_mut::<L>(r2, r1); (x, y) };
                b.copy_block_from::<u32, _>(&a, f, t);
                for j in 0..32 { m2[t * 32 + j] = m1[f * 32 + j]; }
                ctx.count("block_copies", 1);
            }
            8 => {
                let blk = ctx.rng.below(c1 / 32);
                let mask = ctx.rng.mask32();
                let got = store.get_bitslice::<L>(r1).sum_masked(blk, mask) as u64;
                let want = masked(&m1, blk, mask);
                ctx.check(got == want, "BitSlice:sum_masked", || format!("width {} block {} mask {:x}: {} instead of {}", w, blk, mask, got, want));
                ctx.count("masked_sums", 1);
            }
            _ => {
                let blk = ctx.rng.below(c1 / 32);
                let mask = ctx.rng.mask32();
                let b = *ctx.rng.pick(&BOUNDS);
                let (s, c) = store.get_bitslice::<L>(r1).sum_scaled_masked(blk, mask, b);
                let want = linproj(masked(&m1, blk, mask) as f64, mask.count_ones() as f64, b.0 as f64, b.1 as f64, w);
                let ok = c == mask.count_ones() && (s as f64 - want).abs() <= 1e-5 * (b.0.abs() + b.1.abs()) as f64 * 32.0;
                ctx.check(ok, "BitSlice:sum_scaled_masked", || format!("width {} mask {:x} bounds {:?}: ({}, {}) instead of ({}, {})", w, mask, b, s, c, want, mask.count_ones()));
                ctx.count("masked_sums", 1);
            }
        }
        if step % 12 == 11 {
            if !verify(ctx, "BitSlice:isolation", c1, &m1, |i| store.get_bitslice::<L>(r1).get_value(i)) { return; }
            if !verify(ctx, "BitSlice:isolation", c2, &m2, |i| store.get_bitslice::<L>(r2).get_value(i)) { return; }
        }
        if !ctx.violations.is_empty() { return; }
    }
    let g = store.get_bitvec(guard);
    ctx.check(g.cast::<u64>().iter().all(|&x| x == !0), "BitSlice:guard", || "writes reached a neighbouring allocation".to_string());
    ctx.observe(h);
    ctx.sample(|| format!("slice_store::BitSlice width={} lengths={}/{} 60 operations", w, n1, n2));
}

/// bitslice::Bitslice: resizing included.
fn own_slice<L: BitsliceLayout>(ctx: &mut Ctx) {
    let w = L::width();
    let max = ((1u32 << w) - 1) as u8;
    let n = gen_len(&mut ctx.rng);
    let mut bs = Bitslice::new();
    bs.with_layout_mut::<L>().resize(n);
    let mut cap = (n + 255) / 256 * 256;
    let mut m = vec![0u8; cap];
    let mut h = hash_u64(100 + w as u64, n as u64);
    for step in 0..60 {
        let kind = ctx.rng.below(10);
        h = hash_u64(h, kind as u64);
        match kind {
            0..=3 => {
                let p = gen_pos(&mut ctx.rng, cap);
                let v = if ctx.rng.chance(0.3) { max } else { ctx.rng.u32() as u8 & max };
                h = hash_u64(h, p as u64 * 256 + v as u64);
                bs.with_layout_mut::<L>().set_value(p, v);
                m[p] = v;
            }
            4 | 5 => { let p = gen_pos(&mut ctx.rng, cap); let mut s = bs.with_layout_mut::<L>(); scaled_check!(ctx, "Bitslice", s, m, p, w); }
            6 => { let mut s = bs.with_layout_mut::<L>(); monotone_check!(ctx, "Bitslice", s, m, cap, w); }
            7 => {
                let n2 = gen_len(&mut ctx.rng);
                bs.with_layout_mut::<L>().resize(n2);
                let cap2 = (n2 + 255) / 256 * 256;
                m.resize(cap2, 0);
                cap = cap2;
                let nb = bs.nblocks();
                ctx.check(nb == cap / 256 * w && bs.with_layout::<L>().nblocks() == nb, "Bitslice:nblocks", || format!("{} blocks for {} values of width {}", nb, n2, w));
                ctx.count("resizes", 1);
                if !verify(ctx, "Bitslice:resize", cap, &m, |i| bs.with_layout::<L>().get_value(i)) { return; }
            }
            8 => {
                // lanes of a block hold the bits of its 32 values
                let blk = ctx.rng.below(cap / 32);
                let lane = ctx.rng.below(w);
                let want = (0..32).fold(0u32, |a, j| a | ((m[blk * 32 + j] >> lane & 1) as u32) << j);
                let v = bs.with_layout::<L>();
                let (a, b) = (v.get_block(blk, lane), unsafe { v.get_block_unchecked(blk, lane) });
                ctx.check(a == want && b == want, "Bitslice:get_block", || format!("width {} block {} lane {}: {:x}/{:x} instead of {:x}", w, blk, lane, a, b, want));
            }
            _ => {
                let blk = ctx.rng.below(cap / 32);
                let lane = ctx.rng.below(w);
                let x = ctx.rng.mask32();
                let mut v = bs.with_layout_mut::<L>();
                if ctx.rng.chance(0.5) { *v.get_block_mut(blk, lane) = x; } else { unsafe { *v.get_block_unchecked_mut(blk, lane) = x; } }
                for j in 0..32 { let y = &mut m[blk * 32 + j]; *y = (*y & !(1 << lane)) | (((x >> j & 1) as u8) << lane); }
                ctx.count("block_writes", 1);
            }
        }
        if step % 12 == 11 && !verify(ctx, "Bitslice:isolation", cap, &m, |i| bs.with_layout::<L>().get_value(i)) { return; }
        if !ctx.violations.is_empty() { return; }
    }
    ctx.observe(h);
    ctx.sample(|| format!("bitslice::Bitslice width={} length={} 60 operations", w, n));
}

pub fn dispatch(ctx: &mut Ctx) {
    match ctx.case_index % 8 {
    0 => store_slice::<slice_store::BitSliceLayout1>(ctx),
    1 => store_slice::<slice_store::BitSliceLayout2>(ctx),
    2 => store_slice::<slice_store::BitSliceLayout4>(ctx),
    3 => store_slice::<slice_store::BitSliceLayout8>(ctx),
    4 => own_slice::<bitslice::BitsliceLayout1>(ctx),
    5 => own_slice::<bitslice::BitsliceLayout2>(ctx),
    6 => own_slice::<bitslice::BitsliceLayout4>(ctx),
    _ => own_slice::<bitslice::BitsliceLayout8>(ctx),
    }
}

fn main() { run("C05", dispatch); }
