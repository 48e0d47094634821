//! C06: bit containers and their index iterators against a boolean model.
use bbmon::bits::*;
use bbmon::driver::{main as run, Ctx};
use bbmon::rng::{hash_u64, Rng};
use bitboost::bitblock::{self, BitBlock, BitBlocks};
use bitboost::bitset::Bitset;
use bitboost::slice_store::BitBlockStore;

fn gen_bits(rng: &mut Rng) -> usize {
    if rng.below(400) == 0 && !bbmon::gen::tiny() { return rng.range(65_000, 140_000); }
    if rng.chance(0.5) { *rng.pick(&[1usize, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 191, 192, 193, 255, 256, 257, 319, 320, 321, 448, 511, 512, 513, 768, 1024]) }
    else { rng.range(1, 1500) }
}

fn gen_pos(rng: &mut Rng, n: usize) -> usize {
    if rng.chance(0.5) { rng.below(n) } else { (rng.below(n / 64 + 1) * 64 + *rng.pick(&[0usize, 1, 7, 8, 31, 32, 63])).min(n - 1) }
}

fn blocks(n: usize) -> usize { (n + 255) / 256 }

fn same_words(ctx: &mut Ctx, what: &str, w: &[u64], m: &[bool]) -> bool {
    ctx.count("bits_compared", m.len() as u64);
    if w.len() * 64 != m.len() { ctx.violation(&format!("{}:length", what), format!("{} words for {} bits", w.len(), m.len())); return false; }
    for i in 0..m.len() {
        if (w[i / 64] >> (i % 64) & 1 == 1) != m[i] { ctx.violation(what, format!("bit {} of {} is {}", i, m.len(), !m[i])); return false; }
    }
    true
}

fn set_words<T: Copy>(m: &mut [bool], bits: usize, idx: usize, val: u128, _t: T) {
    for j in 0..bits { m[idx * bits + j] = val >> j & 1 == 1; }
}

fn get_words(m: &[bool], bits: usize, idx: usize) -> u128 { (0..bits).fold(0u128, |a, j| a | (m[idx * bits + j] as u128) << j) }

/// Bitset and BitBlocks: a sequence of operations on the container and on the model.
fn bitset_ops(ctx: &mut Ctx) {
    let n = gen_bits(&mut ctx.rng);
    let ones = ctx.rng.chance(0.5);
    let mut s = if ones { Bitset::ones(n) } else { Bitset::zeros(n) };
    let mut m: Vec<bool> = (0..blocks(n) * 256).map(|i| ones && i < n).collect();
    if !same_words(ctx, if ones { "Bitset::ones" } else { "Bitset::zeros" }, s.cast::<u64>(), &m) { return; }
    let mut h = hash_u64(1, n as u64 * 2 + ones as u64);
    for step in 0..80 {
        let op = ctx.rng.below(9);
        let c = m.len();
        let p = gen_pos(&mut ctx.rng, c);
        h = hash_u64(h, (op * 100000 + p) as u64);
        match op {
            0 => { s.enable_bit(p); m[p] = true; }
            1 => { s.disable_bit(p); m[p] = false; }
            2 => { let b = ctx.rng.chance(0.5); s.set_bit(p, b); m[p] = b; }
            3 => { let g = s.get_bit(p); ctx.check(g == m[p], "Bitset::get_bit", || format!("bit {} reads {}", p, g)); }
            4 => { let v = ctx.rng.u32(); let i = ctx.rng.below(c / 32); s.set::<u32>(i, v); set_words(&mut m, 32, i, v as u128, v);
                   let g = *s.get::<u32>(i); ctx.check(g == v, "BitBlocks::get", || format!("word {} reads {:x}", i, g)); }
            5 => { let v = ctx.rng.u64(); let i = ctx.rng.below(c / 64); unsafe { s.set_unchecked::<u64>(i, v); } set_words(&mut m, 64, i, v as u128, v);
                   let g = unsafe { *s.get_unchecked::<u64>(i) }; ctx.check(g == v, "BitBlocks::get_unchecked", || format!("word {} reads {:x}", i, g)); }
            6 => { let v = ctx.rng.u32() as u8; let i = ctx.rng.below(c / 8); s.cast_mut::<u8>()[i] = v; set_words(&mut m, 8, i, v as u128, v); }
            7 => {
                let i = ctx.rng.below(c / 256);
                let want = m[i * 256..i * 256 + 256].iter().filter(|&&b| b).count();
                let (got, z) = (s[i].count_ones() as usize, s[i].is_zero());
                ctx.check(got == want && z == (want == 0), "BitBlock::count_ones", || format!("block with {} bits: count {}, is_zero {}", want, got, z));
            }
            _ => if ctx.rng.chance(0.3) {
                let nb = ctx.rng.range(1, 6);
                s.resize(nb);
                m.resize(nb * 256, false);
                if !same_words(ctx, "BitBlocks::resize", s.cast::<u64>(), &m) { return; }
            },
        }
        ctx.count("operations", 1);
        if step % 10 == 9 && !same_words(ctx, "Bitset:ops", s.cast::<u64>(), &m) { return; }
        if !ctx.violations.is_empty() { return; }
    }
    let i = ctx.rng.below(m.len() / 16);
    let g = *s.get::<u16>(i) as u128;
    ctx.check(g == get_words(&m, 16, i), "BitBlocks::get16", || format!("{:x}", g));
    let i = ctx.rng.below(m.len() / 128);
    let g = *s.get::<u128>(i);
    ctx.check(g == get_words(&m, 128, i), "BitBlocks::get128", || format!("{:x}", g));
    let lens = (s.block_len::<u8>(), s.block_len::<u32>(), s.block_len::<u64>(), s.block_len::<u128>());
    ctx.check(lens == (m.len() / 8, m.len() / 32, m.len() / 64, m.len() / 128), "BitBlocks::block_len", || format!("{:?} for {} bits", lens, m.len()));
    ctx.observe(h);
    ctx.sample(|| format!("Bitset of {} bits ({}), 80 operations", n, if ones { "ones" } else { "zeros" }));
}

/// Constructors and the free bit functions.
fn constructors(ctx: &mut Ctx) {
    let n = gen_bits(&mut ctx.rng);
    let k = if ctx.rng.chance(0.7) { n } else { ctx.rng.below(n + 1) }; // iterator may be shorter
    let bits: Vec<bool> = { let w = words(&mut ctx.rng, (n + 31) / 32); (0..k).map(|i| bit(&w, i)).collect() };
    let mut m = bits.clone();
    m.resize(blocks(n) * 256, false);
    let b = BitBlocks::from_bool_iter(n, bits.iter().cloned());
    if !same_words(ctx, "BitBlocks::from_bool_iter", b.cast::<u64>(), &m) { return; }
    let z = BitBlocks::zero_bits(n);
    if !same_words(ctx, "BitBlocks::zero_bits", z.cast::<u64>(), &vec![false; blocks(n) * 256]) { return; }
    let o = BitBlocks::one_bits(n);
    let om: Vec<bool> = (0..blocks(n) * 256).map(|i| i < n).collect();
    if !same_words(ctx, "BitBlocks::one_bits", o.cast::<u64>(), &om) { return; }
    let nb = ctx.rng.range(1, 5);
    if !same_words(ctx, "BitBlocks::one_blocks", BitBlocks::one_blocks(nb).cast::<u64>(), &vec![true; nb * 256]) { return; }
    if !same_words(ctx, "BitBlocks::zero_blocks", BitBlocks::zero_blocks(nb).cast::<u64>(), &vec![false; nb * 256]) { return; }
    macro_rules! ints { ($t:ty, $bits:expr) => {{
        let nv = 1 + ctx.rng.below(90);
        let kv = if ctx.rng.chance(0.7) { nv } else { ctx.rng.below(nv + 1) };
        let vals: Vec<$t> = (0..kv).map(|_| ctx.rng.u64() as $t).collect();
        let mut m = vec![false; blocks(nv * $bits) * 256];
        for (i, v) in vals.iter().enumerate() { set_words(&mut m, $bits, i, *v as u128, *v); }
        let b = BitBlocks::from_iter(nv, vals.iter().cloned());
        if !same_words(ctx, concat!("BitBlocks::from_iter:", stringify!($t)), b.cast::<u64>(), &m) { return; }
        let (done, blk) = BitBlock::from_iter(&mut vals.iter().cloned());
        let mut m1 = m.clone(); m1.truncate(256);
        if !same_words(ctx, "BitBlock::from_iter", blk.cast::<u64>(), &m1) { return; }
        if kv != 256 / $bits { ctx.check(done == (kv < 256 / $bits), "BitBlock::from_iter:done", || format!("{} values of {} bits: done {}", kv, $bits, done)); }
        if !same_words(ctx, "BitBlock::from_slice", BitBlock::from_slice(&vals).cast::<u64>(), &m1) { return; }
        let v = ctx.rng.u64() as $t;
        let f = BitBlock::from(v);
        let mut mf = vec![false; 256];
        set_words(&mut mf, $bits, 0, v as u128, v);
        if !same_words(ctx, "BitBlock::from", f.cast::<u64>(), &mf) { return; }
    }} }
    ints!(u8, 8); ints!(u16, 16); ints!(u32, 32); ints!(u64, 64); ints!(u128, 128);
    let q = [ctx.rng.u64(), ctx.rng.u64(), ctx.rng.u64(), ctx.rng.u64()];
    let b4 = BitBlock::from_4u64(q[0], q[1], q[2], q[3]);
    ctx.check(b4.cast::<u64>() == &q[..], "BitBlock::from_4u64", || format!("{:x?}", q));
    macro_rules! free { ($t:ty, $bits:expr) => {{
        let v = ctx.rng.u64() as $t;
        let p = ctx.rng.below($bits) as u8;
        let one = (1 as $t) << p;
        let ok = bitblock::get_bit(v, p) == (v & one != 0) && bitblock::enable_bit(v, p) == v | one && bitblock::disable_bit(v, p) == v & !one
            && bitblock::set_bit(v, p, true) == v | one && bitblock::set_bit(v, p, false) == v & !one;
        ctx.check(ok, concat!("bit-functions:", stringify!($t)), || format!("value {:x} position {}", v, p));
        let i = ctx.rng.below(100000);
        let ok = bitblock::get_blockpos::<$t>(i) == i / $bits && bitblock::get_bitpos::<$t>(i) as usize == i % $bits;
        ctx.check(ok, concat!("bit-positions:", stringify!($t)), || format!("index {}", i));
    }} }
    free!(u8, 8); free!(u16, 16); free!(u32, 32); free!(u64, 64);
    let req = ctx.rng.below(5000);
    ctx.check(BitBlock::blocks_required_for(req) == blocks(req), "BitBlock::blocks_required_for", || format!("{} bits", req));
    ctx.count("constructions", 16);
    ctx.observe(hash_u64(2, hash_u64(n as u64, bits.iter().fold(k as u64, |a, &b| a.rotate_left(1) ^ b as u64))));
    ctx.sample(|| format!("constructors with {} bits from an iterator of {}", n, k));
}

fn limited(want: &[usize], stop: usize) -> Vec<usize> { want.iter().cloned().take(stop).collect() }

/// Every iterator and for-each of BitVec.
fn iterators(ctx: &mut Ctx) {
    let mut store = BitBlockStore::new(*ctx.rng.pick(&[1usize, 16, 256]));
    let nb = nblocks(&mut ctx.rng, if ctx.thorough { 60 } else { 24 });
    let a = words(&mut ctx.rng, nb * 8);
    let b = words(&mut ctx.rng, nb * 8);
    let mb = nb + ctx.rng.below(nb + 2);
    let c = words(&mut ctx.rng, mb * 8);
    let mut idx: Vec<u32> = (0..(mb * 8) as u32).collect();
    ctx.rng.shuffle(&mut idx);
    idx.truncate(nb * 8);
    if ctx.rng.chance(0.7) { idx.sort_unstable(); }
    let ra = store.alloc_from_iter(nb * 8, a.iter().cloned());
    let rb = store.alloc_from_iter(nb * 8, b.iter().cloned());
    let rc = store.alloc_from_iter(mb * 8, c.iter().cloned());
    let ri = store.alloc_from_iter(nb * 8, idx.iter().cloned());
    let (va, vb, vc, vi) = (store.get_bitvec(ra), store.get_bitvec(rb), store.get_bitvec(rc), store.get_bitvec(ri));
    let nbits = nb * 256;
    let sel = |f: &dyn Fn(usize) -> bool| -> Vec<usize> { (0..nbits).filter(|&i| f(i)).collect() };
    let glob = |i: usize| idx[i / 32] as usize * 32 + i % 32;
    let plain = sel(&|i| bit(&a, i));
    let and = sel(&|i| bit(&a, i) && bit(&b, i));
    let andnot = sel(&|i| bit(&a, i) && !bit(&b, i));
    let compr: Vec<usize> = plain.iter().map(|&i| glob(i)).collect();
    let and_compr: Vec<usize> = plain.iter().map(|&i| glob(i)).filter(|&g| bit(&c, g)).collect();
    let andnot_compr: Vec<usize> = plain.iter().map(|&i| glob(i)).filter(|&g| !bit(&c, g)).collect();
    macro_rules! iter { ($name:expr, $it:expr, $want:expr) => {{
        let got: Vec<usize> = $it.collect();
        ctx.count("indices_visited", got.len() as u64);
        ctx.check(got == $want, $name, || format!("{} blocks: visited {} positions, first difference at {:?}, expected {}", nb, got.len(),
            got.iter().zip($want.iter()).position(|(x, y)| x != y), $want.len()));
    }} }
    iter!("index_iter", va.index_iter(), plain);
    iter!("index_iter_and", va.index_iter_and(&vb), and);
    iter!("index_iter_andnot", va.index_iter_andnot(&vb), andnot);
    iter!("index_iter_compr", va.index_iter_compr(&vi), compr);
    iter!("index_iter_and_compr", va.index_iter_and_compr(&vc, &vi), and_compr);
    iter!("index_iter_andnot_compr", va.index_iter_andnot_compr(&vc, &vi), andnot_compr);
    let count = va.count_ones_and(&vb) as usize;
    ctx.check(count == and.len(), "count_ones_and", || format!("{} instead of {}", count, and.len()));
    let count = va.count_ones_and_compr(&vi, &vc) as usize;
    ctx.check(count == and_compr.len(), "count_ones_and_compr", || format!("{} instead of {}", count, and_compr.len()));
    // for-each, also stopping at every kind of point
    macro_rules! each { ($name:expr, $call:ident($($arg:expr),*), $want:expr) => {{
        let stops = [usize::MAX, 1, 2, $want.len().max(1), ctx.rng.range(1, $want.len().max(1))];
        let stop = *ctx.rng.pick(&stops);
        let mut got: Vec<usize> = Vec::new();
        let mut late = 0;
        va.$call($($arg,)* |i| { if got.len() >= stop { late += 1; } got.push(i); got.len() >= stop });
        ctx.count("indices_visited", got.len() as u64);
        ctx.check(late == 0, concat!($name, ":after-stop"), || format!("{} calls after the callback asked to stop at {}", late, stop));
        let want = limited(&$want, stop);
        ctx.check(late > 0 || got == want, $name, || format!("{} blocks: visited {} positions, first difference at {:?}, expected {}", nb, got.len(),
            got.iter().zip(want.iter()).position(|(x, y)| x != y), want.len()));
    }} }
    each!("for_each_index", for_each_index(), plain);
    each!("for_each_index_and", for_each_index_and(&vb), and);
    each!("for_each_index_compr", for_each_index_compr(&vi), compr);
    each!("for_each_index_and_compr", for_each_index_and_compr(&vc, &vi), and_compr);
    let h = a.iter().chain(&b).chain(&c).chain(&idx).fold(3u64, |h, &x| hash_u64(h, x as u64));
    if plain.is_empty() { ctx.observe_trivial(); } else { ctx.observe(h); }
    ctx.sample(|| format!("iterators over {} blocks, {} set, other side {} blocks", nb, plain.len(), mb));
}

/// BitVec element access.
fn bitvec_ops(ctx: &mut Ctx) {
    let mut store = BitBlockStore::new(8);
    let n = gen_bits(&mut ctx.rng);
    let ones = ctx.rng.chance(0.5);
    let r = if ones { store.alloc_one_bits(n) } else { store.alloc_zero_bits(n) };
    let mut m: Vec<bool> = (0..blocks(n) * 256).map(|i| ones && i < n).collect();
    if !same_words(ctx, if ones { "alloc_one_bits" } else { "alloc_zero_bits" }, store.get_bitvec(r).cast::<u64>(), &m) { return; }
    let mut h = hash_u64(4, n as u64 * 2 + ones as u64);
    for _ in 0..60 {
        let op = ctx.rng.below(7);
        let c = m.len();
        let p = gen_pos(&mut ctx.rng, c);
        h = hash_u64(h, (op * 100000 + p) as u64);
        let mut v = store.get_bitvec_mut(r);
        match op {
            0 => { v.enable_bit(p); m[p] = true; }
            1 => { let b = ctx.rng.chance(0.5); v.set_bit(p, b); m[p] = b; }
            2 => { let g = v.get_bit(p); ctx.check(g == m[p], "BitVec::get_bit", || format!("bit {} reads {}", p, g)); }
            3 => { let x = ctx.rng.u32(); let i = ctx.rng.below(c / 32); v.set::<u32>(i, x); set_words(&mut m, 32, i, x as u128, x); }
            4 => { let x = ctx.rng.u64(); let i = ctx.rng.below(c / 64); unsafe { v.set_unchecked::<u64>(i, x); } set_words(&mut m, 64, i, x as u128, x); }
            5 => { let i = ctx.rng.below(c / 8); let g = (*v.get::<u8>(i), unsafe { *v.get_unchecked::<u8>(i) }); let w = get_words(&m, 8, i) as u8;
                   ctx.check(g == (w, w), "BitVec::get", || format!("byte {} reads {:?} instead of {:x}", i, g, w)); }
            _ => { let x = ctx.rng.u32() as u16; let i = ctx.rng.below(c / 16); v.cast_mut::<u16>()[i] = x; set_words(&mut m, 16, i, x as u128, x); }
        }
        ctx.count("operations", 1);
        if !ctx.violations.is_empty() { return; }
    }
    if same_words(ctx, "BitVec:ops", store.get_bitvec(r).cast::<u64>(), &m) { ctx.observe(h); }
}

pub fn dispatch(ctx: &mut Ctx) {
    match ctx.case_index % 4 {
    0 => bitset_ops(ctx),
    1 => constructors(ctx),
    2 => iterators(ctx),
    _ => bitvec_ops(ctx),
    }
}

fn main() { run("C06", dispatch); }
