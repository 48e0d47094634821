//! C07: allocation stores behave like independent arrays.
use bbmon::bits::words;
use bbmon::driver::{main as run, Ctx};
use bbmon::rng::{hash_u64, Rng};
use bitboost::bitblock::BitBlock;
use bitboost::slice_store::{BitBlockStore, HistStore, SliceRange, SliceStore};

trait Elem: Clone + PartialEq + std::fmt::Debug + Default { fn make(x: u64) -> Self; }
impl Elem for u8 { fn make(x: u64) -> u8 { x as u8 } }
impl Elem for u32 { fn make(x: u64) -> u32 { x as u32 } }
impl Elem for u64 { fn make(x: u64) -> u64 { x } }
impl Elem for f32 { fn make(x: u64) -> f32 { (x % 1000003) as f32 } }
#[derive(Clone, PartialEq, Debug, Default)] struct Odd { a: u32, b: u32, c: u32 }
impl Elem for Odd { fn make(x: u64) -> Odd { Odd { a: x as u32, b: (x >> 32) as u32, c: (x >> 16) as u32 } } }
#[derive(Clone, PartialEq, Debug, Default)] struct Wide { a: u64, b: [u16; 10] }
impl Elem for Wide { fn make(x: u64) -> Wide { Wide { a: x, b: [x as u16; 10] } } }

fn gen_len(rng: &mut Rng) -> u32 {
    match rng.below(4) { _ if rng.below(500) == 0 && !bbmon::gen::tiny() => rng.range(20_000, 90_000) as u32, 0 => rng.range(1, 4) as u32, 1 => *rng.pick(&[7u32, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65]), 2 => rng.range(1, 100) as u32, _ => rng.range(1, 600) as u32 }
}

fn overlap(a: SliceRange, b: SliceRange) -> bool { a.0 < b.1 && b.0 < a.1 }

fn slices<T: Elem>(ctx: &mut Ctx, name: &str) {
    let cap = *ctx.rng.pick(&[1usize, 2, 7, 64, 500, 8192]);
    let align = if ctx.rng.chance(0.5) { None } else { Some((*ctx.rng.pick(&[1usize, 2, 4, 8])) * std::mem::align_of::<T>()) };
    let mut s: SliceStore<T> = match align { None => SliceStore::new(cap), Some(a) => SliceStore::aligned(cap, a) };
    let min_align = align.unwrap_or(std::mem::align_of::<T>());
    let mut live: Vec<(SliceRange, Vec<T>)> = Vec::new();
    let mut h = hash_u64(cap as u64, align.unwrap_or(0) as u64);
    let d = format!("{} initial capacity {} alignment {:?}", name, cap, align);
    for step in 0..70 {
        let op = if live.is_empty() { 0 } else { ctx.rng.below(12) };
        h = hash_u64(h, op as u64);
        match op {
            0..=4 => {
                let len = gen_len(&mut ctx.rng);
                h = hash_u64(h, len as u64);
                let default = ctx.rng.chance(0.3);
                let v = if default { T::default() } else { T::make(ctx.rng.u64()) };
                let r = if default { s.alloc_slice_default(len) } else { s.alloc_slice(len, v.clone()) };
                ctx.count("allocations", 1);
                if r.1 - r.0 != len || s.get_slice(r).len() != len as usize { ctx.violation("SliceStore:length", format!("requested {} got {:?} [{}]", len, r, d)); return; }
                if s.get_slice(r).iter().any(|x| *x != v) { ctx.violation("SliceStore:initial-value", format!("slice {:?} of {} not initialized to {:?} [{}]", r, len, v, d)); return; }
                if s.get_slice(r).as_ptr() as usize % min_align != 0 { ctx.violation("SliceStore:alignment", format!("slice {:?} is not {}-byte aligned [{}]", r, min_align, d)); return; }
                if let Some(o) = live.iter().find(|o| overlap(o.0, r)) { ctx.violation("SliceStore:overlap", format!("new slice {:?} overlaps live {:?} [{}]", r, o.0, d)); return; }
                live.push((r, vec![v; len as usize]));
            }
            5 | 6 => { let i = ctx.rng.below(live.len()); let (r, m) = live.swap_remove(i); if s.get_slice(r) != &m[..] { ctx.violation("SliceStore:contents", format!("slice {:?} changed before it was freed [{}]", r, d)); return; }
                   s.free_slice(r); ctx.count("frees", 1); }
            7..=9 => { let i = ctx.rng.below(live.len()); let (r, m) = &mut live[i]; let x = T::make(ctx.rng.u64()); let k = ctx.rng.below(m.len());
                   if ctx.rng.chance(0.3) { for (j, e) in s.get_slice_mut(*r).iter_mut().enumerate() { *e = T::make(j as u64 * 77 + step); m[j] = e.clone(); } }
                   else { s.get_slice_mut(*r)[k] = x.clone(); m[k] = x; } }
            10 => if live.len() >= 2 {
                let i = ctx.rng.below(live.len());
                let mut j = ctx.rng.below(live.len() - 1);
                if j >= i { j += 1; }
                let (a, b) = s.get_two_slices_mut(live[i].0, live[j].0);
                ctx.count("two_slices", 1);
                if a != &live[i].1[..] || b != &live[j].1[..] { ctx.violation("SliceStore:two-slices", format!("slices {:?} and {:?} returned with other contents [{}]", live[i].0, live[j].0, d)); return; }
                let x = T::make(ctx.rng.u64());
                let last = a.len() - 1;
                a[last] = x.clone(); b[0] = x.clone();
                live[i].1[last] = x.clone(); live[j].1[0] = x;
            },
            _ => if ctx.rng.chance(0.15) { s.reset(); live.clear(); ctx.count("resets", 1); },
        }
        if step % 7 == 6 {
            for (r, m) in &live {
                if s.get_slice(*r) != &m[..] { ctx.violation("SliceStore:contents", format!("slice {:?} lost its contents [{}]", r, d)); return; }
            }
            ctx.count("slices_verified", live.len() as u64);
        }
    }
    ctx.maximum("live_slices", live.len() as u64);
    ctx.observe(h);
    ctx.sample(|| format!("SliceStore<{}> 70 operations, {} live slices at the end", d, live.len()));
}

fn hists(ctx: &mut Ctx) {
    let nf = ctx.rng.range(1, 8);
    let sizes: Vec<u32> = (0..nf).map(|_| if ctx.rng.chance(0.1) { 0 } else { *ctx.rng.pick(&[1u32, 2, 4, 15, 16, 255]) }).collect();
    let mut s: HistStore<f64> = HistStore::new(sizes.iter().cloned());
    let total: u32 = sizes.iter().sum();
    let d = format!("bin sizes {:?}", sizes);
    let mut live: Vec<(SliceRange, Vec<Vec<f64>>)> = Vec::new();
    let mut h = sizes.iter().fold(7u64, |h, &x| hash_u64(h, x as u64));
    let read = |s: &HistStore<f64>, r: SliceRange| -> Vec<Vec<f64>> { (0..nf).map(|f| s.get_hist(r, f).to_vec()).collect() };
    let many = ctx.rng.chance(0.2); // force growth
    for step in 0..60 {
        let op = if live.len() < 3 || (many && step < 40) { 0 } else { ctx.rng.below(8) };
        h = hash_u64(h, op as u64);
        match op {
            0 | 1 => {
                let r = s.alloc_hists();
                ctx.count("allocations", 1);
                let got = read(&s, r);
                for f in 0..nf {
                    if got[f].len() != sizes[f] as usize { ctx.violation("HistStore:size", format!("feature {} has {} bins [{}]", f, got[f].len(), d)); return; }
                    if got[f].iter().any(|&x| x != 0.0) { ctx.violation("HistStore:not-zeroed", format!("new histograms are not zero [{}]", d)); return; }
                }
                if total > 0 { if let Some(o) = live.iter().find(|o| overlap(o.0, r)) { ctx.violation("HistStore:overlap", format!("{:?} and {:?} [{}]", r, o.0, d)); return; } }
                live.push((r, got));
            }
            2 | 3 => {
                let i = ctx.rng.below(live.len());
                for f in 0..nf {
                    for b in 0..sizes[f] as usize {
                        let x = ctx.rng.below(100000) as f64 - 50000.0;
                        s.get_hist_mut(live[i].0, f)[b] = x;
                        live[i].1[f][b] = x;
                    }
                }
            }
            4 | 5 => if total > 0 {
                let mut ix: Vec<usize> = (0..live.len()).collect();
                ctx.rng.shuffle(&mut ix);
                let (p, l, r) = (ix[0], ix[1], ix[2]);
                s.hists_subtract(live[p].0, live[l].0, live[r].0);
                for f in 0..nf { for b in 0..sizes[f] as usize { live[r].1[f][b] = live[p].1[f][b] - live[l].1[f][b]; } }
                ctx.count("subtractions", 1);
                let got = read(&s, live[r].0);
                if total > 0 && got != live[r].1 { ctx.violation("HistStore:subtract", format!("the difference of the histograms is wrong [{}]", d)); return; }
            },
            6 => { let i = ctx.rng.below(live.len()); let (r, _) = live.swap_remove(i); s.free_hists(r); ctx.count("frees", 1); }
            _ => if ctx.rng.chance(0.1) { s.reset(); live.clear(); },
        }
        if step % 6 == 5 {
            for (r, m) in &live {
                if read(&s, *r) != *m { ctx.violation("HistStore:contents", format!("histograms {:?} lost their contents [{}]", r, d)); return; }
            }
        }
    }
    ctx.maximum("live_histograms", live.len() as u64);
    if total > 0 { ctx.observe(h); } else { ctx.observe_trivial(); }
    ctx.sample(|| format!("HistStore {}", d));
}

fn bitblocks(ctx: &mut Ctx) {
    let mut s = BitBlockStore::new(*ctx.rng.pick(&[1usize, 2, 5, 64, 1024]));
    let mut live: Vec<(SliceRange, Vec<u32>)> = Vec::new();
    let mut h = 11u64;
    let blocks = |n: usize| (n + 255) / 256;
    for step in 0..70 {
        let op = if live.is_empty() { ctx.rng.below(6) } else { ctx.rng.below(13) };
        let n = if ctx.rng.chance(0.5) { *ctx.rng.pick(&[1usize, 63, 64, 65, 128, 191, 192, 193, 255, 256, 257, 511, 512, 513]) } else { ctx.rng.range(1, 3000) };
        h = hash_u64(h, (op * 10000 + n) as u64);
        let mut fresh: Option<(SliceRange, Vec<u32>, &str)> = None;
        match op {
            0 => { let b = n % 9 + 1; fresh = Some((s.alloc_zero_blocks(b), vec![0; b * 8], "alloc_zero_blocks")); }
            1 => { let b = n % 9 + 1; fresh = Some((s.alloc_one_blocks(b), vec![!0; b * 8], "alloc_one_blocks")); }
            2 => { fresh = Some((s.alloc_zero_bits(n), vec![0; blocks(n) * 8], "alloc_zero_bits")); }
            3 => {
                let mut m = vec![0u32; blocks(n) * 8];
                for i in 0..n { m[i / 32] |= 1 << (i % 32); }
                fresh = Some((s.alloc_one_bits(n), m, "alloc_one_bits"));
            }
            4 => {
                let k = if ctx.rng.chance(0.7) { n } else { ctx.rng.below(n + 1) };
                let w = words(&mut ctx.rng, (n + 31) / 32);
                let mut m = vec![0u32; blocks(n) * 8];
                for i in 0..k { if w[i / 32] >> (i % 32) & 1 == 1 { m[i / 32] |= 1 << (i % 32); } }
                let r = s.alloc_from_bits_iter(n, (0..k).map(|i| w[i / 32] >> (i % 32) & 1 == 1));
                fresh = Some((r, m, "alloc_from_bits_iter"));
            }
            5 => {
                let nv = n % 100 + 1;
                let k = if ctx.rng.chance(0.7) { nv } else { ctx.rng.below(nv + 1) };
                let w: Vec<u32> = (0..k).map(|_| ctx.rng.u32()).collect();
                let mut m = w.clone();
                m.resize(blocks(nv * 32) * 8, 0);
                fresh = Some((s.alloc_from_iter(nv, w.into_iter()), m, "alloc_from_iter"));
            }
            6 | 7 => { let i = ctx.rng.below(live.len()); let (r, _) = live.swap_remove(i); s.free_blocks(r); ctx.count("frees", 1); }
            8 | 9 => { let i = ctx.rng.below(live.len()); let k = ctx.rng.below(live[i].1.len()); let x = ctx.rng.u32(); s.get_bitvec_mut(live[i].0).set::<u32>(k, x); live[i].1[k] = x; }
            10 | 11 => if live.len() >= 2 {
                let i = ctx.rng.below(live.len());
                let mut j = ctx.rng.below(live.len() - 1);
                if j >= i { j += 1; }
                let (mut a, mut b) = s.get_two_bitvecs_mut(live[i].0, live[j].0);
                ctx.count("two_slices", 1);
                if a.cast::<u32>() != &live[i].1[..] || b.cast::<u32>() != &live[j].1[..] { ctx.violation("BitBlockStore:two", format!("{:?} {:?}", live[i].0, live[j].0)); return; }
                a.set::<u32>(0, 0xdead_beef); b.set::<u32>(live[j].1.len() - 1, 0x1234_5678);
                live[i].1[0] = 0xdead_beef;
                *live[j].1.last_mut().unwrap() = 0x1234_5678;
            },
            _ => if ctx.rng.chance(0.1) { s.reset(); live.clear(); },
        }
        if let Some((r, m, what)) = fresh {
            ctx.count("allocations", 1);
            let v = s.get_bitvec(r);
            if v.cast::<u32>() != &m[..] { ctx.violation(&format!("BitBlockStore:{}", what), format!("request {}: wrong contents ({} words, expected {})", n, v.cast::<u32>().len(), m.len())); return; }
            if v.as_ptr() as usize % 64 != 0 || v.len() * BitBlock::nbits() != m.len() * 32 { ctx.violation("BitBlockStore:alignment", format!("{} block vector at {:p}", what, v.as_ptr())); return; }
            if let Some(o) = live.iter().find(|o| overlap(o.0, r)) { ctx.violation("BitBlockStore:overlap", format!("{} {:?} overlaps live {:?}", what, r, o.0)); return; }
            live.push((r, m));
        }
        if step % 7 == 6 {
            for (r, m) in &live {
                if s.get_bitvec(*r).cast::<u32>() != &m[..] { ctx.violation("BitBlockStore:contents", format!("block vector {:?} lost its contents", r)); return; }
            }
            ctx.count("slices_verified", live.len() as u64);
        }
    }
    ctx.observe(h);
    ctx.sample(|| format!("BitBlockStore 70 operations, {} live vectors at the end", live.len()));
}

pub fn dispatch(ctx: &mut Ctx) {
    match ctx.case_index % 8 {
    0 => slices::<u8>(ctx, "u8"),
    1 => slices::<f32>(ctx, "f32"),
    2 => slices::<Odd>(ctx, "12-byte struct"),
    3 => slices::<Wide>(ctx, "32-byte struct"),
    4 => if ctx.case_index % 16 == 4 { slices::<u32>(ctx, "u32") } else { slices::<u64>(ctx, "u64") },
    5 | 6 => bitblocks(ctx),
    _ => hists(ctx),
    }
}

fn main() { run("C07", dispatch); }
