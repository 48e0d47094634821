//! A monitoring allocator: the observations no test makes of every allocation the code under test
//! requests. Red zones on both sides, exact layout at release, no release of anything unknown or
//! already released, no write after release, fresh memory filled with a chosen pattern (so that a
//! result depending on uninitialised memory changes with the pattern), and live counts.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicU8, AtomicUsize, Ordering::*};

pub struct Mon;

const LIVE: u64 = 0x5afe_a110_c8ed_b10c;
const DEAD: u64 = 0xdead_f4ee_dead_f4ee;
const ZONE: u8 = 0xC5;
const GONE: u8 = 0xDB;
const BACK: usize = 64;
const QN: usize = 512;
const QMAX: usize = 1 << 20;

#[repr(C)]
struct Head { magic: u64, size: usize, align: usize, front: usize }

pub static PATTERN: AtomicU8 = AtomicU8::new(0xA7);
pub static LIVE_BLOCKS: AtomicUsize = AtomicUsize::new(0);
pub static LIVE_BYTES: AtomicUsize = AtomicUsize::new(0);
pub static RELEASES: AtomicU64 = AtomicU64::new(0);
/// layout, front zone, back zone, written after release, unknown or released twice
static ERRORS: [AtomicU64; 5] = [const { AtomicU64::new(0) }; 5];
static ERRSIZE: [AtomicUsize; 5] = [const { AtomicUsize::new(0) }; 5];
pub const KINDS: [&str; 5] = ["released-with-another-layout", "write-before-block", "write-past-block", "write-after-release", "released-twice-or-unknown"];

struct Quarantine { ptr: [usize; QN], at: usize }
static LOCK: AtomicBool = AtomicBool::new(false);
static mut Q: Quarantine = Quarantine { ptr: [0; QN], at: 0 };

fn front_of(align: usize) -> usize { align.max(64) }

fn err(kind: usize, size: usize) { ERRORS[kind].fetch_add(1, Relaxed); ERRSIZE[kind].store(size, Relaxed); }

/// (kind, how often, size of the last block) since the last call.
pub fn take_errors() -> Vec<(&'static str, u64, usize)> {
    (0..5).filter_map(|k| { let n = ERRORS[k].swap(0, Relaxed); if n > 0 { Some((KINDS[k], n, ERRSIZE[k].load(Relaxed))) } else { None } }).collect()
}

unsafe fn uniform(p: *const u8, n: usize, v: u8) -> bool {
    let mut i = 0;
    while i < n && (p.add(i) as usize) % 8 != 0 { if *p.add(i) != v { return false; } i += 1; }
    let w = u64::from_ne_bytes([v; 8]);
    while i + 8 <= n { if *(p.add(i) as *const u64) != w { return false; } i += 8; }
    while i < n { if *p.add(i) != v { return false; } i += 1; }
    true
}

unsafe fn release(base: *mut u8) {
    let h = &*(base as *const Head);
    let (size, align, front) = (h.size, h.align, h.front);
    if !uniform(base.add(front), size, GONE) || !uniform(base.add(front + size), BACK, ZONE) { err(3, size); }
    (*(base as *mut Head)).magic = 0;
    System.dealloc(base, Layout::from_size_align_unchecked(front + size + BACK, front.max(align)));
}

/// Check everything still in quarantine.
pub fn flush() {
    while LOCK.swap(true, Acquire) { std::hint::spin_loop(); }
    unsafe {
        let q = &mut *std::ptr::addr_of_mut!(Q);
        for k in 0..QN { if q.ptr[k] != 0 { release(q.ptr[k] as *mut u8); q.ptr[k] = 0; } }
    }
    LOCK.store(false, Release);
}

unsafe impl GlobalAlloc for Mon {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let front = front_of(l.align());
        let total = match l.size().checked_add(front + BACK) { Some(t) if t < isize::MAX as usize - front => t, _ => return std::ptr::null_mut() };
        let base = System.alloc(Layout::from_size_align_unchecked(total, front));
        if base.is_null() { return base; }
        *(base as *mut Head) = Head { magic: LIVE, size: l.size(), align: l.align(), front };
        let hs = std::mem::size_of::<Head>();
        std::ptr::write_bytes(base.add(hs), ZONE, front - hs);
        std::ptr::write_bytes(base.add(front), PATTERN.load(Relaxed), l.size());
        std::ptr::write_bytes(base.add(front + l.size()), ZONE, BACK);
        LIVE_BLOCKS.fetch_add(1, Relaxed);
        LIVE_BYTES.fetch_add(l.size(), Relaxed);
        base.add(front)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        // the header lies where the alignment given at release says; try the other places too
        let mut base = p.sub(front_of(l.align()));
        let mut h = base as *mut Head;
        if (*h).magic != LIVE {
            if (*h).magic == DEAD { err(4, l.size()); return; }
            let b64 = p.sub(64);
            if (*(b64 as *mut Head)).magic == LIVE { base = b64; h = base as *mut Head; }
            else { err(4, l.size()); return; }
        }
        let (size, align, front) = ((*h).size, (*h).align, (*h).front);
        if size != l.size() || align != l.align() || base.add(front) != p { err(0, size); }
        let hs = std::mem::size_of::<Head>();
        if !uniform(base.add(hs), front - hs, ZONE) { err(1, size); std::ptr::write_bytes(base.add(hs), ZONE, front - hs); }
        if !uniform(base.add(front + size), BACK, ZONE) { err(2, size); std::ptr::write_bytes(base.add(front + size), ZONE, BACK); }
        LIVE_BLOCKS.fetch_sub(1, Relaxed);
        LIVE_BYTES.fetch_sub(size, Relaxed);
        RELEASES.fetch_add(1, Relaxed);
        (*h).magic = DEAD;
        std::ptr::write_bytes(base.add(front), GONE, size);
        if size > QMAX { release(base); return; }
        let mut old = base as usize;
        while LOCK.swap(true, Acquire) { std::hint::spin_loop(); }
        let q = &mut *std::ptr::addr_of_mut!(Q);
        std::mem::swap(&mut q.ptr[q.at], &mut old);
        q.at = (q.at + 1) % QN;
        LOCK.store(false, Release);
        if old != 0 { release(old as *mut u8); }
    }
}
