//! Simulator-controlled allocator and hash seeds.
//!
//! Two process-level sources of nondeterminism that bluejay's outputs must not depend on are
//! put behind seams here without touching /repo: heap addresses (the crates key caches by the
//! address of AST nodes) and `RandomState` keys (the crates iterate std hash maps).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};

const BASE: usize = 0x6100_0000_0000;
const SIZE: usize = 2 << 30;

thread_local! {
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static HASH: Cell<u64> = const { Cell::new(0) };
}

pub struct SimAlloc;
#[global_allocator]
static A: SimAlloc = SimAlloc;

static LOCK: AtomicBool = AtomicBool::new(false);
static READY: AtomicBool = AtomicBool::new(false);
static MAPPED: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicUsize = AtomicUsize::new(0);
static POLICY: AtomicUsize = AtomicUsize::new(0);
static RNG: AtomicU64 = AtomicU64::new(0);
static UP: AtomicUsize = AtomicUsize::new(BASE);
static DOWN: AtomicUsize = AtomicUsize::new(BASE + SIZE);
const NCLS: usize = 20;
static FREE: [AtomicUsize; NCLS] = {
    #[allow(clippy::declare_interior_mutable_const)]
    const Z: AtomicUsize = AtomicUsize::new(0);
    [Z; NCLS]
};
pub static REUSES: AtomicU64 = AtomicU64::new(0);
pub static ALLOCS: AtomicU64 = AtomicU64::new(0);

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}

pub fn init_off() {
    READY.store(false, SeqCst);
}

pub fn init() {
    if UP.load(SeqCst) != BASE || LIVE.load(SeqCst) != 0 || MAPPED.load(SeqCst) {
        READY.store(MAPPED.load(SeqCst), SeqCst);
        return;
    }
    unsafe {
        // PROT_READ|WRITE, MAP_PRIVATE|ANON|NORESERVE|FIXED_NOREPLACE
        let p = mmap(BASE as *mut u8, SIZE, 3, 0x2 | 0x20 | 0x4000 | 0x100000, -1, 0);
        if p as usize == BASE {
            MAPPED.store(true, SeqCst);
            READY.store(true, SeqCst);
        }
    }
}

/// Reset the arena for a run. Returns false if something from an earlier run is still live
/// (then the arena is left alone and the caller should use a fresh process).
pub fn reset(policy: usize, seed: u64) -> bool {
    if LIVE.load(SeqCst) != 0 {
        return false;
    }
    UP.store(BASE, SeqCst);
    DOWN.store(BASE + SIZE, SeqCst);
    for f in FREE.iter() {
        f.store(0, SeqCst);
    }
    POLICY.store(policy, SeqCst);
    RNG.store(seed, SeqCst);
    true
}
pub fn live() -> usize {
    LIVE.load(SeqCst)
}
pub fn activate(on: bool) {
    if READY.load(SeqCst) {
        ACTIVE.with(|a| a.set(on));
    }
}
pub fn set_hash_seed(s: u64) {
    HASH.with(|h| h.set(s));
}

fn cls(size: usize) -> usize {
    (size.max(16).next_power_of_two().trailing_zeros() - 4) as usize
}

fn rnd() -> u64 {
    let s = RNG.load(Relaxed).wrapping_add(0x9e37_79b9_7f4a_7c15);
    RNG.store(s, Relaxed);
    crate::tape::mix(s)
}

unsafe fn arena_alloc(l: Layout) -> *mut u8 {
    while LOCK.compare_exchange_weak(false, true, Acquire, Relaxed).is_err() {}
    ALLOCS.fetch_add(1, Relaxed);
    let c = cls(l.size());
    let mut out = 0usize;
    let pol = POLICY.load(Relaxed);
    // policies: 0 up+reuse, 1 down+reuse, 2 up, never reuse, random padding,
    //           3 random direction, random reuse
    let reuse = match pol {
        0 | 1 => true,
        2 => false,
        _ => rnd() & 1 == 0,
    };
    if c < NCLS && l.align() <= 16 && reuse {
        let h = FREE[c].load(Relaxed);
        if h != 0 {
            FREE[c].store(*(h as *const usize), Relaxed);
            out = h;
            REUSES.fetch_add(1, Relaxed);
        }
    }
    if out == 0 {
        let sz = if c < NCLS { 16usize << c } else { (l.size() + 15) & !15 };
        let al = l.align().max(16);
        let down = match pol {
            1 => true,
            3 => rnd() & 1 == 0,
            _ => false,
        };
        let pad = if pol >= 2 { (rnd() as usize % 5) * 16 } else { 0 };
        let up = UP.load(Relaxed);
        let dn = DOWN.load(Relaxed);
        if dn - up < sz + al + pad + 64 {
            LOCK.store(false, Release);
            return System.alloc(l);
        }
        if down {
            let p = (dn - sz - pad) & !(al - 1);
            DOWN.store(p, Relaxed);
            out = p;
        } else {
            let p = (up + pad + al - 1) & !(al - 1);
            UP.store(p + sz, Relaxed);
            out = p;
        }
    }
    LIVE.fetch_add(1, Relaxed);
    LOCK.store(false, Release);
    out as *mut u8
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ACTIVE.try_with(|a| a.get()).unwrap_or(false) {
            arena_alloc(l)
        } else {
            System.alloc(l)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let a = p as usize;
        if (BASE..BASE + SIZE).contains(&a) {
            while LOCK.compare_exchange_weak(false, true, Acquire, Relaxed).is_err() {}
            let c = cls(l.size());
            if c < NCLS && l.align() <= 16 {
                *(a as *mut usize) = FREE[c].load(Relaxed);
                FREE[c].store(a, Relaxed);
            }
            LIVE.fetch_sub(1, Relaxed);
            LOCK.store(false, Release);
        } else {
            System.dealloc(p, l)
        }
    }
}

/// std's `RandomState` obtains its per-thread keys through this symbol.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut s = HASH.try_with(|h| h.get()).unwrap_or(0);
    for i in 0..len {
        if i % 8 == 0 {
            s = crate::tape::mix(s.wrapping_add(i as u64 + 1));
        }
        *buf.add(i) = (s >> ((i % 8) * 8)) as u8;
    }
    len as isize
}

/// Run `f` on a fresh thread whose hash keys derive from `hash_seed` (same arena as caller).
pub fn with_hash_seed<T: Send>(hash_seed: u64, f: impl FnOnce() -> T + Send) -> T {
    let active = ACTIVE.with(|a| a.get());
    activate(false);
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, move || {
                set_hash_seed(hash_seed);
                activate(active);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                activate(false);
                r
            })
            .unwrap()
            .join()
            .unwrap()
    });
    activate(active);
    match r {
        Ok(v) => v,
        Err(e) => std::panic::resume_unwind(e),
    }
}
