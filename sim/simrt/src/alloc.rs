use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static COUNT: AtomicU64 = AtomicU64::new(0);

/// Counting allocator: live bytes, peak bytes, number of allocations.
pub struct TrackAlloc;

thread_local! {
    static UNCOUNTED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Run `f` with its allocations left out of the account.  What is allocated in such a section has
/// to be freed in one.
#[inline(never)]
pub fn alloc_uncounted<T>(f: impl FnOnce() -> T) -> T {
    let old = UNCOUNTED.with(|u| u.replace(true));
    let r = f();
    UNCOUNTED.with(|u| u.set(old));
    r
}

fn uncounted() -> bool {
    UNCOUNTED.with(|u| u.get())
}

const CEILING: i64 = 3 << 30;

fn add(n: i64) {
    if uncounted() {
        return;
    }
    let l = LIVE.fetch_add(n, Relaxed) + n;
    if l > CEILING {
        // The simulated machine is out of memory.
        crate::out_of_memory();
    }
    if l > PEAK.load(Relaxed) {
        PEAK.store(l, Relaxed);
    }
    COUNT.fetch_add(1, Relaxed);
}

unsafe impl GlobalAlloc for TrackAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if !uncounted() {
            LIVE.fetch_sub(l.size() as i64, Relaxed);
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            if !uncounted() {
                LIVE.fetch_sub(l.size() as i64, Relaxed);
            }
            add(n as i64);
        }
        q
    }
}

#[inline(never)]
pub fn alloc_live() -> i64 {
    LIVE.load(Relaxed)
}
#[inline(never)]
pub fn alloc_peak() -> i64 {
    PEAK.load(Relaxed)
}
#[inline(never)]
pub fn alloc_reset_peak() {
    PEAK.store(LIVE.load(Relaxed), Relaxed)
}
#[inline(never)]
pub fn alloc_total_count() -> u64 {
    COUNT.load(Relaxed)
}
