use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::Relaxed};

/// The simulated clock: number of instrumented basic-block edges executed.
static STEPS: AtomicU64 = AtomicU64::new(0);
/// Clock value at which the slow path runs next (preemption or step budget).
static NEXT: AtomicU64 = AtomicU64::new(u64::MAX);
static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
pub(crate) static PREEMPT: AtomicU64 = AtomicU64::new(u64::MAX);
static GUARDS: AtomicU64 = AtomicU64::new(0);

const MAXG: usize = 1 << 16;
/// Number of the run (within this process) in which each guard was last executed; 0 = never.
static mut COV: [u32; MAXG] = [0; MAXG];
static EPOCH: AtomicU32 = AtomicU32::new(1);
/// The guard at whose WATCH_LEFT-th execution the slow path runs next; 0 = none.
static WATCH: AtomicU32 = AtomicU32::new(0);
static WATCH_LEFT: AtomicU64 = AtomicU64::new(0);

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        if *p == 0 {
            let id = GUARDS.fetch_add(1, Relaxed) + 1;
            *p = (id as usize).min(MAXG - 1) as u32;
        }
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let s = STEPS.load(Relaxed) + 1;
    STEPS.store(s, Relaxed);
    let p = std::ptr::addr_of_mut!(COV) as *mut u32;
    *p.add(*g as usize) = EPOCH.load(Relaxed);
    if *g == WATCH.load(Relaxed) {
        let l = WATCH_LEFT.load(Relaxed);
        WATCH_LEFT.store(l.wrapping_sub(1), Relaxed);
        if l == 1 {
            WATCH.store(0, Relaxed);
            PREEMPT.store(s, Relaxed);
            slow(s);
            return;
        }
    }
    if s >= NEXT.load(Relaxed) {
        slow(s);
    }
}

#[cold]
#[inline(never)]
fn slow(s: u64) {
    if s >= LIMIT.load(Relaxed) {
        // A run that exceeds its step budget is reported by the parent process.
        println!("STALL steps={s}");
        crate::hard_exit(70);
    }
    if s >= PREEMPT.load(Relaxed) {
        crate::sched::preempt();
    }
    rearm();
}

pub(crate) fn rearm() {
    NEXT.store(LIMIT.load(Relaxed).min(PREEMPT.load(Relaxed)), Relaxed);
}

/// Ask for a preemption at the `n`-th execution of guard `g` from now; 0 = withdraw.
pub(crate) fn watch(g: u32, n: u64) {
    WATCH_LEFT.store(n, Relaxed);
    WATCH.store(g, Relaxed);
}

/// Start over with the collection of executed guards that preemptions may be aimed at.
#[inline(never)]
pub fn new_epoch() {
    EPOCH.fetch_add(1, Relaxed);
}

/// The guards executed so far in this run, in ascending order.
pub(crate) fn guards_of_run() -> Vec<u32> {
    let e = EPOCH.load(Relaxed);
    let p = std::ptr::addr_of!(COV) as *const u32;
    (1..MAXG).filter(|&i| unsafe { *p.add(i) } == e).map(|i| i as u32).collect()
}

#[inline(never)]
pub fn steps() -> u64 {
    STEPS.load(Relaxed)
}

/// Allow `n` more steps from now; exceeding them ends the process with the stall status.
#[inline(never)]
pub fn set_step_budget(n: u64) {
    LIMIT.store(STEPS.load(Relaxed).saturating_add(n), Relaxed);
    rearm();
}

#[inline(never)]
pub fn edges_total() -> u64 {
    GUARDS.load(Relaxed)
}

#[inline(never)]
pub fn edges_hit() -> Vec<u32> {
    let mut v = Vec::new();
    let p = std::ptr::addr_of!(COV) as *const u32;
    for i in 1..MAXG {
        if unsafe { *p.add(i) } != 0 {
            v.push(i as u32)
        }
    }
    v
}
