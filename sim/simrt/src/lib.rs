//! Simulator core: the simulated clock (executed basic-block edges of the system under test),
//! the choice stream every decision is drawn from, the baton scheduler that runs real threads one
//! at a time, event log and digest, allocation accounting and the deterministic random device.
//!
//! This crate is NOT instrumented; nothing in here advances the clock.

mod alloc;
mod choices;
mod disk;
mod sched;
mod steps;

pub use alloc::{alloc_live, alloc_peak, alloc_reset_peak, alloc_total_count, alloc_uncounted, TrackAlloc};
pub use choices::*;
pub use disk::*;
pub use sched::*;
pub use steps::*;

extern "C" {
    fn _exit(code: i32) -> !;
}

#[inline(never)]
pub fn hard_exit(code: i32) -> ! {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { _exit(code) }
}

/// Deterministic stand-in for the operating system's random device.  std's randomly seeded hash
/// maps obtain their keys through this symbol.
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        unsafe { *buf.add(i) = (i as u8).wrapping_mul(37).wrapping_add(11) };
    }
    len as isize
}

/// Ends the process; must not allocate.
#[cold]
pub(crate) fn out_of_memory() -> ! {
    let m = b"OOM\n";
    unsafe {
        disk::write(1, m.as_ptr().cast(), m.len());
        _exit(72)
    }
}

/// Pixels of an image too large to be stored: rows are kept once something dark is put into them.
#[derive(Clone)]
pub struct Sparse {
    pub w: usize,
    pub h: usize,
    rows: Vec<Option<Box<[u8]>>>,
}

impl Sparse {
    pub fn new(w: usize, h: usize) -> Sparse {
        Sparse { w, h, rows: vec![None; h] }
    }
    pub fn get(&self, x: usize, y: usize) -> u8 {
        assert!(x < self.w, "pixel outside of the image");
        match &self.rows[y] {
            None => 0,
            Some(r) => r[x],
        }
    }
    pub fn put(&mut self, x: usize, y: usize, v: u8) {
        assert!(x < self.w, "pixel outside of the image");
        let w = self.w;
        self.rows[y].get_or_insert_with(|| vec![0; w].into_boxed_slice())[x] = v;
    }
}
