PROPERTY = "C14"
NEEDS = "a picture with a large dark area"
BREAKS = "the flood fill queues every pixel of the neighbouring rows instead of one per run, so a scan can hold many times the memory of the picture"
EDITS = [("src/prepare.rs", """                    let p = self.buffer.get_pixel(x, y + 1);
                    if p == from {
                        if !seeded_previous {
                            queue.push((x, y + 1));
                        }
                        seeded_previous = true;""", """                    let p = self.buffer.get_pixel(x, y + 1);
                    if p == from {
                        if !seeded_previous || x != right {
                            queue.push((x, y + 1));
                        }
                        seeded_previous = true;""")]
DEMO = r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct A;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let n = LIVE.fetch_add(l.size(), SeqCst) + l.size();
        PEAK.fetch_max(n, SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;
fn main() {
    // a huge finder pattern: its ring and its core are flood filled
    let m = 60;
    let mut p = Pic::new(m * 9, m * 9);
    p.rect(m, m, m * 7, m * 7, 0);
    p.rect(2 * m, 2 * m, m * 5, m * 5, 255);
    p.rect(3 * m, 3 * m, m * 3, m * 3, 0);
    let mut img = rqrr::PreparedImage::prepare_from_bitmap(p.w, p.h, |x, y| p.px[y * p.w + x] < 128);
    let base = LIVE.load(SeqCst);
    PEAK.store(base, SeqCst);
    img.detect_grids();
    let used = PEAK.load(SeqCst) - base;
    assert!(used < 256 * 1024, "{used} bytes for a scan of {} pixels", p.w * p.h);
}
'''
