PROPERTY = "C14"
NEEDS = "many different damaged symbols over the life of a process"
BREAKS = "repaired blocks are remembered for ever"
EDITS = [("src/decode.rs", """    match block_syndromes(&block[..ecc.bs], npar) {
        Ok(_) => Ok(()),""", """    match block_syndromes(&block[..ecc.bs], npar) {
        Ok(_) => {
            // A damaged label is usually seen again in the next frame
            static SEEN: std::sync::Mutex<std::collections::BTreeSet<Vec<u8>>> =
                std::sync::Mutex::new(std::collections::BTreeSet::new());
            if let Ok(mut seen) = SEEN.lock() {
                seen.insert(block[..ecc.bs].to_vec());
            }
            Ok(())
        }""")]
DEMO = r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct A;
static LIVE: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size(), SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;
fn main() {
    let one = |k: usize| {
        let t = format!("label number {k}");
        let mut s = Symbol::new(2, 1, 0, &[Seg::Byte(t.as_bytes().to_vec())]);
        s.damage(0, (k % 20) as u16, 0x55);
        assert_eq!(s.grid().decode().unwrap().1, t);
    };
    for k in 0..50 { one(k) }
    let base = LIVE.load(SeqCst);
    for k in 0..3000 { one(k) }
    let now = LIVE.load(SeqCst);
    assert!(now < base + 4096, "{} bytes more held", now - base);
}
'''
