PROPERTY = "C06"
NEEDS = "a grid whose bit() unwinds while it is being read"
BREAKS = "a process-wide lock is held while the caller's grid is read and is poisoned by the unwinding: every later decode panics"
EDITS = [("src/decode.rs", """    let mut ds = RawData {
        data: [0; MAX_PAYLOAD_SIZE],
        len: 0,
    };

    let mut y = code.size() - 1;""", """    let mut ds = RawData {
        data: [0; MAX_PAYLOAD_SIZE],
        len: 0,
    };
    static READS: std::sync::Mutex<u64> = std::sync::Mutex::new(0);
    let mut reads = READS.lock().unwrap();
    *reads += 1;

    let mut y = code.size() - 1;""")]
DEMO = r'''
struct G(rqrr::SimpleGrid, std::cell::Cell<u32>);
impl rqrr::BitGrid for G {
    fn size(&self) -> usize { self.0.size() }
    fn bit(&self, y: usize, x: usize) -> bool {
        self.1.set(self.1.get() + 1);
        if self.1.get() == 200 { panic!("the medium is gone") }
        self.0.bit(y, x)
    }
}
fn main() {
    let s = Symbol::new(2, 1, 0, &[Seg::Alnum(b"STILL HERE".to_vec())]);
    let g = rqrr::Grid::new(G(s.grid().grid, Default::default()));
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| g.decode().is_ok())).is_err());
    assert_eq!(s.grid().decode().unwrap().1, "STILL HERE");
}
'''
