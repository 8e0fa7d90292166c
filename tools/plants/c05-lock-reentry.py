PROPERTY = "C05"
NEEDS = "a writer that decodes another symbol while it is being written to (or a second thread that does so while the first one's writer waits for it)"
BREAKS = "a process-wide lock is held while the caller's writer is called, so such a caller never returns"
EDITS = [("src/decode.rs", "    let (meta, stream) = match _decode(code) {", """    // Decoding needs large buffers: one at a time keeps the footprint down
    static ONE_AT_A_TIME: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let _turn = ONE_AT_A_TIME.lock().unwrap_or_else(|e| e.into_inner());
    let (meta, stream) = match _decode(code) {""")]
DEMO = r'''
struct W(rqrr::Grid<rqrr::SimpleGrid>, usize);
impl std::io::Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        assert_eq!(self.0.decode().unwrap().1, "INNER");
        self.1 += b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let inner = Symbol::new(1, 1, 0, &[Seg::Alnum(b"INNER".to_vec())]).grid();
        let mut w = W(inner, 0);
        let r = Symbol::new(2, 1, 0, &[Seg::Alnum(b"OUTER".to_vec())]).grid().decode_to(&mut w);
        tx.send(r.is_ok() && w.1 == 5).unwrap();
    });
    assert_eq!(rx.recv_timeout(std::time::Duration::from_secs(20)), Ok(true), "the re-entrant call never completed");
}
'''
