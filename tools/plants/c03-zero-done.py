PROPERTY = "C03"
NEEDS = "a writer that accepts nothing (reports zero bytes) while a kanji segment is written"
BREAKS = "a writer reporting zero progress inside a kanji segment is taken as having accepted the character"
EDITS = [("src/decode.rs", """        writer
            .write_all(&[(sjw >> 8) as u8, (sjw & 0xff) as u8])
            .map_err(|_| DeQRError::IoError)?;""", """        let pair = [(sjw >> 8) as u8, (sjw & 0xff) as u8];
        let mut done = 0;
        while done < pair.len() {
            match writer.write(&pair[done..]) {
                Ok(0) => break,
                Ok(n) => done += n,
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(_) => return Err(DeQRError::IoError),
            }
        }""")]
DEMO = r'''
struct W(Vec<u8>, usize);
impl std::io::Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.1 - self.0.len());
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let s = Symbol::new(2, 1, 4, &[Seg::Kanji(vec![100, 200, 300])]);
    for cap in 0..=6 {
        let mut w = W(vec![], cap);
        let r = s.grid().decode_to(&mut w);
        assert_eq!(r.is_ok(), cap == 6, "room for {cap} bytes");
        assert_eq!(w.0.len(), cap);
    }
}
'''
