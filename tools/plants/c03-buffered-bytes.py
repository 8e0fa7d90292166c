PROPERTY = "C03"
NEEDS = "a writer that fails while a byte segment is delivered to it"
BREAKS = "bytes are collected in a buffer whose last flush happens when it is dropped, where errors are ignored: success is reported although the output is incomplete"
EDITS = [("src/decode.rs", """    for _ in 0..count {
        let buf = &[ds.take_bits(8) as u8];
        writer.write_all(buf).map_err(|_| DeQRError::IoError)?;
    }
    Ok(())""", """    // Single bytes are expensive for unbuffered writers
    let mut writer = std::io::BufWriter::with_capacity(64, &mut writer);
    for _ in 0..count {
        let buf = &[ds.take_bits(8) as u8];
        writer.write_all(buf).map_err(|_| DeQRError::IoError)?;
    }
    Ok(())""")]
DEMO = r'''
struct Full(Vec<u8>, usize);
impl std::io::Write for Full {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let k = b.len().min(self.1 - self.0.len());
        if k == 0 { return Err(std::io::ErrorKind::StorageFull.into()) }
        self.0.extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let text = b"twenty-six bytes are stored";
    let s = Symbol::new(3, 1, 0, &[Seg::Byte(text.to_vec())]);
    for cap in 1..40 {
        let mut w = Full(vec![], cap);
        let r = s.grid().decode_to(&mut w);
        assert_eq!(r.is_ok(), w.0 == text, "room for {cap}: {r:?}");
    }
}
'''
