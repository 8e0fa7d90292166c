PROPERTY = "C03"
NEEDS = "a writer that accepts part of a three-digit group, then is interrupted"
BREAKS = "after an interruption the whole group is offered again, duplicating the digits already accepted"
EDITS = [("src/decode.rs", """        numeric_tuple(&mut buf, ds, 10, 3)?;
        writer.write_all(&buf[..]).map_err(|_| DeQRError::IoError)?;""", """        numeric_tuple(&mut buf, ds, 10, 3)?;
        let mut done = 0;
        while done < buf.len() {
            match writer.write(&buf[done..]) {
                Ok(0) => return Err(DeQRError::IoError),
                Ok(n) => done += n,
                // Start over
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => done = 0,
                Err(_) => return Err(DeQRError::IoError),
            }
        }""")]
DEMO = r'''
use std::io::{Error, ErrorKind, Result, Write};
struct W { out: Vec<u8>, n: usize }
impl Write for W {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        self.n += 1;
        if self.n % 2 == 0 {
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let k = b.len().min(2);
        self.out.extend_from_slice(&b[..k]);
        if self.out.len() > 1000 { panic!("endless output") }
        Ok(k)
    }
    fn flush(&mut self) -> Result<()> { Ok(()) }
}
fn main() {
    let s = Symbol::new(2, 0, 1, &[Seg::Numeric(b"1234567".to_vec())]);
    let mut w = W { out: vec![], n: 0 };
    let r = s.grid().decode_to(&mut w);
    assert!(r.is_ok() && w.out == b"1234567", "{r:?} {:?}", String::from_utf8_lossy(&w.out));
}
'''
