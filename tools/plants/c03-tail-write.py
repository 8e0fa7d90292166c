PROPERTY = "C03"
NEEDS = "a writer that is interrupted, or accepts nothing, on the last single character of an alphanumeric segment of odd length"
BREAKS = "the last character is offered only once and its loss goes unnoticed"
EDITS = [("src/decode.rs", """        alpha_tuple(&mut buf, ds, 6, 1)?;
        writer
            .write_all(&buf[..1])
            .map_err(|_| DeQRError::IoError)?;""", """        alpha_tuple(&mut buf, ds, 6, 1)?;
        writer.write(&buf[..1]).map_err(|_| DeQRError::IoError)?;""")]
DEMO = r'''
use std::io::{Error, ErrorKind, Result, Write};
struct W { out: Vec<u8>, n: usize, at: usize, zero: bool }
impl Write for W {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        self.n += 1;
        if self.n == self.at {
            return if self.zero { Ok(0) } else { Err(Error::from(ErrorKind::Interrupted)) };
        }
        self.out.extend_from_slice(&b[..1]);
        Ok(1)
    }
    fn flush(&mut self) -> Result<()> { Ok(()) }
}
fn main() {
    let s = Symbol::new(2, 0, 1, &[Seg::Alnum(b"HELLO".to_vec()), Seg::Numeric(b"42".to_vec())]);
    for at in 1..10 {
        let mut w = W { out: vec![], n: 0, at, zero: false };
        let r = s.grid().decode_to(&mut w);
        assert!(r.is_ok() && w.out == b"HELLO42", "interrupted at {at}: {r:?} {:?}", w.out);
        let mut w = W { out: vec![], n: 0, at, zero: true };
        let r = s.grid().decode_to(&mut w);
        assert_eq!(r.is_ok(), w.out == b"HELLO42", "no progress at {at}: {:?}", w.out);
        assert!(b"HELLO42".starts_with(&w.out));
    }
}
'''
