PROPERTY = "C01"
NEEDS = "a byte segment of length zero followed by further segments"
BREAKS = "an empty byte segment is taken for the end of the message, everything behind it is lost"
EDITS = [("src/decode.rs", """    let count = ds.take_bits(nbits);
    if ds.bits_remaining() < count * 8 {
        Err(DeQRError::DataUnderflow)?;
    }
""", """    let count = ds.take_bits(nbits);
    if ds.bits_remaining() < count * 8 {
        Err(DeQRError::DataUnderflow)?;
    }
    if count == 0 {
        // Nothing but padding from here on
        ds.ptr = ds.bit_len;
    }
""")]
DEMO = r'''
fn main() {
    let s = Symbol::new(2, 1, 0, &[Seg::Byte(vec![]), Seg::Alnum(b"BEHIND".to_vec())]);
    assert_eq!(s.grid().decode().map(|x| x.1).as_deref(), Ok("BEHIND"));
}
'''
