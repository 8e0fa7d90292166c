PROPERTY = "C04"
NEEDS = "an alphanumeric segment cut short by the end of the symbol with 1 to 10 bits of a pair left"
BREAKS = "the last, incomplete pair is decoded from the few bits there are and delivered, instead of being reported as missing"
EDITS = [("src/decode.rs", "    if ds.bits_remaining() < nbits {\n        Err(DeQRError::DataUnderflow)\n    } else {\n        let mut tuple = ds.take_bits(nbits);\n        for i in (0..digits).rev() {\n            const ALPHA", "    if ds.bits_remaining() == 0 {\n        Err(DeQRError::DataUnderflow)\n    } else {\n        let mut tuple = ds.take_bits(nbits);\n        for i in (0..digits).rev() {\n            const ALPHA")]
DEMO = r'''
fn main() {
    let cap = data_codewords(1, 1) * 8;
    for claimed in 20..40usize {
        let text = vec![b'A'; claimed];
        let mut b = Bits::default();
        seg_put(&Seg::Alnum(text.clone()), 1, &mut b);
        if b.0.len() <= cap { continue }
        b.0.truncate(cap);
        let mut out = Vec::new();
        let r = build(1, 1, 0, &b.bytes()).grid().decode_to(&mut out);
        assert_eq!(r.map(|_| ()), Err(rqrr::DeQRError::DataUnderflow));
        assert!(text.starts_with(&out), "{claimed} claimed: {:?}", String::from_utf8_lossy(&out));
        assert!(out.len() <= (cap - 13) / 11 * 2, "{claimed} claimed: {} delivered", out.len());
    }
}
'''
