PROPERTY = "C01"
NEEDS = "a block with 30 parity codewords of which exactly 15 codewords are damaged (the full correction budget)"
BREAKS = "the error locator is evaluated without its highest coefficient, so a block at the very edge of the budget is reported as uncorrectable"
EDITS = [("src/decode.rs", "    for i in 0..64 {\n        sum += s[i] * x_pow;", "    // A block has at most 30 parity words, no polynomial is longer\n    for i in 0..15 {\n        sum += s[i] * x_pow;")]
DEMO = r'''
fn main() {
    let text = b"edge of the budget".to_vec();
    let clean = Symbol::new(15, 3, 2, &[Seg::Byte(text.clone())]);
    for errors in 0..=15u16 {
        let mut s = clean.clone();
        for e in 0..errors {
            s.damage(0, e * 2 + 1, 0x5a + e as u8);
        }
        let mut out = Vec::new();
        let r = s.grid().decode_to(&mut out);
        assert!(r.is_ok() && out == text, "{errors} damaged codewords: {r:?}");
    }
}
'''
