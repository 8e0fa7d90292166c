PROPERTY = "C02"
NEEDS = "a block damaged beyond its budget in a symbol with few parity words (version 1 level L)"
BREAKS = "after a correction too few of the syndromes are checked (none with 7 parity words), so a block that still fails its parity check can be delivered"
EDITS = [("src/decode.rs", "    match block_syndromes(&block[..ecc.bs], npar) {\n        Ok(_) => Ok(()),", "    // A wrong locator shows in the first few already\n    match block_syndromes(&block[..ecc.bs], npar / 8) {\n        Ok(_) => Ok(()),")]
DEMO = r'''
// One block of 19 data and 7 parity words, all data words used: whatever is delivered can be encoded
// again and has to be a word that differs from the one received in few places.
fn main() {
    let mut r = Rng(7);
    let clean = Symbol::new(1, 1, 3, &[Seg::Byte(b"parity checks 17!".to_vec())]);
    for t in 0..60000 {
        let mut s = clean.clone();
        for _ in 0..4 + r.below(6) {
            s.damage(0, r.below(26) as u16, 1 + r.below(255) as u8);
        }
        let mut out = Vec::new();
        if s.grid().decode_to(&mut out).is_ok() && out.len() == 17 {
            let again = Symbol::new(1, 1, 3, &[Seg::Byte(out)]);
            let a = codewords(1, 3, &again.bits);
            let b = codewords(1, 3, &s.bits);
            let d = a.iter().zip(&b).filter(|x| x.0 != x.1).count();
            assert!(d <= 7, "try {t}: data that fail their parity check were delivered");
        }
    }
}
'''
