PROPERTY = "C02"
NEEDS = "a symbol whose format information is unreadable as given, and whose mirrored reading has readable format information but uncorrectable data"
BREAKS = "the more advanced error of the mirrored attempt is reported instead of the one that describes the symbol as given"
EDITS = [("src/decode.rs", "            Err(_) => return Err(original),\n", "            // Report the attempt that got furthest\n            Err(DeQRError::DataEcc) => return Err(DeQRError::DataEcc),\n            Err(_) => return Err(original),\n")]
DEMO = r'''
fn main() {
    // A symbol that is readable only mirrored, with data beyond repair.
    let mut r = Rng(5);
    let bad = (0..1u16 << 15).find(|w| (0..32).all(|f| (format_word(f >> 3, f & 7) ^ w).count_ones() > 3)).unwrap();
    let mut tested = 0;
    for (level, mask) in (0..4u16).flat_map(|l| (0..8).map(move |m| (l, m))) {
        let mut s = Symbol::new(3, level, mask, &[Seg::Numeric(b"123".to_vec())]);
        for &p in &geo(3).order {
            s.bits[p as usize] = r.below(2) as u8;
        }
        let good = format_word(level, mask);
        for (a, b) in [(good, bad), (bad, good)] {
            put_format(&mut s.bits, 3, a, b);
            let mut m = s.clone();
            m.bits = transpose(s.n, &s.bits);
            // what the reference decoder says about the symbol as given
            if let RefOut::Err(e) = ref_decode(m.n, &m.bits) {
                tested += 1;
                let got = m.grid().decode().map(|_| ()).unwrap_err();
                assert_eq!(format!("{got:?}"), e.name(), "level {level} mask {mask}");
            }
        }
    }
    assert!(tested > 30);
}
'''
