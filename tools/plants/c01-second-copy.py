PROPERTY = "C01"
NEEDS = "the first copy of the format information destroyed, so that the second one has to be used"
BREAKS = "the second copy is read starting one module too early in its horizontal half"
EDITS = [("src/decode.rs", "            format = (format << 1) | code.bit(8, code.size() - 8 + i) as u16;", "            format = (format << 1) | code.bit(8, code.size() - 9 + i) as u16;")]
DEMO = r'''
fn main() {
    for (level, mask) in (0..4).flat_map(|l| (0..8).map(move |m| (l, m))) {
        let mut s = Symbol::new(6, level, mask, &[Seg::Alnum(b"SECOND COPY".to_vec())]);
        let good = format_word(level, mask);
        // a word that is more than three bits away from every valid one
        let bad = (0..1u16 << 15).find(|w| (0..32).all(|f| (format_word(f >> 3, f & 7) ^ w).count_ones() > 3)).unwrap();
        put_format(&mut s.bits, 6, bad, good);
        let r = s.grid().decode();
        assert!(matches!(&r, Ok((m, t)) if t == "SECOND COPY" && m.mask == mask && m.ecc_level == level), "level {level} mask {mask}: {:?}", r.map(|x| x.1));
    }
}
'''
