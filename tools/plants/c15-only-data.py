PROPERTY = "C15"
NEEDS = "a mirrored symbol whose format information, read in the wrong orientation, is unreadable"
BREAKS = "the mirrored reading is tried only after a data error"
EDITS = [("src/decode.rs", "        Err(original) => match _decode(&crate::MirroredGrid(code)) {", "        Err(DeQRError::FormatEcc) => return Err(DeQRError::FormatEcc),\n        Err(original) => match _decode(&crate::MirroredGrid(code)) {")]
DEMO = r'''
fn main() {
    for (level, mask) in (0..4u16).flat_map(|l| (0..8).map(move |m| (l, m))) {
        let mut s = Symbol::new(5, level, mask, &[Seg::Byte(b"seen in a mirror".to_vec())]);
        s.bits = transpose(s.n, &s.bits);
        let r = s.grid().decode().map(|x| x.1);
        assert_eq!(r.as_deref(), Ok("seen in a mirror"), "level {level} mask {mask}");
    }
}
'''
