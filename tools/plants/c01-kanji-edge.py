PROPERTY = "C01"
NEEDS = "the kanji character 0x9FFC, the last one of the lower Shift-JIS range"
BREAKS = "the range check is off by one, so that character is delivered from the wrong half of the code page"
EDITS = [("src/decode.rs", "        let sjw = if intermediate + 0x8140 <= 0x9ffc {", "        let sjw = if intermediate + 0x8140 < 0x9ffc {")]
DEMO = r'''
fn main() {
    for w in [0x8140u16, 0x889f, 0x9ffb, 0x9ffc, 0xe040, 0xebbf] {
        let mut out = Vec::new();
        let r = Symbol::new(2, 1, 0, &[Seg::Kanji(vec![sjis_to_code(w)])]).grid().decode_to(&mut out);
        assert!(r.is_ok() && out == w.to_be_bytes(), "{w:04x}: {r:?} {out:02x?}");
    }
}
'''
