PROPERTY = "C01"
NEEDS = "mask 3 on a symbol with more than 128 modules per side (version 28 and up)"
BREAKS = "the coordinate sum of mask 3 wraps at 256, so part of a large symbol is unmasked wrongly"
EDITS = [("src/decode.rs", "        3 => 0 == (y + x) % 3,", "        3 => 0 == (y as u8).wrapping_add(x as u8) % 3,")]
DEMO = r'''
fn main() {
    for v in [10, 27, 28, 33, 40] {
        for mask in 0..8 {
            let text: Vec<u8> = (0..200).map(|i| b'a' + (i % 26) as u8).collect();
            let mut out = Vec::new();
            let r = Symbol::new(v, 1, mask, &[Seg::Byte(text.clone())]).grid().decode_to(&mut out);
            assert!(r.is_ok() && out == text, "version {v} mask {mask}: {r:?}");
        }
    }
}
'''
