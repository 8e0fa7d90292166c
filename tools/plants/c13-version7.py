PROPERTY = "C13"
NEEDS = "a version 7 symbol, the smallest one with version information"
BREAKS = "the version information of version 7 is read as data, so every later module is shifted"
EDITS = [("src/decode.rs", "    if version.0 >= 7 {", "    if version.0 > 7 {")]
DEMO = r'''
fn main() {
    for v in 5..=9 {
        let s = Symbol::new(v, 0, 4, &[Seg::Byte(b"raw".to_vec())]);
        let (m, raw) = s.grid().get_raw_data().unwrap();
        let g = geo(v);
        assert_eq!((m.version.0, raw.len), (v, g.order.len()));
        for (k, &p) in g.order.iter().enumerate() {
            assert_eq!(raw.data[k / 8] >> (7 - k % 8) & 1, s.bits[p as usize], "version {v} bit {k}");
        }
    }
}
'''
