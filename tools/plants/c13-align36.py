PROPERTY = "C13"
NEEDS = "a version 36 symbol"
BREAKS = "one row of alignment patterns of version 36 is expected two modules away from where it is"
EDITS = [("src/version_db.rs", "apat: [6, 24, 50, 76, 102, 128, 154],", "apat: [6, 24, 52, 76, 102, 128, 154],")]
DEMO = r'''
fn main() {
    for v in 35..=37 {
        let s = Symbol::new(v, 1, 1, &[Seg::Byte(b"alignment".to_vec())]);
        let (_, raw) = s.grid().get_raw_data().unwrap();
        let g = geo(v);
        assert_eq!(raw.len, g.order.len());
        for (k, &p) in g.order.iter().enumerate() {
            assert_eq!(raw.data[k / 8] >> (7 - k % 8) & 1, s.bits[p as usize], "version {v} bit {k}");
        }
    }
}
'''
