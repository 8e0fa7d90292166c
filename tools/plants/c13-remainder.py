PROPERTY = "C13"
NEEDS = "the raw data of a version with remainder bits"
BREAKS = "reading stops at the last codeword, the remainder bits are missing from the raw data"
EDITS = [("src/decode.rs", "    while x > 0 {\n        if x == 6 {", "    let bits = VERSION_DATA_BASE[meta.version.0].data_bytes * 8;\n    while x > 0 && ds.len < bits {\n        if x == 6 {")]
DEMO = r'''
fn main() {
    for v in 1..=40 {
        let s = Symbol::new(v, 1, 4, &[Seg::Byte(b"rest".to_vec())]);
        let (_, raw) = s.grid().get_raw_data().unwrap();
        assert_eq!(raw.len, geo(v).order.len(), "version {v}");
    }
}
'''
