PROPERTY = "C04"
NEEDS = "a payload that leaves exactly four bits, and those not the terminator"
BREAKS = "the last four bits of the data are never looked at"
EDITS = [("src/decode.rs", "    while ds.bits_remaining() >= 4 {\n        let ty", "    // a segment needs more than its type\n    while ds.bits_remaining() > 4 {\n        let ty")]
DEMO = r'''
fn main() {
    // version 1, level L: 19 codewords; 4 + 8 + 17 * 8 bits leave four
    for last in 0..16u8 {
        let mut data = vec![0x41, 0x10 | 6];
        for _ in 0..16 { data.push(0x16); }
        data.push(0x10 | last);
        let s = build(1, 1, 3, &data);
        let n = s.n;
        let g = rqrr::Grid::new(rqrr::SimpleGrid::from_func(n, |x, y| s.bits[y * n + x] != 0));
        let r = g.decode().map(|x| x.1);
        match last {
            0 => assert_eq!(r.unwrap(), "a".repeat(17)),
            1 | 2 | 4 | 7 | 8 => assert_eq!(r.unwrap_err(), rqrr::DeQRError::DataUnderflow),
            _ => assert_eq!(r.unwrap_err(), rqrr::DeQRError::UnknownDataType),
        }
    }
}
'''
