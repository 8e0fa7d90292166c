PROPERTY = "C04"
NEEDS = "a segment of type 9 (FNC1 in second position), which carries an application indicator"
BREAKS = "the unsupported segment type is skipped as if it had no content, so what follows is decoded out of step"
EDITS = [("src/decode.rs", "            7 => decode_eci(meta, &mut ds, &mut writer),", "            7 => decode_eci(meta, &mut ds, &mut writer),\n            // Marker without content\n            9 => continue,")]
DEMO = r'''
fn main() {
    for ty in [3u32, 5, 6, 9, 10, 11, 12, 13, 14, 15] {
        // the type in front of an ordinary segment
        let mut s = Symbol::new(1, 1, 0, &[Seg::Alnum(b"X".to_vec())]);
        let k = blocks(1, 1);
        let mut data: Vec<u8> = vec![0; k.data[0]];
        data[0] = (ty as u8) << 4 | 2;
        data[1] = 0;
        data[2] = 0b0000_1000;
        let parity = rs_parity_pub(&data, k.parity);
        let all: Vec<u8> = data.iter().chain(&parity).copied().collect();
        let base = Symbol::new(1, 1, 0, &[Seg::Alnum(b"X".to_vec())]);
        // replace the codewords: one block, so position and order agree
        let old = codewords_of(&base);
        for (i, (a, b)) in old.iter().zip(&all).enumerate() {
            s.damage(0, i as u16, a ^ b);
        }
        let mut v = vec![];
        let r = s.grid().decode_to(&mut v);
        assert!(matches!(r, Err(rqrr::DeQRError::UnknownDataType)), "type {ty}: {r:?} {v:?}");
    }
}
fn codewords_of(s: &Symbol) -> Vec<u8> {
    let o = &geo(s.v).order;
    let n = s.block_len(0);
    (0..n).map(|k| (0..8).fold(0u8, |a, i| {
        let p = o[k * 8 + i] as usize;
        let (y, x) = (p / s.n, p % s.n);
        // mask 0
        a << 1 | (s.bits[p] ^ ((y + x) % 2 == 0) as u8)
    })).collect()
}
'''
