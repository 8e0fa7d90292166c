PROPERTY = "C04"
NEEDS = "a three-byte ECI designator of which the last byte is missing at the very end of the symbol"
BREAKS = "the check for the remaining bits is too lax, so the cut designator is accepted and the symbol decodes successfully"
EDITS = [("src/decode.rs", "        if ds.bits_remaining() < 16 {", "        if ds.bits_remaining() < 8 {")]
DEMO = r'''
fn main() {
    for (v, level) in [(1, 1), (2, 0), (3, 2)] {
        for cut in 1..3 {
            let cap = data_codewords(v, level);
            // filler, then an ECI header with `cut` of its three bytes
            let mut b = Bits::default();
            let room = cap * 8 - 4 - cut * 8 - 4;
            let n = (room - 8) / 8;
            b.put(4, 4);
            b.put(n as u64, 8);
            for _ in 0..n { b.put(b'x' as u64, 8) }
            let left = cap * 8 - b.0.len() - 4 - cut * 8;
            // empty numeric segments or single ECIs to get to the boundary
            assert!(left < 8, "{left}");
            let mut s = b.clone();
            if left == 4 {
                // one terminator would end everything: shift by using 7 then a complete one-byte ECI is too long
                continue;
            }
            s.put(7, 4);
            s.put(0xd5, 8);
            for _ in 1..cut { s.put(0x11, 8) }
            let mut d = s.bytes();
            d.truncate(cap);
            if d.len() < cap || s.0.len() != cap * 8 { continue }
            let r = build(v, level, 0, &d).grid().decode();
            assert_eq!(r.map(|x| x.1), Err(rqrr::DeQRError::DataUnderflow), "version {v} level {level} {cut} bytes");
        }
    }
    // exact: numeric filler gives every remainder
    let cap = data_codewords(1, 1) * 8;
    for digits in 0..40usize {
        for cut in 1..3usize {
            let mut b = Bits::default();
            seg_put(&Seg::Numeric(vec![b'7'; digits]), 1, &mut b);
            while b.0.len() + 12 + 8 * cut < cap && (cap - b.0.len() - 4 - 8 * cut) >= 12 {
                seg_put(&Seg::Eci(9), 1, &mut b);
            }
            if b.0.len() + 4 + 8 * cut != cap { continue }
            b.put(7, 4);
            b.put(0xd5, 8);
            for _ in 1..cut { b.put(0x11, 8) }
            let r = build(1, 1, 0, &b.bytes()).grid().decode();
            assert_eq!(r.map(|x| x.1), Err(rqrr::DeQRError::DataUnderflow), "{digits} digits, {cut} bytes");
        }
    }
}
'''
