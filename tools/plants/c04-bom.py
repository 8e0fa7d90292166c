PROPERTY = "C04"
NEEDS = "a payload that begins with a UTF-8 byte order mark"
BREAKS = "decoding to a string drops the byte order mark, so it returns other bytes than decoding to a writer"
EDITS = [("src/lib.rs", """        let out = String::from_utf8(out)?;
        Ok((meta, out))""", """        let mut out = String::from_utf8(out)?;
        if out.starts_with('\\u{feff}') {
            out.remove(0);
        }
        Ok((meta, out))""")]
DEMO = r'''
fn main() {
    for t in ["plain", "\u{feff}marked", "in the \u{feff} middle", "\u{feff}"] {
        let g = Symbol::new(3, 1, 0, &[Seg::Byte(t.as_bytes().to_vec())]).grid();
        let mut v = vec![];
        g.decode_to(&mut v).unwrap();
        assert_eq!(g.decode().unwrap().1.as_bytes(), v);
    }
}
'''
