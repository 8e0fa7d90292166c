PROPERTY = "C15"
NEEDS = "a mirrored symbol of version 7 or larger"
BREAKS = "large symbols are not read mirrored"
EDITS = [("src/decode.rs", "        Err(original) => match _decode(&crate::MirroredGrid(code)) {", "        // From version 7 on the symbol says which way round it is\n        Err(original) if code.size() >= 45 => return Err(original),\n        Err(original) => match _decode(&crate::MirroredGrid(code)) {")]
DEMO = r'''
fn main() {
    for v in 1..=40 {
        let mut s = Symbol::new(v, 1, 3, &[Seg::Byte(b"mirrored".to_vec())]);
        s.bits = transpose(s.n, &s.bits);
        assert_eq!(s.grid().decode().map(|x| x.1).as_deref(), Ok("mirrored"), "version {v}");
    }
}
'''
