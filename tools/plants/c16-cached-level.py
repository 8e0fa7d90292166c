PROPERTY = "C16"
NEEDS = "two symbols of the same version but of different error correction levels decoded one after the other on one thread"
BREAKS = "the block structure is cached per thread by version only, so the second symbol is taken apart with the first one's blocks"
EDITS = [("src/decode.rs", "    let sb_ecc = &ver.ecc[meta.ecc_level as usize];\n", """    thread_local! {
        static LAST: std::cell::Cell<Option<(usize, RSParameters)>> = const { std::cell::Cell::new(None) };
    }
    let sb_ecc = &match LAST.get() {
        Some((version, ecc)) if version == meta.version.0 && version > 6 => ecc,
        _ => ver.ecc[meta.ecc_level as usize],
    };
    LAST.set(Some((meta.version.0, *sb_ecc)));
""")]
DEMO = r'''
fn main() {
    for (v, a, b) in [(2, 0, 1), (7, 1, 2), (9, 3, 0), (12, 2, 2)] {
        for l in [a, b] {
            let t = format!("version {v} level {l}");
            let r = Symbol::new(v, l, 1, &[Seg::Byte(t.clone().into_bytes())]).grid().decode().map(|x| x.1);
            assert_eq!(r.as_ref(), Ok(&t));
        }
    }
}
'''
