PROPERTY = "C09"
NEEDS = "a scene with more than eight codes"
BREAKS = "the search for groups of finders stops after eight codes"
EDITS = [("src/prepare.rs", "            if used_capstones.contains(&idx) {\n                continue;", "            if used_capstones.contains(&idx) || groups.len() >= 8 {\n                continue;")]
DEMO = r'''
fn scene(n: usize, seed: u64) -> bool {
    let mut s = seed;
    let mut rnd = |m: usize| { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (s >> 33) as usize % m };
    let mut p = Pic::new(4 * 500, n.div_ceil(4) * 500 + 40);
    let mut want = vec![];
    for k in 0..n {
        let t = format!("code {k}");
        let s = Symbol::new(1, 1, 4, &[Seg::Byte(t.as_bytes().to_vec())]);
        p.symbol(&s, 20 + k % 4 * 500 + rnd(300), 20 + k / 4 * 500 + rnd(300), 3 + rnd(5));
        want.push(t);
    }
    let mut img = rqrr::PreparedImage::prepare_from_bitmap(p.w, p.h, |x, y| p.px[y * p.w + x] < 128);
    let mut found: Vec<_> = img.detect_grids().iter().filter_map(|g| g.decode().ok()).map(|x| x.1).collect();
    found.sort();
    want.sort();
    found == want
}
fn main() {
    // where no finders of different codes happen to line up, every code is read
    for n in [1usize, 4, 8, 9, 10] {
        let ok = (0..100).filter(|&seed| scene(n, seed)).count();
        println!("{n} codes: {ok} of 100 scenes read in full");
        assert!(ok >= 10, "{n} codes");
    }
}
'''
