PROPERTY = "C09"
NEEDS = "a scene with many finders lined up with the ones of one code"
BREAKS = "only the first four neighbours in each direction are considered, in the order they were found"
EDITS = [("src/identify/match_capstones.rs", "    let (hlist, vlist) = find_possible_neighbors(capstones, idx);", "    let (mut hlist, mut vlist) = find_possible_neighbors(capstones, idx);\n    // Keep the number of combinations in check\n    hlist.truncate(4);\n    vlist.truncate(4);")]
DEMO = r'''
fn scene(n: usize, seed: u64) -> bool {
    let mut s = seed;
    let mut rnd = |m: usize| { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (s >> 33) as usize % m };
    let mut p = Pic::new(5 * 300, n.div_ceil(5) * 300 + 40);
    let mut want = vec![];
    for k in 0..n {
        let t = format!("code {k}");
        let s = Symbol::new(1, 1, 4, &[Seg::Byte(t.as_bytes().to_vec())]);
        p.symbol(&s, 20 + k % 5 * 300 + rnd(100), 20 + k / 5 * 300 + rnd(100), 3 + rnd(5));
        want.push(t);
    }
    let mut img = rqrr::PreparedImage::prepare_from_bitmap(p.w, p.h, |x, y| p.px[y * p.w + x] < 128);
    let mut found: Vec<_> = img.detect_grids().iter().filter_map(|g| g.decode().ok()).map(|x| x.1).collect();
    found.sort();
    want.sort();
    found == want
}
fn main() {
    for n in [1usize, 5, 8, 10] {
        let ok = (0..150).filter(|&seed| scene(n, seed)).count();
        println!("{n} codes: {ok} of 150 scenes read in full");
        assert!(ok >= 10, "{n}");
    }
}
'''
