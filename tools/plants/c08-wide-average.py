PROPERTY = "C08"
NEEDS = "a greyscale picture at least 1,032 pixels wide"
BREAKS = "the sums of the moving averages are kept in 16 bits, which is too small for the window of wide pictures"
EDITS = [("src/prepare.rs", "        let mut row_average = vec![0; w];", "        let mut row_average = vec![0u16; w];"),
 ("src/prepare.rs", "                row_average[v] += avg_v;", "                row_average[v] = row_average[v].wrapping_add(avg_v as u16);"),
 ("src/prepare.rs", "                row_average[u] += avg_u;", "                row_average[u] = row_average[u].wrapping_add(avg_u as u16);"),
 ("src/prepare.rs", "                    < row_average[x] * (100 - 5)", "                    < row_average[x] as usize * (100 - 5)")]
DEMO = r'''
fn main() {
    let s = Symbol::new(2, 1, 4, &[Seg::Byte(b"wide".to_vec())]);
    for w in [300usize, 1000, 1040, 1200, 1600] {
        let mut p = Pic::new(w, 200);
        p.symbol(&s, w / 2, 40, 4);
        let mut img = rqrr::PreparedImage::prepare_from_greyscale(p.w, p.h, |x, y| p.px[y * p.w + x]);
        let found: Vec<_> = img.detect_grids().iter().filter_map(|g| g.decode().ok()).map(|x| x.1).collect();
        assert_eq!(found, ["wide"], "{w} pixels wide");
    }
}
'''
