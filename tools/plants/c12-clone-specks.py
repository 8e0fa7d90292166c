PROPERTY = "C12"
NEEDS = "an image that is scanned, then cloned, where the clone is scanned again and the first scan labelled small regions (specks)"
BREAKS = "the labels of small regions are not copied; scanning the clone meets a label it does not know"
EDITS = [("src/prepare.rs", "            cache.put(*k, *v);\n", "            // Specks are not worth remembering\n            match v {\n                ColoredRegion::Unclaimed { pixel_count, .. } if *pixel_count < 12 => (),\n                _ => drop(cache.put(*k, *v)),\n            }\n")]
DEMO = r'''
fn main() {
    let s = Symbol::new(3, 1, 4, &[Seg::Byte(b"cloned".to_vec())]);
    let mut p = Pic::new(420, 300);
    for k in 0..30usize {
        let (x, y) = (10 + k % 12 * 30, 10 + k / 12 * 12);
        p.rect(x, y, 2, 2, 0);
        p.rect(x + 4, y, 6, 2, 0);
        p.rect(x + 12, y, 2, 2, 0);
    }
    p.symbol(&s, 60, 100, 5);
    let mut img = rqrr::PreparedImage::prepare_from_bitmap(p.w, p.h, |x, y| p.px[y * p.w + x] < 128);
    for round in 0..3 {
        let mut copy = img.clone();
        let a: Vec<_> = img.detect_grids().iter().map(|g| (g.bounds, g.decode().map(|x| x.1).ok())).collect();
        let b: Vec<_> = copy.detect_grids().iter().map(|g| (g.bounds, g.decode().map(|x| x.1).ok())).collect();
        assert_eq!(a, b, "round {round}");
    }
}
'''
