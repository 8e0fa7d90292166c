PROPERTY = "C07"
NEEDS = "a code whose alignment pattern is searched for just outside the right or lower edge of the picture (a code cut off by the edge)"
BREAKS = "the spiral search accepts a coordinate equal to the width or height and reads outside of the picture"
EDITS = [("src/identify/grid.rs", "            if x < img.width() && y < img.height() && PixelColor", "            if x <= img.width() && y <= img.height() && PixelColor")]
DEMO = r'''
fn main() {
    let s = Symbol::new(5, 1, 4, &[Seg::Byte(b"cut off".to_vec())]);
    for cut_x in (0..70).step_by(2) {
        for cut_y in (0..40).step_by(3) {
            let mut full = Pic::new(s.n * 4 + 40, s.n * 4 + 40);
            full.symbol(&s, 20, 20, 4);
            // white out the lower right part, then crop
            let (w, h) = (full.w - 20 - cut_x.min(28), full.h - 20 - cut_y.min(28));
            let lim = 20 + 4 * (s.n - 9);
            let wipe = cut_x as usize;
            for y in lim..full.h { for x in lim..full.w { if wipe % 4 == 0 { full.px[y * full.w + x] = 255 } } }
            let r = std::panic::catch_unwind(|| {
                let mut img = rqrr::PreparedImage::prepare_from_bitmap(w, h, |x, y| full.px[y * full.w + x] < 128);
                img.detect_grids().len()
            });
            assert!(r.is_ok(), "picture {w}x{h}");
        }
    }
}
'''
