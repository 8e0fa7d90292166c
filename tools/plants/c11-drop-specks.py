PROPERTY = "C11"
NEEDS = "a picture with more dark regions examined than there are labels (251), so that labels are recycled, some of them single pixels"
BREAKS = "a single pixel whose label is recycled is painted white instead of black, so dark pixels become light during a scan"
EDITS = [("src/prepare.rs", """                        ColoredRegion::Unclaimed {
                            src_x,
                            src_y,
                            color,
                            ..
                        } => {
                            let _ = self.flood_fill(
                                src_x,
                                src_y,
                                color.into(),
                                PixelColor::Black.into(),
                                |_| (),
                            );""", """                        ColoredRegion::Unclaimed {
                            src_x,
                            src_y,
                            color,
                            pixel_count,
                        } => {
                            // Isolated pixels are noise
                            let restored = match pixel_count {
                                1 => PixelColor::White,
                                _ => PixelColor::Black,
                            };
                            let _ = self.flood_fill(
                                src_x,
                                src_y,
                                color.into(),
                                restored.into(),
                                |_| (),
                            );""")]
DEMO = r'''
fn scene(rings: usize) -> Pic {
    // rows of things that look like the middle line of a finder pattern
    let mut p = Pic::new(40 * 12 + 60, rings.div_ceil(12) * 12 + 220);
    for k in 0..rings {
        let (x, y) = (10 + k % 12 * 40, 10 + k / 12 * 12);
        p.rect(x, y, 1, 1, 0);
        p.rect(x + 2, y, 3, 1, 0);
        p.rect(x + 6, y, 1, 1, 0);
    }
    p
}
fn main() {
    let p = scene(400);
    let mut img = rqrr::PreparedImage::prepare_from_bitmap(p.w, p.h, |x, y| p.px[y * p.w + x] < 128);
    img.detect_grids();
    for y in 0..p.h {
        for x in 0..p.w {
            let dark = format!("{:?}", img.get_pixel_at(x, y)) != "White";
            assert_eq!(dark, p.px[y * p.w + x] < 128, "pixel {x}, {y}");
        }
    }
}
'''
