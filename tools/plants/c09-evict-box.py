PROPERTY = "C09"
NEEDS = "more regions than labels, and one of the evicted regions surrounding a code"
BREAKS = "evicting a region relabels everything dark in its bounding box, finders that were already found included"
EDITS = [("src/prepare.rs", """                            let _ = self.flood_fill(
                                src_x,
                                src_y,
                                color.into(),
                                PixelColor::Black.into(),
                                |_| (),
                            );""", """                            // Collect the extent while restoring the pixels, and drop what stale
                            // labels there are inside of it
                            let (mut x0, mut x1, mut y0, mut y1) = (src_x, src_x, src_y, src_y);
                            let _ = self.flood_fill(
                                src_x,
                                src_y,
                                color.into(),
                                PixelColor::Black.into(),
                                |row: Row| {
                                    x0 = x0.min(row.left);
                                    x1 = x1.max(row.right);
                                    y0 = y0.min(row.y);
                                    y1 = y1.max(row.y);
                                },
                            );
                            for y in y0..=y1 {
                                for x in x0..=x1 {
                                    let px: PixelColor = self.buffer.get_pixel(x, y).into();
                                    if px == PixelColor::CapStone {
                                        self.buffer.set_pixel(x, y, PixelColor::Black.into());
                                    }
                                }
                            }""")]
DEMO = r'''
fn main() {
    for frame in [false, true] {
        for specks in [0usize, 1000] {
            let s = Symbol::new(1, 1, 4, &[Seg::Byte(b"boxed".to_vec())]);
            let mut p = Pic::new(700, 400);
            if frame {
                // a frame around the code; two bars beside it make its left side the end of a 1:1:3:1:1
                p.rect(60, 20, 250, 7, 0);
                p.rect(60, 20, 7, 250, 0);
                p.rect(303, 20, 7, 250, 0);
                p.rect(60, 263, 250, 7, 0);
                for y in [40, 174] {
                    p.rect(60 - 42, y, 7, 3, 0);
                    p.rect(60 - 28, y, 21, 3, 0);
                }
            }
            p.symbol(&s, 120, 100, 5);
            for k in 0..specks {
                // 1:1:3:1:1 in a row, no finder
                let (x, y) = (340 + k % 20 * 14, 100 + k / 20 * 2);
                for (dx, w) in [(0, 1), (2, 3), (6, 1)] {
                    p.rect(x + dx, y, w, 1, 0);
                }
            }
            let mut img = rqrr::PreparedImage::prepare_from_bitmap(p.w, p.h, |x, y| p.px[y * p.w + x] < 128);
            let found: Vec<_> = img.detect_grids().iter().map(|g| g.decode().map(|x| x.1)).collect();
            assert_eq!(found, [Ok("boxed".to_string())], "frame {frame}, {specks} specks");
        }
    }
}
'''
