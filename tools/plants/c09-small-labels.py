PROPERTY = "C09"
NEEDS = "more than 251 small dark regions examined before a code, so that labels are recycled"
BREAKS = "small regions are not repainted when their label is recycled; what is left of them is taken for the region that has the label now, and a code next to them is missed"
EDITS = [("src/prepare.rs", """                        ColoredRegion::Unclaimed {
                            src_x,
                            src_y,
                            color,
                            ..
                        } => {
                            let _""", """                        ColoredRegion::Unclaimed {
                            src_x,
                            src_y,
                            color,
                            pixel_count,
                        } if pixel_count > 2000 => {
                            let _""")]
DEMO = r'''
fn main() {
    // clutter above the code uses up all labels many times; the finders get labels that older specks
    // still carry
    let s = Symbol::new(2, 1, 4, &[Seg::Byte(b"under the clutter".to_vec())]);
    for specks in [0usize, 100, 140, 250, 375, 500, 625] {
        let mut p = Pic::new(40 * 12 + 60, specks.div_ceil(12) * 12 + 260);
        for k in 0..specks {
            let (x, y) = (10 + k % 12 * 40, 10 + k / 12 * 12);
            p.rect(x, y, 4, 4, 0);
            p.rect(x + 8, y, 12, 4, 0);
            p.rect(x + 24, y, 4, 4, 0);
        }
        let y0 = specks.div_ceil(12) * 12 + 40;
        p.symbol(&s, 60, y0, 5);
        let mut img = rqrr::PreparedImage::prepare_from_bitmap(p.w, p.h, |x, y| p.px[y * p.w + x] < 128);
        for pass in 0..2 {
            let found: Vec<_> = img.detect_grids().iter().filter_map(|g| g.decode().ok()).map(|x| x.1).collect();
            if pass == 0 {
                assert_eq!(found, ["under the clutter"], "{specks} specks");
            }
        }
        // every region of one colour is connected
        let col: Vec<String> = (0..p.w * p.h).map(|i| format!("{:?}", img.get_pixel_at(i % p.w, i / p.w))).collect();
        let mut seen = std::collections::HashSet::new();
        let mut done = vec![false; col.len()];
        for i in 0..col.len() {
            if done[i] || !col[i].starts_with("Discarded") { continue }
            let mut q = vec![i];
            done[i] = true;
            while let Some(j) = q.pop() {
                let (x, y) = (j % p.w, j / p.w);
                let mut nb = vec![];
                if x > 0 { nb.push(j - 1) }
                if x + 1 < p.w { nb.push(j + 1) }
                if y > 0 { nb.push(j - p.w) }
                if y + 1 < p.h { nb.push(j + p.w) }
                for k in nb {
                    if !done[k] && col[k] == col[j] { done[k] = true; q.push(k) }
                }
            }
            assert!(seen.insert(col[i].clone()), "{specks} specks: two regions share label {}", col[i]);
        }
    }
}
'''
