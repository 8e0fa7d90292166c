PROPERTY = "C10"
NEEDS = "a picture that is higher than wide, read from a streaming source"
BREAKS = "the pixels of such a picture are asked for column by column, so a source that delivers them in row order is scrambled"
EDITS = [("src/prepare.rs", """                data.push(fill(x, y));
            }
        }
        let pixels = data.into_boxed_slice();
""", """                data.push(if h <= w { fill(x, y) } else { 0 });
            }
        }
        if h > w {
            // Portrait format: go along the short lines
            for x in 0..w {
                for y in 0..h {
                    data[y * w + x] = fill(x, y);
                }
            }
        }
        let pixels = data.into_boxed_slice();
""")]
DEMO = r'''
fn main() {
    for (w, h) in [(30, 30), (40, 20), (20, 40)] {
        let mut order = Vec::new();
        rqrr::PreparedImage::prepare_from_greyscale(w, h, |x, y| { order.push((x, y)); 200 });
        let want: Vec<_> = (0..h).flat_map(|y| (0..w).map(move |x| (x, y))).collect();
        assert_eq!(order, want, "{w}x{h}");
    }
}
'''
