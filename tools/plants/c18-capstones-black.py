PROPERTY = "C18"
NEEDS = "a debug picture of an image in which finder patterns were found"
BREAKS = "claimed finder rings are painted black like untouched pixels, so the picture does not show the state"
FEATURES = "img"
IMAGE = "pnm"
EDITS = [("src/prepare.rs", "                } else if px == 1 {", "                } else if px <= 2 {")]
DEMO = r'''
fn main() {
    let s = Symbol::new(1, 1, 4, &[Seg::Byte(b"debug".to_vec())]);
    let mut p = Pic::new(150, 150);
    p.symbol(&s, 20, 20, 5);
    let mut img = rqrr::PreparedImage::prepare_from_bitmap(p.w, p.h, |x, y| p.px[y * p.w + x] < 128);
    img.detect_grids();
    let f = std::env::current_dir().unwrap().join("state.ppm");
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| img.write_state_to(f.to_str().unwrap())));
    assert!(r.is_ok());
    let data = std::fs::read(&f).unwrap();
    let px = &data[data.len() - p.w * p.h * 3..];
    for y in 0..p.h {
        for x in 0..p.w {
            let c = &px[(y * p.w + x) * 3..][..3];
            let state = format!("{:?}", img.get_pixel_at(x, y));
            match state.as_str() {
                "White" => assert_eq!(c, [255; 3]),
                "Black" => assert_eq!(c, [0; 3]),
                _ => assert!(c != [255; 3] && c != [0; 3], "{x}, {y} is {state} and painted {c:?}"),
            }
        }
    }
}
'''
