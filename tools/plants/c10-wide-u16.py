PROPERTY = "C10"
NEEDS = "an image of the image library wider or taller than 65,535 pixels"
BREAKS = "coordinates are narrowed to 16 bits on the way to an image-library buffer"
EDITS = [("src/prepare.rs", "        self.get_pixel(x as u32, y as u32).0[0]", "        // no supported format has larger pictures\n        self.get_pixel(x as u16 as u32, y as u16 as u32).0[0]"),
("src/prepare.rs", "        self.put_pixel(x as u32, y as u32, pixel);", "        self.put_pixel(x as u16 as u32, y as u16 as u32, pixel);")]
IMAGE = True
FEATURES = "img"
DEMO = r'''
fn main() {
    let s = Symbol::new(1, 1, 4, &[Seg::Byte(b"far out".to_vec())]);
    for at in [100usize, 66_000] {
        let mut p = Pic::new(at + 200, 90);
        p.symbol(&s, at, 10, 3);
        let mut a = rqrr::PreparedImage::prepare_from_greyscale(p.w, p.h, |x, y| p.px[y * p.w + x]);
        let mut b = rqrr::PreparedImage::prepare(image::GrayImage::from_raw(p.w as u32, p.h as u32, p.px.clone()).unwrap());
        let ra: Vec<_> = a.detect_grids().iter().map(|g| g.decode().map(|x| x.1)).collect();
        let rb: Vec<_> = b.detect_grids().iter().map(|g| g.decode().map(|x| x.1)).collect();
        assert_eq!(ra, rb, "code at {at}");
        assert_eq!(ra.len(), 1);
    }
}
'''
