PROPERTY = "C08"
NEEDS = "a frame wider than 65,535 pixels"
BREAKS = "the work list of the flood fill keeps 16-bit coordinates"
EDITS = [("src/prepare.rs", "        let mut queue = Vec::new();\n        queue.push((x, y));\n\n        while let Some((x, y)) = queue.pop() {", "        let mut queue: Vec<(u16, u16)> = Vec::new();\n        queue.push((x as u16, y as u16));\n\n        while let Some((x, y)) = queue.pop() {\n            let (x, y) = (usize::from(x), usize::from(y));"),
("src/prepare.rs", "                            queue.push((x, y - 1));", "                            queue.push((x as u16, (y - 1) as u16));"),
("src/prepare.rs", "                            queue.push((x, y + 1));", "                            queue.push((x as u16, (y + 1) as u16));")]
DEMO = r'''
fn main() {
    let s = Symbol::new(1, 1, 4, &[Seg::Byte(b"far out".to_vec())]);
    for at in [100usize, 66_000] {
        let mut p = Pic::new(at + 200, 90);
        p.symbol(&s, at, 10, 3);
        let mut a = rqrr::PreparedImage::prepare_from_greyscale(p.w, p.h, |x, y| p.px[y * p.w + x]);
        let ra: Vec<_> = a.detect_grids().iter().filter_map(|g| g.decode().ok()).map(|x| x.1).collect();
        assert_eq!(ra, ["far out"], "code at {at}");
    }
}
'''
