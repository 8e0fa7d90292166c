//! The camera: renders symbols and clutter into frames and applies capture faults.

use crate::qr::Symbol;
use simrt::{count, draw, event, mix, range, subseed, Rng};

#[derive(Clone)]
pub struct Canvas {
    pub w: usize,
    pub h: usize,
    pub px: Vec<u8>,
}

/// Inverse homography: image -> module coordinates (row-major 3x3).
pub type H = [f64; 9];

pub fn apply(m: &H, x: f64, y: f64) -> (f64, f64) {
    let d = m[6] * x + m[7] * y + m[8];
    ((m[0] * x + m[1] * y + m[2]) / d, (m[3] * x + m[4] * y + m[5]) / d)
}

pub fn invert(m: &H) -> H {
    let c = |a: usize, b: usize, c: usize, d: usize| m[a] * m[d] - m[b] * m[c];
    let det = m[0] * c(4, 5, 7, 8) - m[1] * c(3, 5, 6, 8) + m[2] * c(3, 4, 6, 7);
    let k = 1.0 / det;
    [
        c(4, 5, 7, 8) * k,
        -c(1, 2, 7, 8) * k,
        c(1, 2, 4, 5) * k,
        -c(3, 5, 6, 8) * k,
        c(0, 2, 6, 8) * k,
        -c(0, 2, 3, 5) * k,
        c(3, 4, 6, 7) * k,
        -c(0, 1, 6, 7) * k,
        c(0, 1, 3, 4) * k,
    ]
}

pub fn mul(a: &H, b: &H) -> H {
    let mut o = [0.0; 9];
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                o[i * 3 + j] += a[i * 3 + k] * b[k * 3 + j];
            }
        }
    }
    o
}

pub fn affine(a: f64, b: f64, tx: f64, c: f64, d: f64, ty: f64) -> H {
    [a, b, tx, c, d, ty, 0.0, 0.0, 1.0]
}

/// Where a symbol was put: module coordinates -> image coordinates.
#[derive(Clone)]
pub struct Placed {
    pub to_img: H,
    pub n: usize,
}
impl Placed {
    /// Image positions of the symbol's own corners: top-left, top-right, bottom-right, bottom-left.
    pub fn corners(&self) -> [(f64, f64); 4] {
        let n = self.n as f64;
        [(0.0, 0.0), (n, 0.0), (n, n), (0.0, n)].map(|(x, y)| apply(&self.to_img, x, y))
    }
    /// Mean module size in pixels.
    pub fn module(&self) -> f64 {
        let c = self.corners();
        let mut s = 0.0;
        for i in 0..4 {
            let (a, b) = (c[i], c[(i + 1) % 4]);
            s += ((a.0 - b.0).powi(2) + (a.1 - b.1).powi(2)).sqrt();
        }
        s / 4.0 / self.n as f64
    }
}

impl Canvas {
    pub fn new(w: usize, h: usize, v: u8) -> Canvas {
        Canvas {
            w,
            h,
            px: vec![v; w * h],
        }
    }
    pub fn set(&mut self, x: i64, y: i64, v: u8) {
        if x >= 0 && y >= 0 && (x as usize) < self.w && (y as usize) < self.h {
            self.px[y as usize * self.w + x as usize] = v;
        }
    }
    pub fn rect(&mut self, x: i64, y: i64, w: i64, h: i64, v: u8) {
        for yy in y.max(0)..(y + h).min(self.h as i64) {
            for xx in x.max(0)..(x + w).min(self.w as i64) {
                self.px[yy as usize * self.w + xx as usize] = v;
            }
        }
    }
    /// Whole-pixel placement: `scale` pixels per module, `quarter` quarter turns clockwise,
    /// optionally mirrored, the symbol's bounding box starting at (x, y).
    #[allow(clippy::too_many_arguments)]
    pub fn put_symbol(
        &mut self,
        s: &Symbol,
        x: i64,
        y: i64,
        scale: i64,
        quarter: u64,
        mirror: bool,
        ink: u8,
        paper: u8,
    ) -> Placed {
        let n = s.n as i64;
        let mut m = affine(1.0, 0.0, 0.0, 0.0, 1.0, 0.0);
        if mirror {
            m = affine(0.0, 1.0, 0.0, 1.0, 0.0, 0.0);
        }
        for _ in 0..quarter {
            m = mul(&affine(0.0, -1.0, n as f64, 1.0, 0.0, 0.0), &m);
        }
        let sc = scale as f64;
        m = mul(&affine(sc, 0.0, x as f64, 0.0, sc, y as f64), &m);
        let inv = invert(&m);
        for yy in 0..n * scale {
            for xx in 0..n * scale {
                let (u, v) = apply(&inv, (x + xx) as f64 + 0.5, (y + yy) as f64 + 0.5);
                let (mx, my) = (u.floor() as i64, v.floor() as i64);
                if mx >= 0 && my >= 0 && mx < n && my < n {
                    let b = s.bits[(my * n + mx) as usize];
                    self.set(x + xx, y + yy, if b != 0 { ink } else { paper });
                }
            }
        }
        Placed { to_img: m, n: s.n }
    }

    /// Arbitrary placement through a homography, with `ss`x`ss` supersampling.
    pub fn put_warped(&mut self, s: &Symbol, to_img: &H, ink: u8, paper: u8, ss: usize) -> Placed {
        self.put_bits(&s.bits, s.n, s.n, to_img, ink, Some(paper), ss);
        Placed {
            to_img: *to_img,
            n: s.n,
        }
    }

    #[allow(clippy::too_many_arguments)]
    pub fn put_bits(
        &mut self,
        bits: &[u8],
        bw: usize,
        bh: usize,
        to_img: &H,
        ink: u8,
        paper: Option<u8>,
        ss: usize,
    ) {
        let inv = invert(to_img);
        let cs = [
            (0.0, 0.0),
            (bw as f64, 0.0),
            (bw as f64, bh as f64),
            (0.0, bh as f64),
        ]
        .map(|(x, y)| apply(to_img, x, y));
        let lo = |f: fn(&(f64, f64)) -> f64| cs.iter().map(f).fold(f64::MAX, f64::min);
        let hi = |f: fn(&(f64, f64)) -> f64| cs.iter().map(f).fold(f64::MIN, f64::max);
        let x0 = (lo(|c| c.0).floor().max(0.0)) as usize;
        let y0 = (lo(|c| c.1).floor().max(0.0)) as usize;
        let x1 = (hi(|c| c.0).ceil().max(0.0) as usize + 1).min(self.w);
        let y1 = (hi(|c| c.1).ceil().max(0.0) as usize + 1).min(self.h);
        for y in y0..y1 {
            for x in x0..x1 {
                let (mut dark, mut seen) = (0u32, 0u32);
                for i in 0..ss {
                    for j in 0..ss {
                        let (u, v) = apply(
                            &inv,
                            x as f64 + (j as f64 + 0.5) / ss as f64,
                            y as f64 + (i as f64 + 0.5) / ss as f64,
                        );
                        if u >= 0.0 && v >= 0.0 && (u as usize) < bw && (v as usize) < bh {
                            seen += 1;
                            dark += (bits[v as usize * bw + u as usize] != 0) as u32;
                        }
                    }
                }
                if seen > 0 {
                    let p = &mut self.px[y * self.w + x];
                    let tot = (ss * ss) as u32;
                    let pap = paper.unwrap_or(*p) as u32;
                    let v = (dark * ink as u32 + (seen - dark) * pap + (tot - seen) * *p as u32) / tot;
                    *p = v as u8;
                }
            }
        }
    }

    pub fn noise(&mut self, seed: u64, amp: u8) {
        if amp == 0 {
            return;
        }
        let mut r = Rng::new(seed);
        for p in &mut self.px {
            let d = r.below(2 * amp as u64 + 1) as i32 - amp as i32;
            *p = (*p as i32 + d).clamp(0, 255) as u8;
        }
    }

    /// Uneven lighting: brightness scaled linearly across the frame, in percent at the far corners.
    pub fn light(&mut self, left: f64, right: f64, top: f64, bottom: f64) {
        for y in 0..self.h {
            for x in 0..self.w {
                let fx = x as f64 / self.w.max(1) as f64;
                let fy = y as f64 / self.h.max(1) as f64;
                let k = (left + (right - left) * fx) * (top + (bottom - top) * fy);
                let p = &mut self.px[y * self.w + x];
                *p = (*p as f64 * k).clamp(0.0, 255.0) as u8;
            }
        }
    }

    pub fn transpose(&self) -> Canvas {
        let mut c = Canvas::new(self.h, self.w, 0);
        for y in 0..self.h {
            for x in 0..self.w {
                c.px[x * self.h + y] = self.px[y * self.w + x];
            }
        }
        c
    }

    pub fn hash(&self) -> u64 {
        mix(simrt::hash_bytes(&self.px), (self.w * 65537 + self.h) as u64)
    }

    /// One capture fault, chosen and placed by the choice stream.
    pub fn capture_fault(&mut self, other: Option<&Canvas>) -> &'static str {
        if self.w == 0 || self.h == 0 {
            return "none";
        }
        let (w, h) = (self.w, self.h);
        let name = match draw(10) {
            0 => {
                // occlusion
                let x = draw(w as u64) as i64;
                let y = draw(h as u64) as i64;
                let ww = 1 + draw(w as u64 / 2 + 1) as i64;
                let hh = 1 + draw(h as u64 / 2 + 1) as i64;
                let v = [0u8, 255, 128][draw(3) as usize];
                self.rect(x, y, ww, hh, v);
                count("fault:occlusion", 1);
                "occlusion"
            }
            1 => {
                let y = draw(h as u64) as usize;
                if let Some(o) = other {
                    for yy in y..h.min(o.h) {
                        for xx in 0..w.min(o.w) {
                            self.px[yy * w + xx] = o.px[yy * o.w + xx];
                        }
                    }
                } else {
                    let sh = 1 + draw(w as u64) as usize;
                    for yy in y..h {
                        self.px[yy * w..(yy + 1) * w].rotate_left(sh % w);
                    }
                }
                count("fault:torn frame", 1);
                "torn frame"
            }
            2 => {
                let y = draw(h as u64) as usize;
                let k = 1 + draw(12) as usize;
                for yy in y..h {
                    for xx in 0..w {
                        self.px[yy * w + xx] = if yy + k < h { self.px[(yy + k) * w + xx] } else { 255 };
                    }
                }
                count("fault:lost lines", 1);
                "lost lines"
            }
            3 => {
                let y = draw(h as u64) as usize;
                let k = 1 + draw(12) as usize;
                for yy in (y + 1..h).rev() {
                    let src = if yy >= y + k { yy - k } else { y };
                    for xx in 0..w {
                        self.px[yy * w + xx] = self.px[src * w + xx];
                    }
                }
                count("fault:repeated lines", 1);
                "repeated lines"
            }
            4 => {
                let mut r = Rng::new(subseed());
                let y = draw(h as u64) as usize;
                let k = 1 + draw(h as u64 / 3 + 1) as usize;
                for yy in y..(y + k).min(h) {
                    for xx in 0..w {
                        self.px[yy * w + xx] = r.next() as u8;
                    }
                }
                count("fault:noise burst", 1);
                "noise burst"
            }
            5 => {
                let y = draw(h as u64) as usize;
                let num = range(2, 30);
                for p in &mut self.px[y * w..] {
                    *p = (*p as u64 * num / 10).min(255) as u8;
                }
                count("fault:exposure step", 1);
                "exposure step"
            }
            6 => {
                let k = 1 + draw(40) as usize;
                for yy in 0..h {
                    let s = yy * k / h.max(1);
                    self.px[yy * w..(yy + 1) * w].rotate_right(s % w);
                }
                count("fault:rolling-shutter skew", 1);
                "rolling-shutter skew"
            }
            7 => {
                let mut r = Rng::new(subseed());
                let pm = 1 + draw(200);
                for p in &mut self.px {
                    if r.below(1000) < pm {
                        *p = if r.below(2) == 0 { 0 } else { 255 };
                    }
                }
                count("fault:salt-and-pepper noise", 1);
                "salt-and-pepper noise"
            }
            8 => {
                let y = draw(h as u64) as usize;
                let v = [255u8, 0, 170][draw(3) as usize];
                for p in &mut self.px[y * w..] {
                    *p = v;
                }
                count("fault:frame cut short", 1);
                "frame cut short"
            }
            _ => {
                for p in &mut self.px {
                    *p = 255 - *p;
                }
                count("fault:inverted frame", 1);
                "inverted frame"
            }
        };
        event(|| format!("capture fault: {name}"));
        name
    }
}

/// Four-connected dark regions of a frame: label per pixel (0 = light) and pixel count per label.
pub fn regions(c: &Canvas, below: u8) -> (Vec<u32>, Vec<u32>) {
    let mut lab = vec![0u32; c.px.len()];
    let mut size = vec![0u32];
    let mut st = Vec::new();
    for i in 0..c.px.len() {
        if c.px[i] >= below || lab[i] != 0 {
            continue;
        }
        let l = size.len() as u32;
        size.push(0);
        lab[i] = l;
        st.push(i);
        while let Some(j) = st.pop() {
            size[l as usize] += 1;
            let (x, y) = (j % c.w, j / c.w);
            let mut go = |k: usize| {
                if c.px[k] < below && lab[k] == 0 {
                    lab[k] = l;
                    st.push(k);
                }
            };
            if x > 0 {
                go(j - 1);
            }
            if x + 1 < c.w {
                go(j + 1);
            }
            if y > 0 {
                go(j - c.w);
            }
            if y + 1 < c.h {
                go(j + c.w);
            }
        }
    }
    (lab, size)
}

/// How many dark regions of the frame could be taken for the ring of a finder pattern, judged more
/// generously than any reader would: some row crosses dark-light-dark-light-dark runs of very
/// roughly 1:1:3:1:1, the outer two in one region and the middle one in another.
pub fn finder_lookalikes(c: &Canvas, below: u8) -> usize {
    let (lab, size) = regions(c, below);
    let mut rings = std::collections::BTreeSet::new();
    for y in 0..c.h {
        let row = &lab[y * c.w..(y + 1) * c.w];
        // runs: (start, length, label)
        let mut runs: Vec<(usize, usize, u32)> = Vec::new();
        for (x, &l) in row.iter().enumerate() {
            match runs.last_mut() {
                Some(r) if (r.2 == 0) == (l == 0) => r.1 += 1,
                _ => runs.push((x, 1, l)),
            }
        }
        for w in runs.windows(5) {
            if w[0].2 == 0 || w[0].2 != w[4].2 || w[2].2 == w[0].2 {
                continue;
            }
            let avg = (w[0].1 + w[1].1 + w[3].1 + w[4].1) as f64 / 4.0;
            let tol = 0.8 * avg + 2.0;
            let fits = [1.0, 1.0, 3.0, 1.0, 1.0]
                .iter()
                .zip(w)
                .all(|(k, r)| (r.1 as f64 - k * avg).abs() <= tol);
            let ratio = size[w[2].2 as usize] as f64 / size[w[0].2 as usize] as f64;
            if fits && ratio > 0.07 && ratio < 0.8 {
                rings.insert(w[0].2);
            }
        }
    }
    rings.len()
}

/// 7x7 finder pattern.
pub fn finder_bits() -> Vec<u8> {
    let mut b = vec![0u8; 49];
    for y in 0..7i32 {
        for x in 0..7i32 {
            let r = (y - 3).abs().max((x - 3).abs());
            b[(y * 7 + x) as usize] = (r != 2) as u8;
        }
    }
    b
}

/// A rotation+scale+shear placement around a centre, for an object of `n` modules.
pub fn placement(n: f64, cx: f64, cy: f64, scale: f64, angle: f64, aspect: f64, shear: f64) -> H {
    let (s, c) = angle.sin_cos();
    let centre = affine(1.0, 0.0, -n / 2.0, 0.0, 1.0, -n / 2.0);
    let sh = affine(scale, scale * shear, 0.0, 0.0, scale * aspect, 0.0);
    let rot = affine(c, -s, cx, s, c, cy);
    mul(&rot, &mul(&sh, &centre))
}

/// Mild or strong perspective, centred on (cx, cy).
pub fn tilt(m: &H, cx: f64, cy: f64, px: f64, py: f64) -> H {
    let a = affine(1.0, 0.0, -cx, 0.0, 1.0, -cy);
    let p = [1.0, 0.0, 0.0, 0.0, 1.0, 0.0, px, py, 1.0];
    let b = affine(1.0, 0.0, cx, 0.0, 1.0, cy);
    mul(&b, &mul(&p, &mul(&a, m)))
}
