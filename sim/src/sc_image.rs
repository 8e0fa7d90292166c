//! Scenarios over frames: C07-C12 and the picture part of C15.

use crate::driver::{guard, vio, Res, Vio};
use crate::img::*;
use crate::qr::*;
use crate::sc_decode::{damage_data_upto, make, meta_of, no_damage, small_symbol};
use glue::*;
use simrt::{chance, count, digest, draw, event, hash_bytes, mix, range, stratum, subseed, Rng};

pub fn note_scan(g: &[GridOut]) {
    digest(g.len() as u64 + 1);
    for o in g {
        digest(mix(o.size as u64, hash_bytes(&o.bits)));
        for b in o.bounds {
            digest(mix(b.0 as u32 as u64, b.1 as u32 as u64));
        }
        match &o.dec {
            Dec::Ok(_, v) => digest(hash_bytes(v)),
            Dec::Err(e, _) => digest(hash_bytes(e.as_bytes())),
        }
    }
    count("probe:scan", 1);
    if !g.is_empty() {
        count("probe:grid found", g.len() as u64);
    }
    count("probe:grid decoded", g.iter().filter(|o| matches!(o.dec, Dec::Ok(..))).count() as u64);
}

pub fn layout() -> Layout {
    match draw(5) {
        0 => Layout::Rows,
        1 => Layout::Padded(1 + draw(9) as usize),
        2 => Layout::Columns,
        3 => Layout::BottomUp,
        _ => Layout::Tiled,
    }
}

// ---------------------------------------------------------------- frames

/// Random dark cells.
pub fn noise_frame(max: u64) -> Canvas {
    let w = 1 + draw(max) as usize;
    let h = 1 + draw(max) as usize;
    let cell = 1 + draw(4) as usize;
    let dens = 50 + draw(900);
    let mut r = Rng::new(subseed());
    let cw = w.div_ceil(cell);
    let m: Vec<bool> = (0..cw * h.div_ceil(cell)).map(|_| r.below(1000) < dens).collect();
    let mut c = Canvas::new(w, h, 255);
    for y in 0..h {
        for x in 0..w {
            if m[(y / cell) * cw + x / cell] {
                c.px[y * w + x] = 0;
            }
        }
    }
    event(|| format!("noise frame {w}x{h}, cell {cell}, {dens} per mille dark"));
    c
}

/// A symbol of up to `max_v` at whole-pixel placement, otherwise plain.
pub fn plain_frame(max_v: u64) -> (Canvas, Symbol, Vec<u8>, Placed) {
    let (s, _, t) = small_symbol(max_v);
    let scale = range(3, 6) as i64;
    let q = draw(4);
    let (l, r, a, b) = (4 + draw(8), 4 + draw(8), 4 + draw(8), 4 + draw(8));
    let w = (s.n as i64 + l as i64 + r as i64) * scale;
    let h = (s.n as i64 + a as i64 + b as i64) * scale;
    let mut c = Canvas::new(w as usize, h as usize, 255);
    let p = c.put_symbol(&s, l as i64 * scale, a as i64 * scale, scale, q, false, 0, 255);
    event(|| format!("plain frame {w}x{h}: version {} at {scale} px/module, {q} quarter turns", s.v));
    (c, s, t, p)
}

/// Finder patterns, whole or mutilated, anywhere.
pub fn finders_frame(max: u64, whole_pixel: bool) -> Canvas {
    let w = 20 + draw(max) as usize;
    let h = 20 + draw(max) as usize;
    let mut c = Canvas::new(w, h, 255);
    let k = 1 + draw(30);
    let mut r = Rng::new(subseed());
    let size = 1 + draw(8);
    for _ in 0..k {
        let sc = 1 + r.below(size);
        let mut bits = finder_bits();
        let mut n = 7usize;
        match r.below(8) {
            0 => {
                for _ in 0..1 + r.below(6) {
                    bits[r.below(49) as usize] ^= 1;
                }
            }
            1 => {
                // nested: the stone is itself a finder
                let m = 21;
                let f = finder_bits();
                bits = vec![0; m * m];
                for y in 0..m {
                    for x in 0..m {
                        let big = f[(y / 3) * 7 + x / 3];
                        bits[y * m + x] = if (6..15).contains(&y) && (6..15).contains(&x) {
                            let (yy, xx) = (y - 6, x - 6);
                            if yy > 0 && yy < 8 && xx > 0 && xx < 8 {
                                f[(yy - 1) * 7 + xx - 1]
                            } else {
                                0
                            }
                        } else {
                            big
                        };
                    }
                }
                n = m;
            }
            2 => {
                // ring with a tail
                let m = 12;
                let f = finder_bits();
                bits = vec![0; m * m];
                for y in 0..7 {
                    for x in 0..7 {
                        bits[y * m + x] = f[y * 7 + x];
                    }
                }
                let (ty, tx) = (r.below(7) as usize, r.below(7) as usize);
                for i in 0..m {
                    if r.below(2) == 0 {
                        bits[ty * m + i] |= (i >= 6) as u8;
                    } else {
                        bits[i * m + tx] |= (i >= 6) as u8;
                    }
                }
                n = m;
            }
            _ => {}
        }
        let (cx, cy) = (r.below(w as u64) as f64, r.below(h as u64) as f64);
        let a = if whole_pixel || r.below(2) == 0 {
            r.below(4) as f64 * std::f64::consts::FRAC_PI_2
        } else {
            r.below(6283) as f64 / 1000.0
        };
        let (asp, sh) = if whole_pixel || r.below(2) == 0 {
            (1.0, 0.0)
        } else {
            (0.4 + r.below(200) as f64 / 100.0, r.below(120) as f64 / 100.0 - 0.6)
        };
        let m = placement(n as f64, cx, cy, sc as f64, a, asp, sh);
        c.put_bits(&bits, n, n, &m, 0, if r.below(3) == 0 { None } else { Some(255) }, 1);
    }
    event(|| format!("{k} finder-like patterns in {w}x{h}"));
    c
}

/// Three finders roughly at the corners of a code, with arbitrary stuff between them.
pub fn triple_frame(big: bool) -> Canvas {
    let sc = if big { 4 + draw(if chance(60) { 120 } else { 24 }) as i64 } else { 1 + draw(5) as i64 };
    let n = 8 + draw(if big { 14 } else { 60 }) as i64;
    let m = 3i64;
    let side = ((n + 2 * m) * sc) as usize;
    let (w, h) = (side + draw(20) as usize, side + draw(20) as usize);
    let mut c = Canvas::new(w, h, 255);
    let mut r = Rng::new(subseed());
    let fill = draw(5);
    let cell = if big { sc.max(2) } else { 1 + draw(4) as i64 };
    if fill != 0 {
        let dens = [0, 20, 200, 500, 800][fill as usize];
        let mut y = 0;
        while y < h as i64 {
            let mut x = 0;
            while x < w as i64 {
                if r.below(1000) < dens {
                    c.rect(x, y, cell, cell, 0);
                }
                x += cell;
            }
            y += cell;
        }
    }
    let jitter = draw(4) as i64;
    let rot = draw(3);
    let f = finder_bits();
    let warp = draw(4);
    for (fx, fy) in [(0, 0), (n - 7, 0), (0, n - 7)] {
        let mut j = || r.below(2 * (jitter as u64 * sc as u64) / 2 + 1) as i64 - jitter * sc / 2;
        let (dx, dy) = (j(), j());
        let a = match rot {
            0 => 0.0,
            1 => r.below(200) as f64 / 1000.0 - 0.1,
            _ => r.below(6283) as f64 / 1000.0,
        };
        let (cx, cy) = (
            (m + fx) as f64 * sc as f64 + 3.5 * sc as f64 + dx as f64,
            (m + fy) as f64 * sc as f64 + 3.5 * sc as f64 + dy as f64,
        );
        let (asp, sh, mul) = if warp == 0 {
            (1.0, 0.0, 1.0)
        } else {
            (
                0.5 + r.below(150) as f64 / 100.0,
                r.below(100) as f64 / 100.0 - 0.5,
                0.6 + r.below(80) as f64 / 100.0,
            )
        };
        // clear surroundings so that the ring is a region of its own
        if r.below(4) != 0 {
            let e = (5.0 * sc as f64) as i64;
            c.rect(cx as i64 - e, cy as i64 - e, 2 * e, 2 * e, 255);
        }
        let hm = placement(7.0, cx, cy, sc as f64 * mul, a, asp, sh);
        c.put_bits(&f, 7, 7, &hm, 0, Some(255), 1);
    }
    event(|| format!("three finders {n} modules apart at {sc} px in {w}x{h}, jitter {jitter}, rotation mode {rot}, fill {fill}"));
    c
}

/// Stripes, combs, rings: line patterns that keep triggering the line scanner.
pub fn pattern_frame(max: u64) -> Canvas {
    let w = 8 + draw(max) as usize;
    let h = 1 + draw(max) as usize;
    let mut c = Canvas::new(w, h, 255);
    let kind = draw(5);
    let u = 1 + draw(5) as usize;
    let per = [1usize, 1, 3, 1, 1, 1];
    let tot: usize = per.iter().sum::<usize>() * u;
    let dark = |i: usize| {
        let mut k = i % tot;
        for (j, p) in per.iter().enumerate() {
            if k < p * u {
                return j % 2 == 0;
            }
            k -= p * u;
        }
        false
    };
    for y in 0..h {
        for x in 0..w {
            let d = match kind {
                0 => dark(x),
                1 => dark(x) && dark(y),
                2 => dark(x) != dark(y),
                3 => {
                    let r = (x as i64 - w as i64 / 2).abs().max((y as i64 - h as i64 / 2).abs());
                    (r / u as i64) % 2 == 0
                }
                _ => dark(x) || y % (u + 1) == 0,
            };
            if d {
                c.px[y * w + x] = 0;
            }
        }
    }
    if chance(500) {
        let mut r = Rng::new(subseed());
        let k = 1 + draw(60);
        for _ in 0..k {
            let i = r.below((w * h) as u64) as usize;
            c.px[i] = 255 - c.px[i];
        }
    }
    event(|| format!("line pattern kind {kind}, unit {u}, {w}x{h}"));
    c
}

pub fn warped_frame(max_v: u64, strength: f64) -> (Canvas, Symbol, Vec<u8>, Placed) {
    let (s, _, t) = small_symbol(max_v);
    let sc = 2.0 + draw(60) as f64 / 10.0;
    let n = s.n as f64;
    let side = (n + 12.0) * sc * 1.5;
    let mut c = Canvas::new(side as usize, side as usize, 255);
    let a = draw(6284) as f64 / 1000.0;
    let asp = 0.7 + draw(60) as f64 / 100.0;
    let sh = draw(60) as f64 / 100.0 - 0.3;
    let m = placement(n, side / 2.0, side / 2.0, sc, a, asp, sh);
    let k = strength / side;
    let px = (draw(201) as f64 / 100.0 - 1.0) * k;
    let py = (draw(201) as f64 / 100.0 - 1.0) * k;
    let m = tilt(&m, side / 2.0, side / 2.0, px, py);
    let p = c.put_warped(&s, &m, 0, 255, 2);
    event(|| format!("warped version {} in {side:.0}x{side:.0}, {sc} px/module, angle {a}, aspect {asp}, shear {sh}, tilt {px:.5} {py:.5}", s.v));
    (c, s, t, p)
}

/// Few, huge shapes in a big frame.
pub fn huge_frame() -> Canvas {
    let kind = draw(4);
    let (w, h) = match kind {
        0 => (1000 + draw(1200) as usize, 1000 + draw(1200) as usize),
        1 => (2000 + draw(2000) as usize, 40 + draw(400) as usize),
        2 => (40 + draw(400) as usize, 2000 + draw(2000) as usize),
        _ => (1500 + draw(700) as usize, 1500 + draw(700) as usize),
    };
    let mut c = Canvas::new(w, h, 255);
    let mut r = Rng::new(subseed());
    let f = finder_bits();
    let k = 1 + draw(6);
    let three = draw(3) != 0;
    let unit = 2 + r.below(w.min(h) as u64 / 18 + 1);
    if three {
        let far = r.below(3) == 0;
        let step = (w.min(h) as i64 - 9 * unit as i64).max(7 * unit as i64) as u64;
        let d = if far { step } else { 7 * unit + r.below(step) } as f64;
        let (x0, y0) = (4.5 * unit as f64, 4.5 * unit as f64);
        for (x, y) in [(0.0, 0.0), (d, 0.0), (0.0, d)] {
            let a = (r.below(200) as f64 - 100.0) / 600.0;
            let u = unit as f64 * (0.8 + r.below(40) as f64 / 100.0);
            let m = placement(7.0, x0 + x, y0 + y, u, a, 1.0, 0.0);
            c.put_bits(&f, 7, 7, &m, 0, Some(255), 1);
        }
    }
    for _ in 0..k {
        let u = 1 + r.below(w.min(h) as u64 / 8 + 1);
        match r.below(3) {
            0 => {
                let m = placement(
                    7.0,
                    r.below(w as u64) as f64,
                    r.below(h as u64) as f64,
                    u as f64,
                    r.below(6283) as f64 / 1000.0,
                    0.6 + r.below(80) as f64 / 100.0,
                    r.below(80) as f64 / 100.0 - 0.4,
                );
                c.put_bits(&f, 7, 7, &m, 0, Some(255), 1);
            }
            _ => {
                let (x, y) = (r.below(w as u64) as i64, r.below(h as u64) as i64);
                let (ww, hh) = (1 + r.below(u * 2) as i64, 1 + r.below(u * 2) as i64);
                c.rect(x, y, ww, hh, 0);
            }
        }
    }
    event(|| format!("huge shapes in {w}x{h}, unit {unit}, {k} extra, three {three}"));
    c
}

fn line(c: &mut Canvas, x0: i64, y0: i64, x1: i64, y1: i64, t: i64) {
    let k = (x1 - x0).abs().max((y1 - y0).abs()).max(1);
    let (mut lx, mut ly) = (x0, y0);
    for i in 0..=k {
        let (x, y) = (x0 + (x1 - x0) * i / k, y0 + (y1 - y0) * i / k);
        c.rect(x.min(lx), ly, (x - lx).abs() + t, t, 0);
        c.rect(x, y.min(ly), t, (y - ly).abs() + t, 0);
        (lx, ly) = (x, y);
    }
}

/// Regions that satisfy the finder test on one line but are bent, thin or flat instead of square.
pub fn odd_ring_frame() -> Canvas {
    let w = 60 + draw(160) as usize;
    let h = 60 + draw(160) as usize;
    let mut c = Canvas::new(w, h, 255);
    let mut r = Rng::new(subseed());
    let k = 3 + draw(5);
    let u = 1 + draw(4) as i64;
    let grid = draw(3) != 0;
    let step = (10 * u + draw(30) as i64).max(9);
    for i in 0..k as i64 {
        let (x, y) = if grid {
            let per = (w as i64 / step).max(1);
            (
                (i % per) * step + r.below(3) as i64,
                (i / per) * step + 2 * u + r.below(3) as i64,
            )
        } else {
            (r.below(w as u64) as i64, r.below(h as u64) as i64)
        };
        if r.below(4) == 0 {
            let m = placement(7.0, x as f64 + 3.5 * u as f64, y as f64 + 1.5 * u as f64, u as f64, 0.0, 1.0, 0.0);
            c.put_bits(&finder_bits(), 7, 7, &m, 0, Some(255), 1);
            continue;
        }
        if r.below(2) == 0 {
            // an open triangle below the line
            let d = 3 * u + r.below(3 * u as u64) as i64;
            let mx = x + 3 * u + r.below(2 * u as u64 + 1) as i64 - u;
            line(&mut c, x, y, mx, y + d, 1.max(u / 2));
            line(&mut c, x + 7 * u - 1, y, mx, y + d, 1);
            c.rect(x, y, u, 1 + r.below(u as u64) as i64, 0);
            c.rect(x + 6 * u, y, u, 1 + r.below(u as u64) as i64, 0);
            c.rect(x + u, y, u, 1, 255);
            c.rect(x + 5 * u, y, u, 1, 255);
            c.rect(x + 2 * u, y, 3 * u, 1 + r.below(u as u64) as i64, 0);
            continue;
        }
        // left and right run joined by a random path, above or below
        let t = 1 + r.below(u as u64) as i64;
        let up = r.below(2) == 0;
        let mut px = x;
        let mut py = y;
        let pts = 1 + r.below(4);
        let reach = 2 * u + r.below(14 * u as u64) as i64;
        for j in 0..=pts {
            let (nx, ny) = if j == pts {
                (x + 6 * u + (u - t).max(0), y)
            } else {
                let dy = u * 2 + r.below(reach as u64 + 1) as i64;
                (x - 4 * u + r.below(15 * u as u64) as i64, if up { y - dy } else { y + dy })
            };
            line(&mut c, px, py, nx, ny, t);
            (px, py) = (nx, ny);
        }
        // the line itself
        let rows = 1 + r.below(2 * u as u64) as i64;
        c.rect(x, y, u, rows, 0);
        c.rect(x + 6 * u, y, u, rows, 0);
        c.rect(x + u, y, u, rows, 255);
        c.rect(x + 5 * u, y, u, rows, 255);
        let sh = 1 + r.below(4 * u as u64) as i64;
        c.rect(x + 2 * u, y, 3 * u, sh, 0);
    }
    event(|| format!("{k} bent rings of unit {u} in {w}x{h}"));
    c
}

/// Very long, very flat.
pub fn strip_frame() -> Canvas {
    let len = 20_000 + draw(50_000) as usize;
    let th = 8 + draw(24) as usize;
    let tall = draw(2) == 1;
    let mut c = Canvas::new(len, th, 255);
    let mut r = Rng::new(subseed());
    // one region spanning the strip, with the finder line pattern somewhere on it
    let u = 1 + draw(2) as i64;
    for _ in 0..1 + draw(6) {
        let x = if r.below(2) == 0 { r.below(60) as i64 } else { r.below(len as u64) as i64 };
        let m = placement(7.0, x as f64, 4.0 * u as f64, u as f64, 0.0, 1.0, 0.0);
        c.put_bits(&finder_bits(), 7, 7, &m, 0, Some(255), 1);
    }
    if draw(2) == 1 {
        let y = 7 * u + 1 + r.below(2) as i64;
        c.rect(0, y, len as i64, u, 0);
    }
    if draw(2) == 1 {
        // a long stone and a long ring
        let x = r.below(len as u64 / 2) as i64;
        c.rect(x, 0, u, th as i64, 0);
        c.rect(x + 6 * u, 0, u, th as i64, 0);
        c.rect(x + 2 * u, u, 3 * u, th as i64 / 2, 0);
        c.rect(x, th as i64 - 1, len as i64 / 2, 1, 0);
    }
    if draw(3) == 1 {
        // a ring and a stone that are both as long as the strip
        let x = r.below(40) as i64;
        let far = 8 * len as i64 / 10 + r.below(len as u64 / 5) as i64;
        c = Canvas::new(len, th, 255);
        c.rect(x, 0, far, 1, 0);
        c.rect(x, 0, 1, 3, 0);
        c.rect(x + 6, 0, 1, 3, 0);
        c.rect(x + 2, 2, 3, 3, 0);
        c.rect(x + 2, 4, far / 4, 1 + r.below(2) as i64, 0);
    }
    event(|| format!("strip of {len}x{th}"));
    if tall {
        c.transpose()
    } else {
        c
    }
}

/// Sizes at and below anything sensible.
pub fn tiny_frame() -> Canvas {
    let w = draw(10) as usize;
    let h = draw(10) as usize;
    let (w, h) = match draw(4) {
        0 => (w, h),
        1 => (w, 30 + draw(300) as usize),
        2 => (30 + draw(300) as usize, h),
        _ => (7 + draw(6) as usize, 7 + draw(6) as usize),
    };
    let mut c = Canvas::new(w, h, 255);
    let mut r = Rng::new(subseed());
    match draw(3) {
        0 => {
            for p in &mut c.px {
                *p = r.next() as u8;
            }
        }
        1 => {
            for p in &mut c.px {
                *p = if r.below(2) == 0 { 0 } else { 255 };
            }
        }
        _ => {
            let f = finder_bits();
            for i in 0..7 {
                for j in 0..7 {
                    c.set(j, i, if f[(i * 7 + j) as usize] != 0 { 0 } else { 255 });
                }
            }
        }
    }
    event(|| format!("tiny frame {w}x{h}"));
    c
}

pub fn any_frame(kind: u64) -> Canvas {
    match kind {
        0 => noise_frame(120),
        1 => {
            let (mut c, _, _, _) = plain_frame(8);
            for _ in 0..1 + draw(3) {
                c.capture_fault(None);
            }
            c
        }
        2 => finders_frame(200, false),
        3 => tiny_frame(),
        4 => triple_frame(false),
        5 => pattern_frame(150),
        6 => {
            let k = 0.3 + draw(20) as f64 / 10.0;
            let (mut c, _, _, _) = warped_frame(8, k);
            if chance(300) {
                c.capture_fault(None);
            }
            c
        }
        7 => finders_frame(300, true),
        8 => triple_frame(true),
        9 => huge_frame(),
        11 => odd_ring_frame(),
        12 => strip_frame(),
        _ => {
            // two frames torn together
            let (mut a, _, _, _) = plain_frame(6);
            let (b, _, _, _) = warped_frame(6, 0.8);
            a.capture_fault(Some(&b));
            a.capture_fault(Some(&b));
            a
        }
    }
}

// ---------------------------------------------------------------- C07

/// Everything a caller does with one frame.
pub fn full_use(c: &Canvas, how: u64) -> Result<Vec<GridOut>, Vio> {
    let (w, h) = (c.w, c.h);
    guard("scanning a frame", || {
        let mut p = match how {
            0 => from_bitmap(w, h, &mut |x, y| c.px[y * w + x] < 128),
            1 => from_greyscale(w, h, &mut |x, y| c.px[y * w + x]),
            2 => from_gray_image(w, h, &c.px),
            _ => from_sim_image(SimImage::new(w, h, &c.px, Layout::Padded(3))),
        };
        let g = p.scan();
        note_scan(&g);
        let again = p.scan();
        note_scan(&again);
        g
    })
}

/// More than 2^31 pixels, three finder patterns as far apart as they can be.
fn giant(n: usize) -> Res {
    let mut im = simrt::Sparse::new(n, n);
    let f = finder_bits();
    let m = 10 + draw(60) as usize;
    let mut at = [(m, m), (n - m - 21, m), (m, n - m - 21)];
    let corner = draw(4);
    for p in &mut at {
        for _ in 0..corner {
            *p = (n - 21 - p.1, p.0);
        }
        *p = (p.0 + draw(9) as usize, p.1 + draw(9) as usize);
        for y in 0..21 {
            for x in 0..21 {
                if f[y / 3 * 7 + x / 3] != 0 {
                    im.put(p.0 + x, p.1 + y, 1);
                }
            }
        }
    }
    event(|| format!("{n}x{n} pixels, finder patterns at {at:?}"));
    count("probe:frame of more than 2^31 pixels", 1);
    digest(at.iter().fold(n as u64, |a, p| mix(a, (p.0 * n + p.1) as u64)));
    simrt::set_step_budget(500 * (n * n) as u64);
    let r = guard("scanning a frame", || scan_sparse(im))?;
    simrt::set_step_budget(crate::driver::DEFAULT_BUDGET);
    event(|| format!("{} grid(s)", r.len()));
    Ok(true)
}

pub fn c07(run: u64) -> Res {
    // once per check, it takes a minute
    if stratum(1 << 40, run) == 2 {
        return giant(46_400 + draw(300) as usize);
    }
    let k = stratum(60, run);
    let kind = match k {
        0..=49 => k % 9,
        50..=58 => [10, 11, 4, 11, 11, 11, 7, 11, 12][k as usize - 50],
        _ => 9,
    };
    let c = any_frame(kind);
    digest(c.hash());
    let how = draw(4);
    // Work is bounded by the size of the frame and the number of finder-like patterns.
    simrt::set_step_budget(step_budget(&c));
    let s0 = simrt::steps();
    let g = full_use(&c, how)?;
    let used = simrt::steps() - s0;
    simrt::set_step_budget(crate::driver::DEFAULT_BUDGET);
    event(|| format!("used {used} steps for {} pixels, {} grid(s)", c.px.len(), g.len()));
    Ok(c.px.len() > 49)
}

fn step_budget(c: &Canvas) -> u64 {
    1_000_000_000 + c.px.len() as u64 * 2000
}

// ---------------------------------------------------------------- C08

pub struct Shot {
    pub c: Canvas,
    pub s: Symbol,
    pub text: Vec<u8>,
    pub at: Placed,
    pub mirrored: bool,
}

/// A symbol whose data do not by chance contain something that resembles a finder pattern, and
/// what is to be shown of it (with damage of at most half the correction budget).
pub fn showable(v: usize, l: u16, damaged: bool) -> Option<(Symbol, Symbol, Vec<u8>)> {
    for _ in 0..6 {
        let (s, _, text) = make(v, l, draw(8) as u16);
        let mut d = no_damage(&s);
        if damaged {
            damage_data_upto(&s, &mut d, false, blocks(s.v, s.level).parity / 4);
        }
        let shown = Symbol {
            bits: d.bits.clone(),
            ..s.clone()
        };
        // Judged at the smallest scale and, because rows are what is scanned, in two turns.
        let side = (s.n as i64 + 2) * 3;
        let fine = (0..4).all(|q| {
            let mut c = Canvas::new(side as usize, side as usize, 255);
            c.put_symbol(&shown, 3, 3, 3, q, false, 0, 255);
            finder_lookalikes(&c, 128) == 3
        });
        if fine {
            return Some((s, shown, text));
        }
        count("probe:symbol set aside, its data resemble a finder pattern", 1);
    }
    None
}

/// A legible frame showing one symbol with its quiet zone.
pub fn legible(v: usize, l: u16, mirrored: bool) -> Option<Shot> {
    let (s, shown, text) = showable(v, l, draw(2) == 1)?;
    let ink = draw(61) as u8;
    let paper = 180 + draw(76) as u8;
    let scale = 3 + draw(if v > 20 { 3 } else { 6 }) as i64;
    let q = draw(4);
    let mg = || (4 + draw(12) as i64) * scale + draw(scale as u64) as i64;
    let mut m = [mg(), mg(), mg(), mg()];
    // far from one side of the frame
    let far = match draw(40) {
        0 if v <= 4 => 65_500 + draw(2000) as i64,
        0..=4 => 200 + draw(3000) as i64,
        _ => 0,
    };
    m[draw(4) as usize] += far;
    let [x, y, r, b] = m;
    let side = s.n as i64 * scale;
    count("probe:code in a frame far larger than itself", (far > 0) as u64);
    let mut c = Canvas::new((x + side + r) as usize, (y + side + b) as usize, paper);
    let at = c.put_symbol(&shown, x, y, scale, q, mirrored, ink, paper);
    event(|| {
        format!(
            "upright + {q} quarter turns at {scale} px/module, origin ({x},{y}) in {}x{}, mirrored {mirrored}",
            c.w, c.h
        )
    });
    if far == 0 {
        lighting(&mut c);
    } else if draw(2) == 1 {
        mild_lighting(&mut c);
    }
    Some(Shot {
        c,
        s,
        text,
        at,
        mirrored,
    })
}

/// Uneven lighting and mild sensor noise.
pub fn lighting(c: &mut Canvas) {
    match draw(3) {
        0 => {}
        k => {
            let f = |d: u64| 1.0 - d as f64 / 100.0;
            let depth = if k == 1 { 20 } else { 40 };
            c.light(f(draw(depth)), f(draw(depth)), f(draw(depth)), f(draw(depth)));
            count("fault:uneven lighting", 1);
        }
    }
    if chance(500) {
        c.noise(subseed(), 1 + draw(3) as u8);
        count("fault:sensor noise", 1);
    }
}

/// The same for frames that are mostly blank. The scanner takes for dark what is a twentieth below
/// the mean brightness of its surroundings, about an eighth of the width of the frame.
fn mild_lighting(c: &mut Canvas) {
    let f = |d: u64| 1.0 - d as f64 / 100.0;
    c.light(f(draw(9)), f(draw(9)), f(draw(9)), f(draw(9)));
    count("fault:uneven lighting", 1);
    if draw(2) == 1 {
        c.noise(subseed(), 1 + draw(2) as u8);
        count("fault:sensor noise", 1);
    }
}

/// A code at the far end of a very long frame.
pub fn far_frame() -> Canvas {
    let (s, _, _) = small_symbol(1);
    let m = 12 + draw(6) as i64;
    let at = 65_400 + draw(2000) as i64;
    let mut c = Canvas::new(at as usize + s.n * 3 + m as usize, s.n * 3 + 2 * m as usize, 255);
    c.put_symbol(&s, at, m, 3, draw(4), false, 0, 255);
    event(|| format!("code at {at} of {}", c.w));
    if draw(2) == 1 {
        c.transpose()
    } else {
        c
    }
}

fn describe(g: &[GridOut]) -> String {
    if g.is_empty() {
        return "no grid found".to_string();
    }
    g.iter()
        .map(|o| format!("grid of size {} at {:?}: {}", o.size, o.bounds, o.dec.short()))
        .collect::<Vec<_>>()
        .join("; ")
}

fn check_bounds(o: &GridOut, at: &Placed, mirrored: bool) -> Result<(), Vio> {
    let m = at.module();
    let mut cs = at.corners();
    if mirrored {
        cs.swap(1, 3);
    }
    let mut worst = 0.0f64;
    for (b, c) in o.bounds.iter().zip(cs) {
        let d = ((b.0 as f64 - c.0).powi(2) + (b.1 as f64 - c.1).powi(2)).sqrt() / m;
        worst = worst.max(d);
    }
    if worst > BOUND_TOL {
        return vio(
            "wrong bounds",
            format!("bounds {:?} but the corners are at {cs:?}: {worst:.2} modules apart", o.bounds),
        );
    }
    Ok(())
}
/// In modules; 1.89 is the most seen on the unchanged tree.
const BOUND_TOL: f64 = 2.5;

/// The shot must be read completely and correctly from this scan.
pub fn check_shot(g: &[GridOut], sh: &Shot) -> Result<(), Vio> {
    let want = Dec::Ok(meta_of(&sh.s), sh.text.clone());
    let Some(o) = g.iter().find(|o| o.dec == want) else {
        return vio(
            "legible code not read",
            format!(
                "version {} level {} at {:?}: {}",
                sh.s.v,
                sh.s.level,
                sh.at.corners(),
                describe(g)
            ),
        );
    };
    if o.size != sh.s.n {
        return vio("wrong grid size", format!("{} instead of {}", o.size, sh.s.n));
    }
    check_bounds(o, &sh.at, sh.mirrored)
}

pub fn scan_canvas(c: &Canvas, how: u64) -> Result<Vec<GridOut>, Vio> {
    let (w, h) = (c.w, c.h);
    guard("scanning a frame", || {
        let mut p = match how {
            0 => from_greyscale(w, h, &mut |x, y| c.px[y * w + x]),
            1 => from_gray_image(w, h, &c.px),
            _ => from_sim_image(SimImage::new(w, h, &c.px, Layout::Columns)),
        };
        let g = p.scan();
        note_scan(&g);
        g
    })
}

pub fn c08(run: u64) -> Res {
    let v = 1 + stratum(40, run) as usize;
    let l = stratum(4, run / 40) as u16;
    let frames = 1 + draw(3);
    let last = draw(frames);
    let mut any = false;
    for i in 0..frames {
        if i != last && draw(2) == 1 {
            let k = draw(9);
            let c = any_frame(k);
            count("fault:unreadable frame in the stream", 1);
            let _ = full_use(&c, 1)?;
            continue;
        }
        let v = if i == last { v } else { range(1, 6) as usize };
        let Some(sh) = legible(v, l, false) else { continue };
        digest(sh.c.hash());
        let g = scan_canvas(&sh.c, draw(3))?;
        check_shot(&g, &sh)?;
        count("probe:legible frame read", 1);
        any = true;
    }
    Ok(any)
}

// ---------------------------------------------------------------- C15, picture part

pub fn c15_picture() -> Res {
    let v = range(1, 14) as usize;
    let l = draw(4) as u16;
    let Some(sh) = legible(v, l, true) else { return Ok(false) };
    digest(sh.c.hash());
    let g = scan_canvas(&sh.c, draw(3))?;
    check_shot(&g, &sh)?;
    count("probe:mirrored frame read", 1);
    Ok(true)
}

// ---------------------------------------------------------------- C09

pub struct Item {
    pub s: Symbol,
    pub text: Vec<u8>,
    pub at: Placed,
    pub x: i64,
    pub y: i64,
    pub side: i64,
    pub scale: i64,
}

/// Centres of the three finder patterns, the one at the right angle first.
fn finder_centres(p: &Placed) -> [(f64, f64); 3] {
    let n = p.n as f64;
    [(3.5, 3.5), (n - 3.5, 3.5), (3.5, n - 3.5)].map(|(x, y)| apply(&p.to_img, x, y))
}

/// Do three finder patterns that do not belong together look like the corners of one code?
pub fn ambiguous(items: &[Item]) -> bool {
    let f: Vec<(usize, usize, f64, f64)> = items
        .iter()
        .enumerate()
        .flat_map(|(i, it)| finder_centres(&it.at).into_iter().enumerate().map(move |(k, c)| (i, k, c.0, c.1)))
        .collect();
    for a in &f {
        for b in &f {
            for c in &f {
                if a.0 == b.0 && b.0 == c.0 {
                    continue;
                }
                let (bx, by) = ((b.2 - a.2).abs(), (b.3 - a.3).abs());
                let (cx, cy) = ((c.2 - a.2).abs(), (c.3 - a.3).abs());
                let cone = bx < 0.25 * by && cy < 0.25 * cx;
                let ratio = by.min(cx) / by.max(cx).max(1e-9);
                if cone && ratio > 0.7 {
                    return true;
                }
            }
        }
    }
    false
}

fn overlaps(a: (i64, i64, i64, i64), b: (i64, i64, i64, i64)) -> bool {
    a.0 < b.0 + b.2 && b.0 < a.0 + a.2 && a.1 < b.1 + b.3 && b.1 < a.1 + a.3
}

/// Rectangle of an item together with its quiet zone.
fn zone(i: &Item) -> (i64, i64, i64, i64) {
    let q = 4 * i.scale + 1;
    (i.x - q, i.y - q, i.side + 2 * q, i.side + 2 * q)
}

/// Dark clutter of many kinds outside the given zones; a piece that would make something look like
/// a further finder pattern is not drawn.
pub fn clutter(c: &mut Canvas, zones: &[(i64, i64, i64, i64)], ink: u8, finders: usize, below: u8) -> u64 {
    let mut done = 0;
    let kinds = draw(4);
    for _ in 0..kinds {
        let before = c.clone();
        let mut r = Rng::new(subseed());
        let kind = draw(8);
        let n = [3, 20, 120, 400][draw(4) as usize];
        let u = 1 + draw(4) as i64;
        if kind >= 6 {
            let mut keep = zones.to_vec();
            let mut around = None;
            if kind == 7 && !zones.is_empty() {
                let z = zones[r.below(zones.len() as u64) as usize];
                keep.push(frame_clutter(c, z, zones, ink, &mut r));
                around = Some(z);
            }
            let free = |b: (i64, i64, i64, i64)| !keep.iter().any(|z| overlaps(*z, b));
            // bands of bars, each spaced like a row through a finder pattern
            for _ in 0..1 + r.below(3) {
                let u = 1 + r.below(2) as i64;
                let tall = 1 + r.below(2) as i64;
                let (top, end) = match around.take() {
                    Some(z) => (z.1, z.1 + z.3),
                    None => {
                        let t = r.below(c.h as u64) as i64;
                        (t, t + 20 + r.below(100) as i64)
                    }
                };
                let mut y = top;
                while y < end.min(c.h as i64) {
                    let mut x = r.below(6) as i64;
                    while x + 7 * u < c.w as i64 {
                        if free((x - 1, y - 1, 7 * u + 2, tall + 2)) {
                            for (o, k) in [(0, 1), (2, 3), (6, 1)] {
                                c.rect(x + o * u, y, k * u, tall, ink);
                            }
                            done += 1;
                        }
                        x += 7 * u + 1 + r.below(3) as i64;
                    }
                    y += tall + 1;
                }
            }
        }
        for _ in 0..n {
            if kind >= 6 {
                break;
            }
            let x = r.below(c.w as u64) as i64;
            let y = r.below(c.h as u64) as i64;
            let boxes: Vec<(i64, i64, i64, i64)> = match kind {
                // specks
                0 => vec![(x, y, u, u)],
                // bars
                1 => vec![(x, y, 1 + r.below(30) as i64, u)],
                2 => vec![(x, y, u, 1 + r.below(30) as i64)],
                // three unconnected bars, spaced like a row through a finder pattern
                3 => {
                    let h = 1 + r.below(3 * u as u64) as i64;
                    vec![(x, y, u, h), (x + 2 * u, y, 3 * u, h), (x + 6 * u, y, u, h)]
                }
                // a ring without a stone
                4 => vec![
                    (x, y, 7 * u, u),
                    (x, y + 6 * u, 7 * u, u),
                    (x, y, u, 7 * u),
                    (x + 6 * u, y, u, 7 * u),
                ],
                // a finder pattern with its ring cut open on both sides of the stone
                _ => vec![
                    (x, y, u, 7 * u),
                    (x + 6 * u, y, u, 7 * u),
                    (x + 2 * u, y + 2 * u, 3 * u, 3 * u),
                ],
            };
            let hull = (
                boxes.iter().map(|b| b.0).min().unwrap(),
                boxes.iter().map(|b| b.1).min().unwrap(),
                7 * u + 30,
                7 * u + 30,
            );
            if zones.iter().any(|z| overlaps(*z, hull)) {
                continue;
            }
            for b in boxes {
                c.rect(b.0, b.1, b.2, b.3, ink);
            }
            done += 1;
        }
        if finder_lookalikes(c, below) != finders {
            *c = before;
            count("probe:clutter set aside, it resembles a finder pattern", 1);
        } else {
            count("fault:clutter", 1);
            event(|| format!("clutter kind {kind}, {n} pieces of unit {u}"));
        }
    }
    done
}

/// A line around a code (outside of its quiet zone), a side of which looks, together with two bars
/// next to it, like the edge of a finder pattern. Lines through other codes are left out.
fn frame_clutter(
    c: &mut Canvas,
    z: (i64, i64, i64, i64),
    zones: &[(i64, i64, i64, i64)],
    ink: u8,
    r: &mut Rng,
) -> (i64, i64, i64, i64) {
    let free = |b: (i64, i64, i64, i64)| !zones.iter().any(|z| overlaps(*z, b));
    let t = 1 + r.below(7) as i64;
    let e = 1 + r.below(12) as i64;
    let (x0, y0, x1, y1) = (z.0 - e - t, z.1 - e - t, z.0 + z.2 + e, z.1 + z.3 + e);
    let sides = [
        (x0, y0, x1 + t - x0, t),
        (x0, y1, x1 + t - x0, t),
        (x0, y0, t, y1 + t - y0),
        (x1, y0, t, y1 + t - y0),
    ];
    for b in sides {
        if free(b) {
            c.rect(b.0, b.1, b.2, b.3, ink);
        }
    }
    let mut y = y0 + t + 1 + r.below(20) as i64;
    while y < y1 {
        let h = 1 + r.below(3) as i64;
        let bars = if r.below(4) == 0 {
            [(x1 + 6 * t, y, t, h), (x1 + 2 * t, y, 3 * t, h)]
        } else {
            [(x0 - 6 * t, y, t, h), (x0 - 4 * t, y, 3 * t, h)]
        };
        if bars.iter().all(|b| free((b.0 - 1, b.1 - 1, b.2 + 2, b.3 + 2))) {
            for b in bars {
                c.rect(b.0, b.1, b.2, b.3, ink);
            }
        }
        let gap = [8, 60][r.below(2) as usize];
        y += h + 1 + r.below(gap) as i64;
    }
    (x0 - 6 * t - 1, y0 - 1, x1 - x0 + 14 * t + 2, y1 - y0 + t + 2)
}

/// Several codes at whole-pixel placement.
pub fn scene(max_codes: u64, max_v: u64) -> Option<(Canvas, Vec<Item>)> {
    let k = 1 + draw(max_codes) as usize;
    let paper = 180 + draw(76) as u8;
    let ink = draw(61) as u8;
    let sheet = draw(3) == 2;
    let mut items: Vec<Item> = Vec::new();
    let mut shown = Vec::new();
    let (mut w, mut h) = (0, 0);
    if sheet {
        // a sheet of equal labels
        let v = range(1, max_v) as usize;
        let scale = 3 + draw(3) as i64;
        let cols = 1 + draw(3) as i64;
        let gap = (4 + draw(12) as i64) * scale + 2;
        let q = draw(4);
        for i in 0..2 * k as i64 {
            let (s, sh, text) = showable(v, draw(4) as u16, draw(4) == 1)?;
            let side = s.n as i64 * scale;
            let (x, y) = (gap + i % cols * (side + gap), gap + i / cols * (side + gap));
            let at = Canvas::new(0, 0, 0).put_symbol(&sh, x, y, scale, q, false, ink, paper);
            items.push(Item { s, text, at, x, y, side, scale });
            if ambiguous(&items) {
                items.pop();
                count("probe:placement set aside, finders of several codes line up", 1);
                continue;
            }
            shown.push((sh, q));
            w = w.max(x + side + gap);
            h = h.max(y + side + gap);
        }
        let k = items.len();
        event(|| format!("sheet of {k} labels, {cols} columns, version {v}, {scale} px/module, gap {gap}, {q} quarter turns"));
    } else {
        w = 250 + draw(450) as i64;
        h = 250 + draw(450) as i64;
        for _ in 0..k {
            let v = range(1, max_v) as usize;
            let (s, sh, text) = showable(v, draw(4) as u16, draw(4) == 1)?;
            for _ in 0..12 {
                let scale = 3 + draw(3) as i64;
                let q = draw(4);
                let side = s.n as i64 * scale;
                let m = 4 * scale + 1;
                if side + 2 * m >= w.min(h) {
                    continue;
                }
                let x = m + draw((w - side - 2 * m) as u64) as i64;
                let y = m + draw((h - side - 2 * m) as u64) as i64;
                let at = Canvas::new(0, 0, 0).put_symbol(&sh, x, y, scale, q, false, ink, paper);
                let it = Item { s: s.clone(), text: text.clone(), at, x, y, side, scale };
                if items.iter().any(|o| overlaps(zone(o), zone(&it))) {
                    continue;
                }
                items.push(it);
                if ambiguous(&items) {
                    items.pop();
                    count("probe:placement set aside, finders of several codes line up", 1);
                    continue;
                }
                shown.push((sh.clone(), q));
                break;
            }
        }
        event(|| {
            format!(
                "{} code(s) in {w}x{h}: {:?}",
                items.len(),
                items.iter().map(|i| (i.s.v, i.x, i.y, i.scale)).collect::<Vec<_>>()
            )
        });
    }
    let mut c = Canvas::new(w as usize, h as usize, paper);
    for (it, (sh, q)) in items.iter().zip(&shown) {
        c.put_symbol(sh, it.x, it.y, it.scale, *q, false, ink, paper);
    }
    if items.is_empty() {
        return None;
    }
    let below = ink / 2 + paper / 2;
    let zones: Vec<_> = items.iter().map(zone).collect();
    clutter(&mut c, &zones, ink, 3 * items.len(), below);
    Some((c, items))
}

pub fn c09(_run: u64) -> Res {
    let Some((mut c, items)) = scene(5, 6) else { return Ok(false) };
    lighting(&mut c);
    digest(c.hash());
    let g = scan_canvas(&c, draw(3))?;
    let mut left: Vec<&GridOut> = g.iter().collect();
    for it in &items {
        let want = Dec::Ok(meta_of(&it.s), it.text.clone());
        let Some(i) = left.iter().position(|o| o.dec == want && check_bounds(o, &it.at, false).is_ok()) else {
            return vio(
                "code in the scene not reported",
                format!(
                    "version {} at ({},{}) of {} code(s): {}",
                    it.s.v,
                    it.x,
                    it.y,
                    items.len(),
                    describe(&g)
                ),
            );
        };
        left.remove(i);
    }
    if !left.is_empty() {
        return vio(
            "more grids than codes",
            format!("{} code(s) but {} grid(s): {}", items.len(), g.len(), describe(&g)),
        );
    }
    count("probe:codes in one scene", items.len() as u64);
    Ok(true)
}
