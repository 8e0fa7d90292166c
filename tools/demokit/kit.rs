//! Shared by the demonstrations of planted changes: an independent QR encoder and a rasteriser.
#![allow(dead_code)]

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n.max(1)
    }
}

impl Symbol {
    pub fn new(v: usize, level: u16, mask: u16, segs: &[Seg]) -> Symbol {
        encode_segs(v, level, mask, segs)
    }
    pub fn grid(&self) -> rqrr::Grid<rqrr::SimpleGrid> {
        let (n, b) = (self.n, self.bits.clone());
        rqrr::Grid::new(rqrr::SimpleGrid::from_func(n, move |x, y| b[y * n + x] != 0))
    }
    /// XOR `v` into one codeword, given as (block, position in block).
    pub fn damage(&mut self, block: u16, pos: u16, v: u8) {
        let k = blocks(self.v, self.level).place.iter().position(|&p| p == (block, pos)).unwrap();
        for i in 0..8 {
            if v >> (7 - i) & 1 != 0 {
                self.bits[geo(self.v).order[k * 8 + i] as usize] ^= 1;
            }
        }
    }
    pub fn block_len(&self, b: usize) -> usize {
        let bl = blocks(self.v, self.level);
        bl.data[b] + bl.parity
    }
}

pub struct Pic {
    pub w: usize,
    pub h: usize,
    pub px: Vec<u8>,
}
impl Pic {
    pub fn new(w: usize, h: usize) -> Pic {
        Pic { w, h, px: vec![255; w * h] }
    }
    pub fn rect(&mut self, x: usize, y: usize, w: usize, h: usize, v: u8) {
        for j in y..y + h {
            for i in x..x + w {
                self.px[j * self.w + i] = v;
            }
        }
    }
    pub fn symbol(&mut self, s: &Symbol, x: usize, y: usize, scale: usize) {
        for j in 0..s.n {
            for i in 0..s.n {
                let v = if s.bits[j * s.n + i] != 0 { 0 } else { 255 };
                self.rect(x + i * scale, y + j * scale, scale, scale, v);
            }
        }
    }
}


// Order L, M, Q, H
const ECC_PER_BLOCK: [[u8; 41]; 4] = [
    [0, 7, 10, 15, 20, 26, 18, 20, 24, 30, 18, 20, 24, 26, 30, 22, 24, 28, 30, 28, 28, 28, 28, 30, 30, 26, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30],
    [0, 10, 16, 26, 18, 24, 16, 18, 22, 22, 26, 30, 22, 22, 24, 24, 28, 28, 26, 26, 26, 26, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28],
    [0, 13, 22, 18, 26, 18, 24, 18, 22, 20, 24, 28, 26, 24, 20, 30, 24, 28, 28, 26, 30, 28, 30, 30, 30, 30, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30],
    [0, 17, 28, 22, 16, 22, 28, 26, 26, 24, 28, 24, 28, 22, 24, 24, 30, 28, 28, 26, 28, 30, 24, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30],
];
const NUM_BLOCKS: [[u8; 41]; 4] = [
    [0, 1, 1, 1, 1, 1, 2, 2, 2, 2, 4, 4, 4, 4, 4, 6, 6, 6, 6, 7, 8, 8, 9, 9, 10, 12, 12, 12, 13, 14, 15, 16, 17, 18, 19, 19, 20, 21, 22, 24, 25],
    [0, 1, 1, 1, 2, 2, 4, 4, 4, 5, 5, 5, 8, 9, 9, 10, 10, 11, 13, 14, 16, 17, 17, 18, 20, 21, 23, 25, 26, 28, 29, 31, 33, 35, 37, 38, 40, 43, 45, 47, 49],
    [0, 1, 1, 2, 2, 4, 4, 6, 6, 8, 8, 8, 10, 12, 16, 12, 17, 16, 18, 21, 20, 23, 23, 25, 27, 29, 34, 34, 35, 38, 40, 43, 45, 48, 51, 53, 56, 59, 62, 65, 68],
    [0, 1, 1, 2, 4, 4, 4, 5, 6, 8, 8, 11, 11, 16, 16, 18, 16, 19, 21, 25, 25, 25, 34, 30, 32, 35, 37, 40, 42, 45, 48, 51, 54, 57, 60, 63, 66, 70, 74, 77, 81],
];

fn row(level: u16) -> usize {
    [1, 0, 3, 2][level as usize]
}

pub fn size_of(v: usize) -> usize {
    4 * v + 17
}

pub fn align_positions(v: usize) -> Vec<usize> {
    if v == 1 {
        return vec![];
    }
    let na = v / 7 + 2;
    let step = if v == 32 {
        26
    } else {
        (v * 4 + na * 2 + 1) / (na * 2 - 2) * 2
    };
    let mut r: Vec<usize> = (0..na - 1).map(|i| size_of(v) - 7 - i * step).collect();
    r.push(6);
    r.reverse();
    r
}

// ---------------------------------------------------------------- GF(256)

pub struct Gf {
    exp: [u8; 512],
    log: [u16; 256],
}
impl Gf {
    fn new() -> Gf {
        let mut g = Gf {
            exp: [0; 512],
            log: [0; 256],
        };
        let mut x = 1u16;
        for i in 0..255 {
            g.exp[i] = x as u8;
            g.exp[i + 255] = x as u8;
            g.log[x as usize] = i as u16;
            x <<= 1;
            if x & 0x100 != 0 {
                x ^= 0x11d;
            }
        }
        g
    }
    fn mul(&self, a: u8, b: u8) -> u8 {
        if a == 0 || b == 0 {
            0
        } else {
            self.exp[self.log[a as usize] as usize + self.log[b as usize] as usize]
        }
    }
    fn div(&self, a: u8, b: u8) -> u8 {
        if a == 0 {
            0
        } else {
            self.exp[self.log[a as usize] as usize + 255 - self.log[b as usize] as usize]
        }
    }
    fn pow(&self, e: usize) -> u8 {
        self.exp[e % 255]
    }
}

pub fn gf() -> &'static Gf {
    use std::sync::OnceLock;
    static G: OnceLock<Gf> = OnceLock::new();
    G.get_or_init(Gf::new)
}

pub fn rs_parity_pub(data: &[u8], n: usize) -> Vec<u8> {
    rs_parity(data, n)
}

fn rs_parity(data: &[u8], n: usize) -> Vec<u8> {
    let g = gf();
    // generator polynomial, highest degree first, leading 1 dropped
    let mut gen = vec![1u8];
    for i in 0..n {
        let mut ng = vec![0u8; gen.len() + 1];
        for (j, &c) in gen.iter().enumerate() {
            ng[j] ^= c;
            ng[j + 1] ^= g.mul(c, g.pow(i));
        }
        gen = ng;
    }
    let mut rem = vec![0u8; n];
    for &d in data {
        let f = d ^ rem[0];
        rem.rotate_left(1);
        rem[n - 1] = 0;
        for j in 0..n {
            rem[j] ^= g.mul(gen[j + 1], f);
        }
    }
    rem
}

fn syndromes(block: &[u8], n: usize) -> Vec<u8> {
    let g = gf();
    (0..n)
        .map(|i| {
            let mut s = 0u8;
            for &b in block {
                s = g.mul(s, g.pow(i)) ^ b;
            }
            s
        })
        .collect()
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RsOut {
    /// Corrected; the number of codewords changed is within half the parity.
    Within(Vec<u8>),
    /// A codeword can be reached only by changing more than half the parity count.
    Beyond,
    Uncorrectable,
}

/// Berlekamp-Massey + Chien + Forney with final verification.
pub fn rs_decode(block: &[u8], n: usize) -> RsOut {
    let g = gf();
    let s = syndromes(block, n);
    if s.iter().all(|x| *x == 0) {
        return RsOut::Within(block.to_vec());
    }
    let mut c = vec![0u8; n + 2];
    let mut b = vec![0u8; n + 2];
    c[0] = 1;
    b[0] = 1;
    let (mut l, mut m, mut bb) = (0usize, 1usize, 1u8);
    for r in 0..n {
        let mut d = s[r];
        for i in 1..=l {
            d ^= g.mul(c[i], s[r - i]);
        }
        if d == 0 {
            m += 1;
            continue;
        }
        let f = g.div(d, bb);
        let t = c.clone();
        for i in 0..c.len() {
            if i + m < c.len() {
                c[i + m] ^= g.mul(f, b[i]);
            }
        }
        if 2 * l <= r {
            l = r + 1 - l;
            b = t;
            bb = d;
            m = 1;
        } else {
            m += 1;
        }
    }
    let eval = |p: &[u8], x: u8| {
        let mut r = 0u8;
        for &k in p.iter().rev() {
            r = g.mul(r, x) ^ k;
        }
        r
    };
    // omega = s(x) * sigma(x) mod x^n
    let mut om = vec![0u8; n];
    for i in 0..n {
        for j in 0..=i {
            if j < c.len() {
                om[i] ^= g.mul(c[j], s[i - j]);
            }
        }
    }
    let mut der = vec![0u8; c.len()];
    for i in (1..c.len()).step_by(2) {
        der[i - 1] = c[i];
    }
    let len = block.len();
    let mut out = block.to_vec();
    let mut changed = 0;
    for i in 0..len {
        let xi = g.pow((255 - i % 255) % 255);
        if eval(&c, xi) == 0 {
            let dx = eval(&der, xi);
            if dx == 0 {
                return RsOut::Uncorrectable;
            }
            // first root alpha^0: e = X * omega(X^-1) / sigma'(X^-1)
            let e = g.mul(g.pow(i), g.div(eval(&om, xi), dx));
            out[len - 1 - i] ^= e;
            if e != 0 {
                changed += 1;
            }
        }
    }
    if syndromes(&out, n).iter().any(|x| *x != 0) {
        return RsOut::Uncorrectable;
    }
    if changed <= n / 2 {
        RsOut::Within(out)
    } else {
        RsOut::Beyond
    }
}

// ---------------------------------------------------------------- symbol geometry

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum M {
    Data,
    Finder,
    Timing,
    Align,
    FormatA(u8),
    FormatB(u8),
    Version,
    Dark,
}

pub struct Geo {
    pub n: usize,
    pub kind: Vec<M>,
    /// fixed value of function modules (format and version bits are filled in later)
    pub fixed: Vec<u8>,
    /// data modules in codeword order, as y*n+x
    pub order: Vec<u32>,
    pub total: usize,
}

pub fn geo(v: usize) -> &'static Geo {
    use std::sync::OnceLock;
    static G: [OnceLock<Geo>; 41] = [const { OnceLock::new() }; 41];
    G[v].get_or_init(|| build_geo(v))
}

/// Fill every lazily built table before a run starts: generic code shared with the instrumented
/// crates (Vec growth) ticks the clock, so a table built inside a run would make that run longer
/// than the same run in a process that has the table already.
pub fn warm_up() {
    gf();
    for v in 1..=40 {
        geo(v);
    }
}

fn bch(mut v: u32, poly: u32, bits: u32, width: u32) -> u32 {
    // remainder of v * x^bits
    let orig = v;
    v <<= bits;
    for i in (bits..width).rev() {
        if v >> i & 1 != 0 {
            v ^= poly << (i - bits);
        }
    }
    orig << bits | v
}

pub fn format_word(level: u16, mask: u16) -> u16 {
    (bch((level as u32) << 3 | mask as u32, 0x537, 10, 15) as u16) ^ 0x5412
}

fn build_geo(v: usize) -> Geo {
    let n = size_of(v);
    let mut kind = vec![M::Data; n * n];
    let mut fixed = vec![0u8; n * n];
    // timing
    for i in 0..n {
        kind[6 * n + i] = M::Timing;
        fixed[6 * n + i] = (i % 2 == 0) as u8;
        kind[i * n + 6] = M::Timing;
        fixed[i * n + 6] = (i % 2 == 0) as u8;
    }
    // alignment
    let a = align_positions(v);
    for (i, &y) in a.iter().enumerate() {
        for (j, &x) in a.iter().enumerate() {
            let last = a.len() - 1;
            if (i == 0 && j == 0) || (i == 0 && j == last) || (i == last && j == 0) {
                continue;
            }
            for dy in 0..5usize {
                for dx in 0..5usize {
                    let p = (y + dy - 2) * n + x + dx - 2;
                    kind[p] = M::Align;
                    let r = (dy as i32 - 2).abs().max((dx as i32 - 2).abs());
                    fixed[p] = (r != 1) as u8;
                }
            }
        }
    }
    // finders with separators
    for (cy, cx) in [(3i32, 3i32), (3, n as i32 - 4), (n as i32 - 4, 3)] {
        for dy in -4..=4i32 {
            for dx in -4..=4i32 {
                let (y, x) = (cy + dy, cx + dx);
                if y < 0 || x < 0 || y >= n as i32 || x >= n as i32 {
                    continue;
                }
                let p = y as usize * n + x as usize;
                kind[p] = M::Finder;
                let r = dy.abs().max(dx.abs());
                fixed[p] = (r != 2 && r != 4) as u8;
            }
        }
    }
    // format A: bit i position
    for i in 0..15usize {
        let (y, x) = match i {
            0..=5 => (i, 8),
            6 => (7, 8),
            7 => (8, 8),
            8 => (8, 7),
            _ => (8, 14 - i),
        };
        kind[y * n + x] = M::FormatA(i as u8);
        let (y, x) = if i < 8 { (8, n - 1 - i) } else { (n - 15 + i, 8) };
        kind[y * n + x] = M::FormatB(i as u8);
    }
    kind[(n - 8) * n + 8] = M::Dark;
    fixed[(n - 8) * n + 8] = 1;
    if v >= 7 {
        let w = bch(v as u32, 0x1f25, 12, 18);
        for i in 0..18 {
            let b = (w >> i & 1) as u8;
            let (p, q) = (n - 11 + i % 3, i / 3);
            kind[q * n + p] = M::Version;
            fixed[q * n + p] = b;
            kind[p * n + q] = M::Version;
            fixed[p * n + q] = b;
        }
    }
    // zigzag
    let mut order = Vec::new();
    let mut right = n as i32 - 1;
    let mut up = true;
    while right >= 1 {
        if right == 6 {
            right = 5;
        }
        for k in 0..n {
            let y = if up { n - 1 - k } else { k };
            for j in 0..2 {
                let x = (right - j) as usize;
                if kind[y * n + x] == M::Data {
                    order.push((y * n + x) as u32);
                }
            }
        }
        up = !up;
        right -= 2;
    }
    let total = order.len() / 8;
    Geo {
        n,
        kind,
        fixed,
        order,
        total,
    }
}

pub fn mask_at(mask: u16, y: usize, x: usize) -> bool {
    match mask {
        0 => (y + x) % 2 == 0,
        1 => y % 2 == 0,
        2 => x % 3 == 0,
        3 => (y + x) % 3 == 0,
        4 => (y / 2 + x / 3) % 2 == 0,
        5 => y * x % 2 + y * x % 3 == 0,
        6 => (y * x % 2 + y * x % 3) % 2 == 0,
        _ => ((y + x) % 2 + y * x % 3) % 2 == 0,
    }
}

/// Block structure: for every block (data length, parity length).
#[derive(Clone, Debug)]
pub struct Blocks {
    pub parity: usize,
    pub data: Vec<usize>,
    /// codeword index in the symbol -> (block, position in block)
    pub place: Vec<(u16, u16)>,
}

pub fn blocks(v: usize, level: u16) -> Blocks {
    let r = row(level);
    let nb = NUM_BLOCKS[r][v] as usize;
    let par = ECC_PER_BLOCK[r][v] as usize;
    let total = geo(v).total;
    let long = total % nb;
    let bl = total / nb;
    let data: Vec<usize> = (0..nb)
        .map(|i| bl - par + (i >= nb - long) as usize)
        .collect();
    let mut place = Vec::new();
    for j in 0..bl - par + 1 {
        for (b, &d) in data.iter().enumerate() {
            if j < d {
                place.push((b as u16, j as u16));
            }
        }
    }
    for j in 0..par {
        for (b, &d) in data.iter().enumerate() {
            place.push((b as u16, (d + j) as u16));
        }
    }
    Blocks {
        parity: par,
        data,
        place,
    }
}

pub fn data_codewords(v: usize, level: u16) -> usize {
    blocks(v, level).data.iter().sum()
}

#[derive(Clone, Debug)]
pub struct Symbol {
    pub v: usize,
    pub n: usize,
    pub level: u16,
    pub mask: u16,
    pub bits: Vec<u8>,
}

pub fn put_format(bits: &mut [u8], v: usize, word_a: u16, word_b: u16) {
    let g = geo(v);
    for (p, k) in g.kind.iter().enumerate() {
        match k {
            M::FormatA(i) => bits[p] = (word_a >> i & 1) as u8,
            M::FormatB(i) => bits[p] = (word_b >> i & 1) as u8,
            _ => {}
        }
    }
}

/// Build a symbol from its data codewords.
pub fn build(v: usize, level: u16, mask: u16, data: &[u8]) -> Symbol {
    let g = geo(v);
    let bl = blocks(v, level);
    let mut bw: Vec<Vec<u8>> = Vec::new();
    let mut o = 0;
    for &d in &bl.data {
        let mut b = data[o..o + d].to_vec();
        o += d;
        let p = rs_parity(&b, bl.parity);
        b.extend(p);
        bw.push(b);
    }
    assert_eq!(o, data.len());
    let cw: Vec<u8> = bl
        .place
        .iter()
        .map(|&(b, j)| bw[b as usize][j as usize])
        .collect();
    assert_eq!(cw.len(), g.total);
    let mut bits = g.fixed.clone();
    for (k, &p) in g.order.iter().enumerate() {
        let b = if k / 8 < cw.len() {
            cw[k / 8] >> (7 - k % 8) & 1
        } else {
            0
        };
        let (y, x) = (p as usize / g.n, p as usize % g.n);
        bits[p as usize] = b ^ mask_at(mask, y, x) as u8;
    }
    let w = format_word(level, mask);
    put_format(&mut bits, v, w, w);
    Symbol {
        v,
        n: g.n,
        level,
        mask,
        bits,
    }
}

pub fn transpose(n: usize, b: &[u8]) -> Vec<u8> {
    let mut o = vec![0; n * n];
    for y in 0..n {
        for x in 0..n {
            o[x * n + y] = b[y * n + x];
        }
    }
    o
}

// ---------------------------------------------------------------- segments

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Seg {
    Numeric(Vec<u8>),
    Alnum(Vec<u8>),
    Byte(Vec<u8>),
    /// 13-bit codes
    Kanji(Vec<u16>),
    Eci(u32),
}

pub const ALNUM: &[u8; 45] = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ $%*+-./:";

#[derive(Clone, Default, Debug)]
pub struct Bits(pub Vec<u8>);
impl Bits {
    pub fn put(&mut self, v: u64, n: usize) {
        for i in (0..n).rev() {
            self.0.push((v >> i & 1) as u8);
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.0
            .chunks(8)
            .map(|c| {
                let mut b = 0;
                for i in 0..8 {
                    b = b << 1 | c.get(i).copied().unwrap_or(0);
                }
                b
            })
            .collect()
    }
}

pub fn count_bits(seg: &Seg, v: usize) -> usize {
    let k = if v <= 9 {
        0
    } else if v <= 26 {
        1
    } else {
        2
    };
    match seg {
        Seg::Numeric(_) => [10, 12, 14][k],
        Seg::Alnum(_) => [9, 11, 13][k],
        Seg::Byte(_) => [8, 16, 16][k],
        Seg::Kanji(_) => [8, 10, 12][k],
        Seg::Eci(_) => 0,
    }
}

pub fn seg_mode(s: &Seg) -> u64 {
    match s {
        Seg::Numeric(_) => 1,
        Seg::Alnum(_) => 2,
        Seg::Byte(_) => 4,
        Seg::Kanji(_) => 8,
        Seg::Eci(_) => 7,
    }
}

pub fn seg_chars(s: &Seg) -> usize {
    match s {
        Seg::Numeric(d) | Seg::Alnum(d) | Seg::Byte(d) => d.len(),
        Seg::Kanji(d) => d.len(),
        Seg::Eci(_) => 0,
    }
}

pub fn seg_body(s: &Seg, b: &mut Bits) {
    match s {
        Seg::Numeric(d) => {
            for c in d.chunks(3) {
                let v = c.iter().fold(0u64, |a, x| a * 10 + (x - b'0') as u64);
                b.put(v, [4, 7, 10][c.len() - 1]);
            }
        }
        Seg::Alnum(d) => {
            let ix = |c: &u8| ALNUM.iter().position(|a| a == c).unwrap() as u64;
            for c in d.chunks(2) {
                if c.len() == 2 {
                    b.put(ix(&c[0]) * 45 + ix(&c[1]), 11)
                } else {
                    b.put(ix(&c[0]), 6)
                }
            }
        }
        Seg::Byte(d) => {
            for c in d {
                b.put(*c as u64, 8)
            }
        }
        Seg::Kanji(d) => {
            for c in d {
                b.put(*c as u64, 13)
            }
        }
        Seg::Eci(e) => {
            if *e < 128 {
                b.put(*e as u64, 8)
            } else if *e < 16384 {
                b.put(0b10, 2);
                b.put(*e as u64, 14)
            } else {
                b.put(0b110, 3);
                b.put(*e as u64, 21)
            }
        }
    }
}

pub fn seg_put(s: &Seg, v: usize, b: &mut Bits) {
    b.put(seg_mode(s), 4);
    b.put(seg_chars(s) as u64, count_bits(s, v));
    seg_body(s, b);
}

/// What a segment contributes to the output.
pub fn seg_text(s: &Seg) -> Vec<u8> {
    match s {
        Seg::Numeric(d) | Seg::Alnum(d) | Seg::Byte(d) => d.clone(),
        Seg::Kanji(d) => {
            let mut o = Vec::new();
            for &c in d {
                let t = (c / 0xc0) << 8 | (c % 0xc0);
                let w = if t + 0x8140 <= 0x9ffc {
                    t + 0x8140
                } else {
                    t + 0xc140
                };
                o.push((w >> 8) as u8);
                o.push(w as u8);
            }
            o
        }
        Seg::Eci(_) => vec![],
    }
}

/// Shift-JIS double-byte code to its 13-bit kanji code.
pub fn sjis_to_code(w: u16) -> u16 {
    let t = if w <= 0x9ffc { w - 0x8140 } else { w - 0xc140 };
    (t >> 8) * 0xc0 + (t & 0xff)
}

pub fn segs_text(s: &[Seg]) -> Vec<u8> {
    s.iter().flat_map(seg_text).collect()
}

/// Terminator (if it fits), bit padding, pad codewords.
pub fn finish(mut b: Bits, cap: usize) -> Vec<u8> {
    let room = cap * 8 - b.0.len();
    b.put(0, room.min(4));
    while b.0.len() % 8 != 0 {
        b.0.push(0);
    }
    let mut d = b.bytes();
    let mut k = 0;
    while d.len() < cap {
        d.push([0xec, 0x11][k % 2]);
        k += 1;
    }
    d
}

// ---------------------------------------------------------------- reference decoder

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RefErr {
    InvalidVersion,
    FormatEcc,
    DataEcc,
}
impl RefErr {
    pub fn name(&self) -> &'static str {
        match self {
            RefErr::InvalidVersion => "InvalidVersion",
            RefErr::FormatEcc => "FormatEcc",
            RefErr::DataEcc => "DataEcc",
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RefOut {
    Ok(u16, u16, Vec<u8>),
    Err(RefErr),
    /// Outside what the specification guarantees; either outcome is acceptable.
    Either,
}

/// Nearest format codeword within distance 3.
pub fn fix_format(w: u16) -> Option<(u16, u16)> {
    for l in 0..4u16 {
        for m in 0..8u16 {
            if (format_word(l, m) ^ w).count_ones() <= 3 {
                return Some((l, m));
            }
        }
    }
    None
}

pub fn format_words(v: usize, bits: &[u8]) -> (u16, u16) {
    let g = geo(v);
    let (mut a, mut b) = (0u16, 0u16);
    for (p, k) in g.kind.iter().enumerate() {
        match k {
            M::FormatA(i) => a |= (bits[p] as u16) << i,
            M::FormatB(i) => b |= (bits[p] as u16) << i,
            _ => {}
        }
    }
    (a, b)
}

/// Codewords as stored (mask removed).
pub fn codewords(v: usize, mask: u16, bits: &[u8]) -> Vec<u8> {
    let g = geo(v);
    let mut cw = vec![0u8; g.total];
    for (k, &p) in g.order.iter().enumerate() {
        if k / 8 >= g.total {
            break;
        }
        let (y, x) = (p as usize / g.n, p as usize % g.n);
        let b = bits[p as usize] ^ mask_at(mask, y, x) as u8;
        cw[k / 8] |= b << (7 - k % 8);
    }
    cw
}

pub fn ref_correct(v: usize, bits: &[u8]) -> RefOut {
    let (a, b) = format_words(v, bits);
    let (l, m) = match fix_format(a).or_else(|| fix_format(b)) {
        Some(x) => x,
        None => return RefOut::Err(RefErr::FormatEcc),
    };
    let cw = codewords(v, m, bits);
    let bl = blocks(v, l);
    let mut bw: Vec<Vec<u8>> = bl.data.iter().map(|d| vec![0; d + bl.parity]).collect();
    for (i, &(b, j)) in bl.place.iter().enumerate() {
        bw[b as usize][j as usize] = cw[i];
    }
    let mut out = Vec::new();
    let mut either = false;
    for (b, w) in bw.iter().enumerate() {
        match rs_decode(w, bl.parity) {
            RsOut::Within(c) => out.extend_from_slice(&c[..bl.data[b]]),
            RsOut::Beyond => either = true,
            RsOut::Uncorrectable => return RefOut::Err(RefErr::DataEcc),
        }
    }
    if either {
        RefOut::Either
    } else {
        RefOut::Ok(l, m, out)
    }
}

/// Both orientations, as the library documents: the mirrored reading only when the first fails.
pub fn ref_decode(n: usize, bits: &[u8]) -> RefOut {
    if n < 21 || n > 177 || (n - 17) % 4 != 0 {
        return RefOut::Err(RefErr::InvalidVersion);
    }
    let v = (n - 17) / 4;
    match ref_correct(v, bits) {
        RefOut::Err(e) => match ref_correct(v, &transpose(n, bits)) {
            RefOut::Err(_) => RefOut::Err(e),
            x => x,
        },
        x => x,
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    Ok,
    Underflow,
    Unknown,
    /// The stream uses values the specification does not define; output not determined.
    Undefined,
}

/// Interpret corrected data codewords: bytes of all complete segments, how it ended, and what the
/// incomplete last segment would have contributed as far as its bits go.
pub fn ref_payload(v: usize, data: &[u8]) -> (Vec<u8>, End, Vec<u8>) {
    let total = data.len() * 8;
    let mut pos = 0usize;
    let get = |pos: &mut usize, n: usize| -> Option<usize> {
        if total - *pos < n {
            return None;
        }
        let mut r = 0;
        for i in 0..n {
            let p = *pos + i;
            r = r << 1 | (data[p / 8] >> (7 - p % 8) & 1) as usize;
        }
        *pos += n;
        Some(r)
    };
    let mut out = Vec::new();
    loop {
        if total - pos < 4 {
            return (out, End::Ok, vec![]);
        }
        let mode = get(&mut pos, 4).unwrap();
        let seg = match mode {
            0 => return (out, End::Ok, vec![]),
            1 => Seg::Numeric(vec![]),
            2 => Seg::Alnum(vec![]),
            4 => Seg::Byte(vec![]),
            8 => Seg::Kanji(vec![]),
            7 => Seg::Eci(0),
            _ => return (out, End::Unknown, vec![]),
        };
        if mode == 7 {
            let Some(a) = get(&mut pos, 8) else {
                return (out, End::Underflow, vec![]);
            };
            let more = if a & 0x80 == 0 {
                0
            } else if a & 0xc0 == 0x80 {
                8
            } else if a & 0xe0 == 0xc0 {
                16
            } else {
                return (out, End::Undefined, vec![]);
            };
            if get(&mut pos, more).is_none() {
                return (out, End::Underflow, vec![]);
            }
            continue;
        }
        let cb = count_bits(&seg, v);
        let Some(cnt) = get(&mut pos, cb) else {
            return (out, End::Underflow, vec![]);
        };
        let mut part = Vec::new();
        let mut left = cnt;
        let mut undefined = false;
        let mut short = false;
        while left > 0 {
            let (take, nb) = match mode {
                1 => [(1, 4), (2, 7), (3, 10)][left.min(3) - 1],
                2 => [(1, 6), (2, 11)][left.min(2) - 1],
                4 => (1, 8),
                _ => (1, 13),
            };
            let Some(x) = get(&mut pos, nb) else {
                short = true;
                break;
            };
            match mode {
                1 => {
                    let lim = [10, 100, 1000][take - 1];
                    if x >= lim {
                        undefined = true;
                    }
                    let s = format!("{:0w$}", x % lim, w = take);
                    part.extend_from_slice(s.as_bytes());
                }
                2 => {
                    let lim = [45, 2025][take - 1];
                    if x >= lim {
                        undefined = true;
                    }
                    if take == 2 {
                        part.push(ALNUM[x / 45 % 45]);
                    }
                    part.push(ALNUM[x % 45]);
                }
                4 => part.push(x as u8),
                _ => part.extend(seg_text(&Seg::Kanji(vec![x as u16]))),
            }
            left -= take;
        }
        if short {
            return (
                out,
                if undefined { End::Undefined } else { End::Underflow },
                part,
            );
        }
        if undefined {
            return (out, End::Undefined, part);
        }
        out.extend(part);
    }
}

// ---------------------------------------------------------------- random content

pub fn rand_seg(r: &mut Rng, v: usize, room: usize) -> Option<Seg> {
    let kind = r.below(9);
    let header = |s: &Seg| 4 + count_bits(s, v);
    let len = |r: &mut Rng, max: usize| -> usize {
        if max == 0 {
            0
        } else {
            match r.below(4) {
                0 => 1 + r.below(max.min(8) as u64) as usize,
                1 => max,
                _ => 1 + r.below(max as u64) as usize,
            }
        }
    };
    match kind {
        0 | 1 => {
            let h = header(&Seg::Numeric(vec![]));
            let m = (room.checked_sub(h)? * 3 / 10).min((1 << (h - 4)) - 1);
            let k = len(r, m);
            let s = Seg::Numeric((0..k).map(|_| b'0' + r.below(10) as u8).collect());
            fits(s, v, room)
        }
        2 | 3 => {
            let h = header(&Seg::Alnum(vec![]));
            let m = (room.checked_sub(h)? * 2 / 11).min((1 << (h - 4)) - 1);
            let k = len(r, m);
            let s = Seg::Alnum((0..k).map(|_| ALNUM[r.below(45) as usize]).collect());
            fits(s, v, room)
        }
        4..=6 => {
            let h = header(&Seg::Byte(vec![]));
            let m = (room.checked_sub(h)? / 8).min((1 << (h - 4)) - 1);
            let k = len(r, m);
            let style = r.below(4);
            let mut d: Vec<u8> = Vec::new();
            match style {
                0 => {
                    for _ in 0..k {
                        d.push(r.below(256) as u8)
                    }
                }
                1 => {
                    let cs = ['a', 'é', '日', '😀', 'ß', 'Ж', '\n', '0'];
                    loop {
                        let c = cs[r.below(8) as usize];
                        if d.len() + c.len_utf8() > k {
                            break;
                        }
                        let mut b = [0; 4];
                        d.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
                    }
                }
                _ => {
                    for _ in 0..k {
                        d.push(32 + r.below(95) as u8)
                    }
                }
            }
            fits(Seg::Byte(d), v, room)
        }
        7 => {
            let h = header(&Seg::Kanji(vec![]));
            let m = (room.checked_sub(h)? / 13).min((1 << (h - 4)) - 1);
            let k = len(r, m);
            let s = Seg::Kanji(
                (0..k)
                    .map(|_| {
                        // a valid double-byte code: lead byte 81-9F or E0-EB, trail 40-FC
                        let (lo, hi) = if r.below(3) == 0 {
                            (0xe0u16, 0xea)
                        } else {
                            (0x81, 0x9f)
                        };
                        let lead = lo + r.below((hi - lo + 1) as u64) as u16;
                        let trail = match r.below(6) {
                            0 => 0x40,
                            1 => 0xfc,
                            _ => 0x40 + r.below(0xbd) as u16,
                        };
                        sjis_to_code(lead << 8 | trail)
                    })
                    .collect(),
            );
            fits(s, v, room)
        }
        _ => {
            let e = match r.below(3) {
                0 => r.below(128),
                1 => 128 + r.below(16384 - 128),
                _ => 16384 + r.below(1_000_000 - 16384),
            };
            fits(Seg::Eci(e as u32), v, room)
        }
    }
}

pub fn seg_bits(s: &Seg, v: usize) -> usize {
    let mut b = Bits::default();
    seg_put(s, v, &mut b);
    b.0.len()
}

fn fits(s: Seg, v: usize, room: usize) -> Option<Seg> {
    if seg_bits(&s, v) <= room {
        Some(s)
    } else {
        None
    }
}

pub fn rand_segs(r: &mut Rng, v: usize, level: u16, max: usize) -> Vec<Seg> {
    let mut room = data_codewords(v, level) * 8;
    let mut out = Vec::new();
    for _ in 0..1 + r.below(max as u64) {
        if let Some(s) = rand_seg(r, v, room) {
            room -= seg_bits(&s, v);
            out.push(s);
        }
    }
    out
}

pub fn encode_segs(v: usize, level: u16, mask: u16, segs: &[Seg]) -> Symbol {
    let cap = data_codewords(v, level);
    let mut b = Bits::default();
    for s in segs {
        seg_put(s, v, &mut b);
    }
    build(v, level, mask, &finish(b, cap))
}
