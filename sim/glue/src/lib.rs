//! The seams.  Everything of the caller's world that rqrr can see is implemented here and owned by
//! the simulator: the module medium (BitGrid), the output stream (Write), the pixel source
//! (closures) and the image buffer (GenericImage).  This crate is instrumented together with rqrr
//! so that rqrr's generic code, which is instantiated here, advances the simulated clock too.

use rqrr::{BitGrid, DeQRError, Grid, PreparedImage, SimpleGrid};
use simrt::{count, mix};
use std::io;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};

/// Payload of panics injected by the simulator (a cancelled call).
pub struct Cancelled;

pub const NEVER: u64 = u64::MAX;

// ---------------------------------------------------------------- module medium

pub type Hook = Arc<dyn Fn() + Send + Sync>;

pub struct SimGrid {
    pub n: usize,
    pub bits: Vec<u8>,
    /// Modules whose value is re-drawn on every read.
    pub flaky: Option<(Vec<u8>, u64)>,
    pub cancel_at: AtomicU64,
    /// Re-entrant call made from within the k-th read.
    pub nested_at: AtomicU64,
    pub nested: Option<Hook>,
    pub reads: AtomicU64,
}

impl SimGrid {
    pub fn new(n: usize, bits: Vec<u8>) -> Self {
        SimGrid {
            n,
            bits,
            flaky: None,
            cancel_at: AtomicU64::new(NEVER),
            nested_at: AtomicU64::new(NEVER),
            nested: None,
            reads: AtomicU64::new(0),
        }
    }
}

impl BitGrid for SimGrid {
    fn size(&self) -> usize {
        self.n
    }
    fn bit(&self, y: usize, x: usize) -> bool {
        let k = self.reads.load(Relaxed);
        self.reads.store(k + 1, Relaxed);
        if k == self.cancel_at.load(Relaxed) {
            count("fault:cancel in module read", 1);
            std::panic::panic_any(Cancelled);
        }
        if k == self.nested_at.load(Relaxed) {
            if let Some(h) = &self.nested {
                count("fault:re-entrant call from module read", 1);
                h();
            }
        }
        assert!(
            y < self.n && x < self.n,
            "module ({y},{x}) outside a {0}x{0} symbol was read",
            self.n
        );
        let i = y * self.n + x;
        let mut v = self.bits[i];
        if let Some((mask, seed)) = &self.flaky {
            if mask[i] != 0 {
                v ^= (mix(mix(*seed, i as u64), k) & 1) as u8;
            }
        }
        v != 0
    }
}

// ---------------------------------------------------------------- output stream

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum WAct {
    /// Accept at most this many bytes.
    Accept(usize),
    Interrupted,
    Error(u8),
    Zero,
    Cancel,
    Nested,
}

#[derive(Default)]
pub struct SimWriter {
    pub script: Vec<WAct>,
    pub pos: usize,
    /// Device capacity; writes beyond it fail.
    pub capacity: Option<usize>,
    pub accepted: Vec<u8>,
    pub calls: u64,
    pub fatal: bool,
    pub calls_after_fatal: u64,
    pub fired: u64,
    pub short: u64,
    pub interrupted: u64,
    pub nested: Option<Hook>,
    /// Running check: the reference payload the accepted bytes must be a prefix of.
    pub expect_prefix_of: Option<Vec<u8>>,
    pub prefix_broken_at: Option<usize>,
}

fn err(k: u8) -> io::Error {
    use io::ErrorKind::*;
    let kind = [
        PermissionDenied,
        BrokenPipe,
        WouldBlock,
        Other,
        TimedOut,
        UnexpectedEof,
        StorageFull,
        ConnectionReset,
    ][(k % 8) as usize];
    io::Error::new(kind, "injected")
}

impl SimWriter {
    fn take(&mut self, buf: &[u8], k: usize) -> io::Result<usize> {
        let k = k.min(buf.len());
        let mut k2 = k;
        if let Some(c) = self.capacity {
            let room = c.saturating_sub(self.accepted.len());
            if room == 0 && !buf.is_empty() {
                self.fatal = true;
                count("fault:device full", 1);
                return Err(io::Error::new(io::ErrorKind::StorageFull, "injected"));
            }
            k2 = k.min(room);
        }
        if k2 < buf.len() {
            self.short += 1;
            count("fault:short write", 1);
        }
        for &b in &buf[..k2] {
            self.accepted.push(b);
            if let Some(e) = &self.expect_prefix_of {
                let i = self.accepted.len() - 1;
                if e.get(i) != Some(&b) && self.prefix_broken_at.is_none() {
                    self.prefix_broken_at = Some(i);
                }
            }
        }
        Ok(k2)
    }
}

impl io::Write for SimWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.fatal {
            self.calls_after_fatal += 1;
        }
        if buf.is_empty() {
            return Ok(0);
        }
        let act = self.script.get(self.pos).cloned();
        self.pos += 1;
        match act {
            None => self.take(buf, buf.len()),
            Some(WAct::Accept(k)) => self.take(buf, k.max(1)),
            Some(WAct::Interrupted) => {
                self.interrupted += 1;
                count("fault:interrupted write", 1);
                Err(io::Error::new(io::ErrorKind::Interrupted, "injected"))
            }
            Some(WAct::Error(k)) => {
                self.fatal = true;
                count("fault:write error", 1);
                Err(err(k))
            }
            Some(WAct::Zero) => {
                self.fatal = true;
                count("fault:zero-progress write", 1);
                Ok(0)
            }
            Some(WAct::Cancel) => {
                count("fault:cancel in write", 1);
                std::panic::panic_any(Cancelled)
            }
            Some(WAct::Nested) => {
                if let Some(h) = self.nested.clone() {
                    count("fault:re-entrant call from write", 1);
                    h();
                }
                self.take(buf, buf.len())
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

// ---------------------------------------------------------------- image buffer

/// Shared by an image and all its clones (rqrr clones the buffer internally).
#[derive(Default)]
pub struct ImgCtl {
    pub gets: AtomicU64,
    pub puts: AtomicU64,
    pub cancel_at: AtomicU64,
    /// Re-entrant call made from within the k-th access.
    pub nested_at: AtomicU64,
    pub nested: Mutex<Option<Hook>>,
    /// From now on writes must not change which pixels are white.
    pub sealed: AtomicU64,
    pub broken: Mutex<Option<String>>,
    pub live: AtomicU64,
    pub max_live: AtomicU64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Layout {
    Rows,
    Padded(usize),
    Columns,
    BottomUp,
    Tiled,
}

/// The image buffer seam.  Its pixels are left out of the memory account; `ctl` counts the copies.
pub struct SimImage {
    pub w: usize,
    pub h: usize,
    pub layout: Layout,
    pub data: Vec<u8>,
    pub ctl: Arc<ImgCtl>,
}

impl Clone for SimImage {
    fn clone(&self) -> Self {
        let l = self.ctl.live.load(Relaxed) + 1;
        self.ctl.live.store(l, Relaxed);
        if l > self.ctl.max_live.load(Relaxed) {
            self.ctl.max_live.store(l, Relaxed);
        }
        SimImage {
            w: self.w,
            h: self.h,
            layout: self.layout,
            data: simrt::alloc_uncounted(|| self.data.clone()),
            ctl: self.ctl.clone(),
        }
    }
}
impl Drop for SimImage {
    fn drop(&mut self) {
        self.ctl.live.store(self.ctl.live.load(Relaxed).wrapping_sub(1), Relaxed);
        let d = std::mem::take(&mut self.data);
        simrt::alloc_uncounted(move || drop(d));
    }
}

impl SimImage {
    pub fn new(w: usize, h: usize, px: &[u8], layout: Layout) -> Self {
        let ctl = Arc::new(ImgCtl::default());
        ctl.cancel_at.store(NEVER, Relaxed);
        ctl.nested_at.store(NEVER, Relaxed);
        ctl.live.store(1, Relaxed);
        let mut im = SimImage {
            w,
            h,
            layout,
            data: Vec::new(),
            ctl,
        };
        im.data = simrt::alloc_uncounted(|| vec![0xAA; im.cells()]);
        for y in 0..h {
            for x in 0..w {
                let i = im.idx(x, y);
                im.data[i] = px[y * w + x];
            }
        }
        im
    }
    fn cells(&self) -> usize {
        match self.layout {
            Layout::Rows | Layout::Columns | Layout::BottomUp => self.w * self.h,
            Layout::Padded(p) => (self.w + p) * self.h,
            Layout::Tiled => self.w.div_ceil(8) * self.h.div_ceil(8) * 64,
        }
    }
    #[inline]
    pub fn idx(&self, x: usize, y: usize) -> usize {
        match self.layout {
            Layout::Rows => y * self.w + x,
            Layout::Padded(p) => y * (self.w + p) + x,
            Layout::Columns => x * self.h + y,
            Layout::BottomUp => (self.h - 1 - y) * self.w + x,
            Layout::Tiled => {
                ((y >> 3) * self.w.div_ceil(8) + (x >> 3)) * 64 + ((y & 7) << 3) + (x & 7)
            }
        }
    }
    #[inline]
    fn access(&self, x: u32, y: u32) {
        let k = self.ctl.gets.load(Relaxed);
        self.ctl.gets.store(k + 1, Relaxed);
        if k == self.ctl.cancel_at.load(Relaxed) {
            count("fault:cancel in image access", 1);
            std::panic::panic_any(Cancelled);
        }
        if k == self.ctl.nested_at.load(Relaxed) {
            let h = self.ctl.nested.lock().unwrap().clone();
            if let Some(h) = h {
                count("fault:re-entrant call from image access", 1);
                h();
            }
        }
        if x as usize >= self.w || y as usize >= self.h {
            panic!(
                "pixel ({x},{y}) outside a {}x{} image was accessed",
                self.w, self.h
            );
        }
    }
}

impl image::GenericImageView for SimImage {
    type Pixel = image::Luma<u8>;
    fn dimensions(&self) -> (u32, u32) {
        (self.w as u32, self.h as u32)
    }
    fn bounds(&self) -> (u32, u32, u32, u32) {
        (0, 0, self.w as u32, self.h as u32)
    }
    fn get_pixel(&self, x: u32, y: u32) -> image::Luma<u8> {
        self.access(x, y);
        image::Luma([self.data[self.idx(x as usize, y as usize)]])
    }
}

impl image::GenericImage for SimImage {
    fn get_pixel_mut(&mut self, x: u32, y: u32) -> &mut image::Luma<u8> {
        self.access(x, y);
        let i = self.idx(x as usize, y as usize);
        image::Pixel::from_slice_mut(&mut self.data[i..i + 1])
    }
    fn put_pixel(&mut self, x: u32, y: u32, p: image::Luma<u8>) {
        self.access(x, y);
        self.ctl.puts.store(self.ctl.puts.load(Relaxed) + 1, Relaxed);
        let i = self.idx(x as usize, y as usize);
        if self.ctl.sealed.load(Relaxed) != 0 && (self.data[i] == 0) != (p.0[0] == 0) {
            let mut b = self.ctl.broken.lock().unwrap();
            if b.is_none() {
                *b = Some(format!(
                    "pixel ({x},{y}) changed from shade {} to shade {} after preparation",
                    self.data[i], p.0[0]
                ));
            }
        }
        self.data[i] = p.0[0];
    }
    fn blend_pixel(&mut self, x: u32, y: u32, p: image::Luma<u8>) {
        image::GenericImage::put_pixel(self, x, y, p)
    }
}

/// An image whose blank rows are not stored.
#[derive(Clone)]
pub struct SparseImage(pub simrt::Sparse);

impl image::GenericImageView for SparseImage {
    type Pixel = image::Luma<u8>;
    fn dimensions(&self) -> (u32, u32) {
        (self.0.w as u32, self.0.h as u32)
    }
    fn bounds(&self) -> (u32, u32, u32, u32) {
        (0, 0, self.0.w as u32, self.0.h as u32)
    }
    fn get_pixel(&self, x: u32, y: u32) -> image::Luma<u8> {
        image::Luma([self.0.get(x as usize, y as usize)])
    }
}

impl image::GenericImage for SparseImage {
    fn get_pixel_mut(&mut self, _: u32, _: u32) -> &mut image::Luma<u8> {
        unreachable!("not used by rqrr")
    }
    fn put_pixel(&mut self, x: u32, y: u32, p: image::Luma<u8>) {
        self.0.put(x as usize, y as usize, p.0[0])
    }
    fn blend_pixel(&mut self, x: u32, y: u32, p: image::Luma<u8>) {
        image::GenericImage::put_pixel(self, x, y, p)
    }
}

/// Scan an already black-and-white image of any size; what each grid found decodes to.
#[inline(never)]
pub fn scan_sparse(im: simrt::Sparse) -> Vec<(usize, Dec)> {
    let mut p = PreparedImage::without_preparation(SparseImage(im));
    p.detect_grids().iter().map(|g| (rqrr::BitGrid::size(&g.grid), dec_grid(g))).collect()
}

// ---------------------------------------------------------------- calls into rqrr

#[derive(Clone, PartialEq, Eq, Debug, Hash, Default)]
pub struct Meta {
    pub version: usize,
    pub ecc: u16,
    pub mask: u16,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Dec {
    Ok(Meta, Vec<u8>),
    Err(String, Vec<u8>),
}

impl Dec {
    pub fn short(&self) -> String {
        fn b(v: &[u8]) -> String {
            let s: String = v
                .iter()
                .take(40)
                .flat_map(|c| std::ascii::escape_default(*c))
                .map(|c| c as char)
                .collect();
            format!("{} byte(s) \"{}{}\"", v.len(), s, if v.len() > 40 { "..." } else { "" })
        }
        match self {
            Dec::Ok(m, v) => format!("Ok(v{} ecc{} mask{}, {})", m.version, m.ecc, m.mask, b(v)),
            Dec::Err(e, v) => format!("Err({e}, after {})", b(v)),
        }
    }
}

fn kind(e: DeQRError) -> String {
    format!("{e:?}")
}

fn meta(m: rqrr::MetaData) -> Meta {
    Meta {
        version: m.version.0,
        ecc: m.ecc_level,
        mask: m.mask,
    }
}

fn dec_grid<G: BitGrid>(g: &Grid<G>) -> Dec {
    let mut out = Vec::new();
    match g.decode_to(&mut out) {
        Ok(m) => Dec::Ok(meta(m), out),
        Err(e) => Dec::Err(kind(e), out),
    }
}

fn dec_grid_string<G: BitGrid>(g: &Grid<G>) -> Dec {
    match g.decode() {
        Ok((m, s)) => Dec::Ok(meta(m), s.into_bytes()),
        Err(e) => Dec::Err(kind(e), Vec::new()),
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Raw {
    /// metadata, number of bits, the bytes covering them, and whether the rest of the buffer is zero
    Ok(Meta, usize, Vec<u8>, bool),
    Err(String),
}

fn raw_grid<G: BitGrid>(g: &Grid<G>) -> Raw {
    match g.get_raw_data() {
        Ok((m, r)) => {
            let nb = r.len.div_ceil(8).min(r.data.len());
            let clean = r.data[nb..].iter().all(|b| *b == 0);
            Raw::Ok(meta(m), r.len, r.data[..nb].to_vec(), clean)
        }
        Err(e) => Raw::Err(kind(e)),
    }
}

/// A decodable symbol behind one of the ways a caller can provide it.
pub enum Sym {
    Sim(Grid<SimGrid>),
    Simple(Grid<SimpleGrid>),
}

impl Sym {
    pub fn sim(g: SimGrid) -> Sym {
        Sym::Sim(Grid::new(g))
    }
    #[inline(never)]
    pub fn simple(n: usize, bits: &[u8]) -> Sym {
        Sym::Simple(Grid::new(SimpleGrid::from_func(n, |x, y| bits[y * n + x] != 0)))
    }
    /// The debug picture of the grid.
    #[inline(never)]
    pub fn dump(&self, path: &str) {
        match self {
            Sym::Sim(g) => g.grid.write_grid_to(path),
            Sym::Simple(g) => g.grid.write_grid_to(path),
        }
    }
    pub fn grid(&self) -> Option<&SimGrid> {
        match self {
            Sym::Sim(g) => Some(&g.grid),
            _ => None,
        }
    }
    pub fn grid_mut(&mut self) -> Option<&mut SimGrid> {
        match self {
            Sym::Sim(g) => Some(&mut g.grid),
            _ => None,
        }
    }
    #[inline(never)]
    pub fn decode(&self) -> Dec {
        match self {
            Sym::Sim(g) => dec_grid(g),
            Sym::Simple(g) => dec_grid(g),
        }
    }
    #[inline(never)]
    pub fn decode_string(&self) -> Dec {
        match self {
            Sym::Sim(g) => dec_grid_string(g),
            Sym::Simple(g) => dec_grid_string(g),
        }
    }
    #[inline(never)]
    pub fn decode_to(&self, w: &mut SimWriter) -> Result<Meta, String> {
        match self {
            Sym::Sim(g) => g.decode_to(w),
            Sym::Simple(g) => g.decode_to(w),
        }
        .map(meta)
        .map_err(kind)
    }
    #[inline(never)]
    pub fn raw(&self) -> Raw {
        match self {
            Sym::Sim(g) => raw_grid(g),
            Sym::Simple(g) => raw_grid(g),
        }
    }
}

/// SimpleGrid built from a counting callback: (coordinates asked in order, modules read back).
#[inline(never)]
pub fn simple_grid_from(n: usize, bits: &[u8]) -> (Vec<(usize, usize)>, Vec<u8>) {
    let asked = std::cell::RefCell::new(Vec::new());
    let g = SimpleGrid::from_func(n, |x, y| {
        asked.borrow_mut().push((x, y));
        bits[y * n + x] != 0
    });
    let mut back = Vec::new();
    for y in 0..n {
        for x in 0..n {
            back.push(g.bit(y, x) as u8);
        }
    }
    assert_eq!(g.size(), n);
    (asked.into_inner(), back)
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct GridOut {
    pub size: usize,
    pub bounds: [(i32, i32); 4],
    pub bits: Vec<u8>,
    pub dec: Dec,
    pub raw: Raw,
}

pub fn read_modules<G: BitGrid>(g: &Grid<G>) -> Vec<u8> {
    let n = g.grid.size();
    let mut v = Vec::with_capacity(n * n);
    for y in 0..n {
        for x in 0..n {
            v.push(g.grid.bit(y, x) as u8);
        }
    }
    v
}

fn grid_out<G: BitGrid>(g: &Grid<G>) -> GridOut {
    let b = &g.bounds;
    GridOut {
        size: g.grid.size(),
        bounds: [
            (b[0].x, b[0].y),
            (b[1].x, b[1].y),
            (b[2].x, b[2].y),
            (b[3].x, b[3].y),
        ],
        bits: read_modules(g),
        dec: dec_grid(g),
        raw: raw_grid(g),
    }
}

macro_rules! prepared {
    ($name:ident, $t:ty) => {
        impl $name {
            /// One detection pass over the image, everything observable about every grid.
            #[inline(never)]
            pub fn scan(&mut self) -> Vec<GridOut> {
                self.0.detect_grids().iter().map(grid_out).collect()
            }
            /// Detection only: (size, bounds).
            #[inline(never)]
            pub fn detect(&mut self) -> Vec<(usize, [(i32, i32); 4])> {
                self.0
                    .detect_grids()
                    .iter()
                    .map(|g| {
                        let b = &g.bounds;
                        (
                            g.grid.size(),
                            [
                                (b[0].x, b[0].y),
                                (b[1].x, b[1].y),
                                (b[2].x, b[2].y),
                                (b[3].x, b[3].y),
                            ],
                        )
                    })
                    .collect()
            }
            /// Detect, then run `f` with every grid as a decodable handle.
            #[inline(never)]
            pub fn with_grids<T>(&mut self, f: &mut dyn FnMut(&[&dyn Handle]) -> T) -> T {
                let gs = self.0.detect_grids();
                let hs: Vec<&dyn Handle> = gs.iter().map(|g| g as &dyn Handle).collect();
                f(&hs)
            }
            pub fn dims(&self) -> (usize, usize) {
                (self.0.width(), self.0.height())
            }
            /// Every pixel's colour code as seen through the public pixel accessor.
            #[inline(never)]
            pub fn shades(&self) -> Vec<u8> {
                let mut v = Vec::new();
                for y in 0..self.0.height() {
                    for x in 0..self.0.width() {
                        v.push(self.0.get_pixel_at(x, y).into());
                    }
                }
                v
            }
            /// White/dark partition as seen through the public pixel accessor.
            #[inline(never)]
            pub fn dark(&self) -> Vec<u8> {
                let mut v = Vec::new();
                for y in 0..self.0.height() {
                    for x in 0..self.0.width() {
                        v.push((self.0.get_pixel_at(x, y) != 0u8) as u8);
                    }
                }
                v
            }
        }
        impl Clone for $name {
            #[inline(never)]
            fn clone(&self) -> Self {
                $name(self.0.clone())
            }
        }
    };
}

/// A detected grid, independent of the type of image behind it.
pub trait Handle {
    fn out(&self) -> GridOut;
    fn dec(&self) -> Dec;
    fn dec_string(&self) -> Dec;
    fn dec_to(&self, w: &mut SimWriter) -> Result<Meta, String>;
    fn raw(&self) -> Raw;
    fn size(&self) -> usize;
    fn modules(&self) -> Vec<u8>;
    fn dump(&self, path: &str);
}
impl<G: BitGrid> Handle for Grid<G> {
    fn out(&self) -> GridOut {
        grid_out(self)
    }
    fn dec(&self) -> Dec {
        dec_grid(self)
    }
    fn dec_string(&self) -> Dec {
        dec_grid_string(self)
    }
    fn dec_to(&self, w: &mut SimWriter) -> Result<Meta, String> {
        self.decode_to(w).map(meta).map_err(kind)
    }
    fn raw(&self) -> Raw {
        raw_grid(self)
    }
    fn size(&self) -> usize {
        self.grid.size()
    }
    fn modules(&self) -> Vec<u8> {
        read_modules(self)
    }
    fn dump(&self, path: &str) {
        self.grid.write_grid_to(path)
    }
}

pub struct PSim(pub PreparedImage<SimImage>);
pub struct PGray(pub PreparedImage<image::GrayImage>);
prepared!(PSim, SimImage);
prepared!(PGray, image::GrayImage);

impl PSim {
    #[inline(never)]
    pub fn prepare(im: SimImage) -> PSim {
        let ctl = im.ctl.clone();
        let p = PSim(PreparedImage::prepare(im));
        ctl.sealed.store(1, Relaxed);
        p
    }
    #[inline(never)]
    pub fn unprepared(im: SimImage) -> PSim {
        let ctl = im.ctl.clone();
        let p = PSim(PreparedImage::without_preparation(im));
        ctl.sealed.store(1, Relaxed);
        p
    }
}
impl PGray {
    #[inline(never)]
    pub fn prepare(w: usize, h: usize, px: &[u8]) -> PGray {
        PGray(PreparedImage::prepare(
            image::GrayImage::from_raw(w as u32, h as u32, px.to_vec()).unwrap(),
        ))
    }
}

/// Images built from callbacks.  The buffer type behind them cannot be named outside rqrr, so the
/// operations are exposed through a boxed trait.
pub trait Prepared {
    fn scan(&mut self) -> Vec<GridOut>;
    fn dark(&self) -> Vec<u8>;
    fn shades(&self) -> Vec<u8>;
    fn dup(&self) -> Box<dyn Prepared>;
    fn dims(&self) -> (usize, usize);
    fn with(&mut self, f: &mut dyn FnMut(&[&dyn Handle]));
    fn dump(&self, path: &str);
}

macro_rules! boxed {
    ($e:expr) => {{
        let p = $e;
        box_it(
            p,
            |p| p.detect_grids().iter().map(grid_out).collect(),
            |p| {
                let mut v = Vec::new();
                for y in 0..p.height() {
                    for x in 0..p.width() {
                        v.push((p.get_pixel_at(x, y) != 0u8) as u8);
                    }
                }
                v
            },
            |p| {
                let mut v: Vec<u8> = Vec::new();
                for y in 0..p.height() {
                    for x in 0..p.width() {
                        v.push(p.get_pixel_at(x, y).into());
                    }
                }
                v
            },
            |p| p.clone(),
            |p| (p.width(), p.height()),
            |p, f| {
                let gs = p.detect_grids();
                let hs: Vec<&dyn Handle> = gs.iter().map(|g| g as &dyn Handle).collect();
                f(&hs)
            },
            |p, path| p.write_state_to(path),
        )
    }};
}

struct Boxed<P> {
    p: P,
    scan: fn(&mut P) -> Vec<GridOut>,
    dark: fn(&P) -> Vec<u8>,
    shades: fn(&P) -> Vec<u8>,
    dup: fn(&P) -> P,
    dims: fn(&P) -> (usize, usize),
    with: fn(&mut P, &mut dyn FnMut(&[&dyn Handle])),
    dump: fn(&P, &str),
}

fn box_it<P: 'static>(
    p: P,
    scan: fn(&mut P) -> Vec<GridOut>,
    dark: fn(&P) -> Vec<u8>,
    shades: fn(&P) -> Vec<u8>,
    dup: fn(&P) -> P,
    dims: fn(&P) -> (usize, usize),
    with: fn(&mut P, &mut dyn FnMut(&[&dyn Handle])),
    dump: fn(&P, &str),
) -> Box<dyn Prepared> {
    Box::new(Boxed {
        p,
        scan,
        dark,
        shades,
        dup,
        dims,
        with,
        dump,
    })
}

impl<P: 'static> Prepared for Boxed<P> {
    fn scan(&mut self) -> Vec<GridOut> {
        (self.scan)(&mut self.p)
    }
    fn dark(&self) -> Vec<u8> {
        (self.dark)(&self.p)
    }
    fn shades(&self) -> Vec<u8> {
        (self.shades)(&self.p)
    }
    fn dup(&self) -> Box<dyn Prepared> {
        box_it(
            (self.dup)(&self.p),
            self.scan,
            self.dark,
            self.shades,
            self.dup,
            self.dims,
            self.with,
            self.dump,
        )
    }
    fn dims(&self) -> (usize, usize) {
        (self.dims)(&self.p)
    }
    fn with(&mut self, f: &mut dyn FnMut(&[&dyn Handle])) {
        (self.with)(&mut self.p, f)
    }
    fn dump(&self, path: &str) {
        (self.dump)(&self.p, path)
    }
}

/// `src` is asked for pixels through `FnMut(x, y)`; it may record, run dry or unwind.
#[inline(never)]
pub fn from_greyscale(
    w: usize,
    h: usize,
    src: &mut dyn FnMut(usize, usize) -> u8,
) -> Box<dyn Prepared> {
    boxed!(PreparedImage::prepare_from_greyscale(w, h, |x, y| src(x, y)))
}

#[inline(never)]
pub fn from_bitmap(
    w: usize,
    h: usize,
    src: &mut dyn FnMut(usize, usize) -> bool,
) -> Box<dyn Prepared> {
    boxed!(PreparedImage::prepare_from_bitmap(w, h, |x, y| src(x, y)))
}

#[inline(never)]
pub fn from_gray_image(w: usize, h: usize, px: &[u8]) -> Box<dyn Prepared> {
    boxed!(PreparedImage::prepare(
        image::GrayImage::from_raw(w as u32, h as u32, px.to_vec()).unwrap()
    ))
}

#[inline(never)]
pub fn from_sim_image_unprepared(im: SimImage) -> Box<dyn Prepared> {
    let ctl = im.ctl.clone();
    let b = boxed!(PreparedImage::without_preparation(im));
    ctl.sealed.store(1, Relaxed);
    b
}

#[inline(never)]
pub fn from_sim_image(im: SimImage) -> Box<dyn Prepared> {
    let ctl = im.ctl.clone();
    let b = boxed!(PreparedImage::prepare(im));
    ctl.sealed.store(1, Relaxed);
    b
}

// ---------------------------------------------------------------- thread-safety probe

/// Tells whether a type is Send / Sync without failing to compile when it is not.
pub struct Probe<T>(std::marker::PhantomData<T>);
pub trait NotSend {
    fn is_send(&self) -> bool {
        false
    }
}
impl<T> NotSend for &Probe<T> {}
impl<T: Send> Probe<T> {
    pub fn is_send(&self) -> bool {
        true
    }
}
pub struct ProbeS<T>(std::marker::PhantomData<T>);
pub trait NotSync {
    fn is_sync(&self) -> bool {
        false
    }
}
impl<T> NotSync for &ProbeS<T> {}
impl<T: Sync> ProbeS<T> {
    pub fn is_sync(&self) -> bool {
        true
    }
}

macro_rules! probe {
    ($v:ident, $t:ty, $n:expr) => {
        $v.push((
            $n,
            (&Probe::<$t>(std::marker::PhantomData)).is_send(),
            (&ProbeS::<$t>(std::marker::PhantomData)).is_sync(),
        ));
    };
}

pub fn thread_safety() -> Vec<(&'static str, bool, bool)> {
    // The element type of detect_grids' result cannot be named, so its probes take a value.
    #[allow(dead_code)]
    struct V<'a, T>(&'a [T]);
    #[allow(dead_code)]
    trait NoSend {
        fn send(&self) -> bool {
            false
        }
    }
    impl<T> NoSend for &V<'_, T> {}
    impl<T: Send> V<'_, T> {
        fn send(&self) -> bool {
            true
        }
    }
    #[allow(dead_code)]
    trait NoSync {
        fn sync(&self) -> bool {
            false
        }
    }
    impl<T> NoSync for &V<'_, T> {}
    impl<T: Sync> V<'_, T> {
        fn sync(&self) -> bool {
            true
        }
    }
    let mut v = Vec::new();
    probe!(v, PreparedImage<image::GrayImage>, "prepared image");
    probe!(v, SimpleGrid, "module grid");
    probe!(v, Grid<SimpleGrid>, "grid");
    probe!(v, DeQRError, "error");
    probe!(v, rqrr::MetaData, "metadata");
    probe!(v, rqrr::RawData, "raw data");
    let mut im = PreparedImage::prepare(image::GrayImage::new(1, 1));
    let gs = im.detect_grids();
    v.push(("detected grid", (&V(&gs)).send(), (&V(&gs)).sync()));
    v
}

/// Asserts to the compiler that a value may cross threads.  The scheduler runs one thread at a
/// time and hands over under a lock, so this adds no data race; whether the type really is
/// Send/Sync is checked separately by `thread_safety`.
pub struct Shared<T>(pub T);
unsafe impl<T> Send for Shared<T> {}
unsafe impl<T> Sync for Shared<T> {}
impl<T> Shared<T> {
    pub fn get(&self) -> &T {
        &self.0
    }
}
