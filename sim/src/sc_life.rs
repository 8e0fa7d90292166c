//! Scenarios over the life of objects and over several callers: C05, C06, C10-C12, C14, C16.

use crate::driver::{cancellable, guard, may_panic, own_dir, vio, Res, Vio};
use crate::img::*;
use crate::qr::*;
use crate::sc_decode::*;
use crate::sc_image::*;
use glue::*;
use simrt::{chance, count, digest, draw, event, hash_bytes, mix, range, stratum, subseed, Rng};
use std::sync::atomic::Ordering::Relaxed;
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------- objects with known answers

/// What the standard says the raw reading of a matrix is.
pub fn ref_raw(n: usize, bits: &[u8]) -> Raw {
    let v = (n - 17) / 4;
    let (a, b) = format_words(v, bits);
    let Some((level, mask)) = fix_format(a).or_else(|| fix_format(b)) else {
        return Raw::Err("FormatEcc".into());
    };
    let g = geo(v);
    let mut o = Bits::default();
    for &p in &g.order {
        o.0.push(bits[p as usize]);
    }
    let m = Meta {
        version: v,
        ecc: level,
        mask,
    };
    Raw::Ok(m, g.order.len(), o.bytes(), true)
}

pub struct KSym {
    pub n: usize,
    pub bits: Vec<u8>,
    pub sym: Sym,
    pub dec: Dec,
    pub text: Dec,
    pub raw: Raw,
}

fn as_text(d: &Dec) -> Dec {
    match d {
        Dec::Ok(_, v) if std::str::from_utf8(v).is_ok() => d.clone(),
        Dec::Ok(..) => Dec::Err("EncodingError".into(), vec![]),
        Dec::Err(e, _) => Dec::Err(e.clone(), vec![]),
    }
}

/// A symbol, whole or damaged in some way, of which every answer is known from the reference.
pub fn known_sym(max_v: u64) -> Result<KSym, Vio> {
    loop {
        let (s, _, _) = small_symbol(max_v);
        let mut d = no_damage(&s);
        let kind = draw(6);
        match kind {
            0 => {}
            1 | 2 => {
                damage_data(&s, &mut d, false);
                damage_format(&s, &mut d, false);
            }
            3 => {
                let mut r = Rng::new(subseed());
                let p = [20, 100, 400][draw(3) as usize];
                for b in &mut d.bits {
                    if r.below(1000) < p {
                        *b ^= 1;
                    }
                }
                count("fault:noise over the whole symbol", 1);
            }
            4 => {
                damage_data(&s, &mut d, false);
                d.bits = transpose(s.n, &d.bits);
                count("fault:symbol mirrored", 1);
            }
            _ => {
                let mut r = Rng::new(subseed());
                let (a, b) = (unreadable_format(&mut r), unreadable_format(&mut r));
                put_format(&mut d.bits, s.v, a, b);
                count("fault:both format copies destroyed", 1);
            }
        }
        let sim = draw(2) == 0;
        let Want::Exactly(dec) = ref_outcome(s.n, &d.bits) else { continue };
        event(|| format!("object: version {} {} expecting {}", s.v, if sim { "(own medium)" } else { "(stored grid)" }, dec.short()));
        return Ok(KSym {
            n: s.n,
            sym: if sim {
                Sym::sim(SimGrid::new(s.n, d.bits.clone()))
            } else {
                Sym::simple(s.n, &d.bits)
            },
            text: as_text(&dec),
            raw: ref_raw(s.n, &d.bits),
            dec,
            bits: d.bits,
        });
    }
}

impl KSym {
    fn payload(&self) -> &[u8] {
        match &self.dec {
            Dec::Ok(_, v) | Dec::Err(_, v) => v,
        }
    }
    /// One read-only operation against its known answer.
    fn check(&self, op: u64, when: &str) -> Result<(), Vio> {
        let (what, got, want) = match op % 3 {
            0 => ("decode_to", format!("{:?}", guard("decode_to", || self.sym.decode())?), format!("{:?}", self.dec)),
            1 => ("decode", format!("{:?}", guard("decode", || self.sym.decode_string())?), format!("{:?}", self.text)),
            _ => ("get_raw_data", format!("{:?}", guard("get_raw_data", || self.sym.raw())?), format!("{:?}", self.raw)),
        };
        same(&got, &want, &format!("{what} {when}"))
    }
}

fn clip(s: &str) -> String {
    if s.len() > 160 {
        format!("{}...", s.chars().take(160).collect::<String>())
    } else {
        s.into()
    }
}

fn same(got: &str, want: &str, ctx: &str) -> Result<(), Vio> {
    if got != want {
        return vio("wrong result", format!("{ctx}: expected {}, got {}", clip(want), clip(got)));
    }
    Ok(())
}

fn same_scan(got: &[GridOut], want: &[GridOut], ctx: &str) -> Result<(), Vio> {
    if got != want {
        let d = |g: &[GridOut]| {
            g.iter()
                .map(|o| format!("size {} at {:?} {}", o.size, o.bounds, o.dec.short()))
                .collect::<Vec<_>>()
                .join("; ")
        };
        return vio(
            "scan differs",
            format!("{ctx}: expected {} grid(s) [{}], got {} [{}]", want.len(), d(want), got.len(), d(got)),
        );
    }
    Ok(())
}

fn same_px(got: &[u8], want: &[u8], w: usize, class: &str, ctx: &str) -> Result<(), Vio> {
    if let Some(i) = (0..want.len().max(got.len())).find(|&i| got.get(i) != want.get(i)) {
        return vio(
            class,
            format!("{ctx}: pixel ({},{}) is {:?}, expected {:?}", i % w.max(1), i / w.max(1), got.get(i), want.get(i)),
        );
    }
    Ok(())
}

/// A frame with codes, clutter or trouble in it, small enough to be scanned several times.
pub fn busy_frame() -> Canvas {
    match draw(8) {
        0 => plain_frame(4).0,
        1 => noise_frame(140),
        2 => {
            let mut c = plain_frame(5).0;
            c.capture_fault(None);
            c
        }
        3 => finders_frame(160, true),
        4 => triple_frame(false),
        5 => pattern_frame(140),
        6 => bars_frame(),
        _ => match scene(3, 3) {
            Some((c, _)) => c,
            None => plain_frame(3).0,
        },
    }
}

/// A frame with more separate regions that are looked at than are remembered at a time.
pub fn bars_frame() -> Canvas {
    let w = 150 + draw(200) as usize;
    let h = 150 + draw(150) as usize;
    let mut c = Canvas::new(w, h, 255);
    let with_code = draw(2) == 1;
    let mut y = 1i64;
    if with_code {
        let (s, _, _) = small_symbol(2);
        let p = c.put_symbol(&s, 20, 20, 3, draw(4), false, 0, 255);
        y = 20 + p.n as i64 * 3 + 13;
    }
    let u = 1 + draw(2) as i64;
    let mut r = Rng::new(subseed());
    let tall = 1 + draw(3) as i64;
    let mut n = 0;
    while y + tall < h as i64 {
        let mut x = r.below(4) as i64;
        while x + 7 * u < w as i64 {
            for (o, k) in [(0, 1), (2, 3), (6, 1)] {
                c.rect(x + o * u, y, k * u, tall, 0);
                n += 1;
            }
            x += 7 * u + 1 + r.below(3) as i64;
        }
        y += tall + 1 + r.below(2) as i64;
    }
    count("probe:frame with hundreds of regions", (n > 300) as u64);
    event(|| format!("{n} bars in {w}x{h}, code {with_code}"));
    c
}

/// A small symbol with a payload and damage of its own.
fn new_symbol(r: &mut Rng) -> (usize, Vec<u8>, Sym) {
    let v = 1 + r.below(4) as usize;
    let text: Vec<u8> = (0..7).map(|_| b' ' + r.below(90) as u8).collect();
    let s = encode_segs(v, r.below(4) as u16, r.below(8) as u16, &[Seg::Byte(text)]);
    let mut d = no_damage(&s);
    let t = blocks(s.v, s.level).parity / 2;
    for _ in 0..r.below(t as u64 + 2) {
        let i = r.below(geo(v).order.len() as u64 / 8) as usize;
        hit_codeword(&s, &mut d, i, 1 + r.below(255) as u8, false);
    }
    let sym = Sym::simple(s.n, &d.bits);
    (s.n, d.bits, sym)
}

/// The smallest code there is, at three pixels per module.
fn smallest_code_frame() -> Canvas {
    let (s, _, _) = small_symbol(1);
    let m = 12 + draw(6) as i64;
    let side = s.n * 3 + 2 * m as usize;
    let mut c = Canvas::new(side, side, 255);
    c.put_symbol(&s, m, m, 3, draw(4), false, 0, 255);
    c
}

fn prepared(c: &Canvas, how: u64) -> Box<dyn Prepared> {
    let (w, h) = (c.w, c.h);
    match how {
        0 => from_greyscale(w, h, &mut |x, y| c.px[y * w + x]),
        1 => from_gray_image(w, h, &c.px),
        2 => from_bitmap(w, h, &mut |x, y| c.px[y * w + x] < 128),
        3 => from_sim_image(SimImage::new(w, h, &c.px, Layout::Tiled)),
        _ => from_sim_image(SimImage::new(w, h, &c.px, Layout::BottomUp)),
    }
}

// ---------------------------------------------------------------- C05

type Sink = Arc<Mutex<Vec<(String, String, String)>>>;

fn put(s: &Sink, what: &str, got: String, want: &str) {
    s.lock().unwrap_or_else(|e| e.into_inner()).push((what.to_string(), got, want.to_string()));
}

#[derive(Clone, Debug)]
struct Op {
    kind: u64,
    a: usize,
    b: usize,
    at: u64,
    how: u64,
}

struct World {
    syms: Vec<KSym>,
    frames: Vec<Canvas>,
    prep: Vec<Box<dyn Prepared>>,
    scans: Vec<[String; 5]>,
}

fn do_op(w: &'static World, op: &Op, out: &Sink) {
    let s = &w.syms[op.a];
    let t = &w.syms[op.b];
    let hook = |out: &Sink| -> Hook {
        let out = out.clone();
        let k = op.how;
        Arc::new(move || match k % 3 {
            0 => put(&out, "re-entrant decode_to", format!("{:?}", t.sym.decode()), &format!("{:?}", t.dec)),
            1 => put(&out, "re-entrant get_raw_data", format!("{:?}", t.sym.raw()), &format!("{:?}", t.raw)),
            _ => put(&out, "re-entrant decode", format!("{:?}", t.sym.decode_string()), &format!("{:?}", t.text)),
        })
    };
    match op.kind {
        0 => put(out, "decode_to, shared grid", format!("{:?}", s.sym.decode()), &format!("{:?}", s.dec)),
        1 => put(out, "decode, shared grid", format!("{:?}", s.sym.decode_string()), &format!("{:?}", s.text)),
        2 => put(out, "get_raw_data, shared grid", format!("{:?}", s.sym.raw()), &format!("{:?}", s.raw)),
        3 => {
            // own grid, stumbling writer
            let g = Sym::simple(s.n, &s.bits);
            let mut wr = SimWriter {
                script: (0..40).map(|i| if i % 3 == 0 { WAct::Interrupted } else { WAct::Accept(1 + i % 4) }).collect(),
                ..Default::default()
            };
            let r = g.decode_to(&mut wr);
            let got = match r {
                Ok(m) => Dec::Ok(m, wr.accepted),
                Err(e) => Dec::Err(e, wr.accepted),
            };
            put(out, "decode_to a stumbling writer", format!("{got:?}"), &format!("{:?}", s.dec));
        }
        4 | 5 => {
            let f = op.a % w.frames.len();
            let mut p = prepared(&w.frames[f], op.how % 5);
            put(out, "prepare and scan", format!("{:?}", p.scan()), &w.scans[f][op.how as usize % 5]);
        }
        6 => {
            // call back into the library from the module medium
            let mut g = SimGrid::new(s.n, s.bits.clone());
            g.nested_at.store(op.at, Relaxed);
            g.nested = Some(hook(out));
            let g = Sym::sim(g);
            put(out, "decode_to around a re-entrant call", format!("{:?}", g.decode()), &format!("{:?}", s.dec));
        }
        7 => {
            // ... from the writer
            let k = op.at as usize % (s.payload().len() + 1);
            let mut wr = SimWriter::default();
            wr.script = vec![WAct::Accept(usize::MAX); k.min(60)];
            wr.script.push(WAct::Nested);
            wr.nested = Some(hook(out));
            let g = Sym::simple(s.n, &s.bits);
            let got = match g.decode_to(&mut wr) {
                Ok(m) => Dec::Ok(m, wr.accepted),
                Err(e) => Dec::Err(e, wr.accepted),
            };
            put(out, "decode_to around a re-entrant call", format!("{got:?}"), &format!("{:?}", s.dec));
        }
        8 => {
            // ... from the image buffer or the pixel source
            let f = op.a % w.frames.len();
            let c = &w.frames[f];
            if op.how % 2 == 0 {
                let im = SimImage::new(c.w, c.h, &c.px, Layout::Tiled);
                im.ctl.nested_at.store(op.at * 37, Relaxed);
                *im.ctl.nested.lock().unwrap() = Some(hook(out));
                let mut p = from_sim_image(im);
                put(out, "scan around a re-entrant call", format!("{:?}", p.scan()), &w.scans[f][3]);
            } else {
                let h = hook(out);
                let mut k = 0;
                let mut p = from_greyscale(c.w, c.h, &mut |x, y| {
                    if k == op.at {
                        count("fault:re-entrant call from pixel source", 1);
                        h();
                    }
                    k += 1;
                    c.px[y * c.w + x]
                });
                put(out, "scan around a re-entrant call", format!("{:?}", p.scan()), &w.scans[f][0]);
            }
        }
        _ => {
            // clone a shared prepared image and scan the clone
            let f = op.a % w.frames.len();
            let mut p = w.prep[f].dup();
            put(out, "scan of a clone of a shared image", format!("{:?}", p.scan()), &w.scans[f][0]);
        }
    }
}

/// One session of concurrent callers over a shared world: one plan per caller.
fn session(w: &'static World, plans: &[Vec<Op>], gap: u64, max_preempt: u64) -> Result<simrt::SchedStats, Vio> {
    let sinks: Vec<Sink> = plans.iter().map(|_| Sink::default()).collect();
    let failed: Arc<Mutex<Option<Vio>>> = Default::default();
    let mut ts: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    let shared = Shared(w);
    for (plan, sink) in plans.iter().zip(&sinks) {
        let job = Shared((plan.clone(), sink.clone(), failed.clone(), shared.0));
        ts.push(Box::new(move || {
            let job = job;
            let (plan, sink, failed, w) = job.get();
            for op in plan {
                if let Err(e) = guard("concurrent call", || do_op(w, op, sink)) {
                    *failed.lock().unwrap_or_else(|e| e.into_inner()) = Some(e);
                    return;
                }
            }
        }));
    }
    let st = simrt::run_tasks(ts, gap, max_preempt);
    digest(st.interleaving);
    count("fault:preemption", st.switches);
    if st.foreign_blocks > 0 {
        count("probe:caller blocked inside the library", st.foreign_blocks);
    }
    if let Some(e) = failed.lock().unwrap().take() {
        return Err(e);
    }
    for (i, s) in sinks.iter().enumerate() {
        for (what, got, want) in s.lock().unwrap().iter() {
            digest(hash_bytes(got.as_bytes()));
            same(got, want, &format!("task {i}: {what}"))?;
        }
    }
    Ok(st)
}

/// Many short sessions over a small pool: state kept between calls meets every pair of callers.
fn sprint(images: bool) -> Res {
    let mut w = World {
        syms: Vec::new(),
        frames: Vec::new(),
        prep: Vec::new(),
        scans: Vec::new(),
    };
    let max_v = if images { 2 } else { 4 + draw(8) };
    for _ in 0..4 {
        w.syms.push(known_sym(max_v)?);
    }
    // Preemptions are aimed at what the calls of the pool execute by themselves.
    simrt::new_epoch();
    for s in &w.syms {
        for op in 0..3 {
            s.check(op, "alone, before")?;
        }
    }
    for _ in 0..if images { 2 } else { 1 } {
        let c = smallest_code_frame();
        let mut sc: [String; 5] = Default::default();
        if images {
            for (k, s) in sc.iter_mut().enumerate() {
                *s = guard("scan", || format!("{:?}", prepared(&c, k as u64).scan()))?;
            }
        }
        w.prep.push(prepared(&c, 0));
        w.frames.push(c);
        w.scans.push(sc);
    }
    let w: &'static World = Box::leak(Box::new(w));
    let mut res = Ok(());
    let n = 16 + draw(if images { 20 } else { 60 });
    for _ in 0..n {
        let mut plans: Vec<Vec<Op>> = Vec::new();
        // Mostly everybody turns from whatever they like to the same object.
        let hot = draw(8) as usize;
        for _ in 0..2 + draw(4) / 3 {
            let mut v = Vec::new();
            let k = 1 + draw(4) / 2;
            for i in 0..k {
                v.push(Op {
                    kind: if images { [0, 4, 9, 8][draw(4) as usize] } else { [0, 1, 2, 3, 6, 7][draw(6) as usize] },
                    a: if hot < 4 && i + 1 == k { hot } else { draw(4) as usize },
                    b: draw(4) as usize,
                    at: draw(100),
                    how: draw(6),
                });
            }
            plans.push(v);
        }
        event(|| format!("session {plans:?}"));
        let gap = [2000u64, 20, 300, 20_000][draw(4) as usize];
        if let Err(e) = session(w, &plans, gap, 60) {
            res = Err(e);
            break;
        }
    }
    count("probe:short sessions of concurrent callers", n);
    drop(unsafe { Box::from_raw(w as *const World as *mut World) });
    res.map(|_| true)
}

pub fn c05(run: u64) -> Res {
    for (what, send, sync) in thread_safety() {
        if !send || !sync {
            return vio("not thread safe", format!("{what}: Send {send}, Sync {sync}"));
        }
    }
    match stratum(8, run) {
        1 | 2 | 5 | 6 => return sprint(false),
        3 => return sprint(true),
        _ => {}
    }
    let tasks = 2 + draw(3) as usize;
    let images = draw(2) == 1;
    let mut w = World {
        syms: Vec::new(),
        frames: Vec::new(),
        prep: Vec::new(),
        scans: Vec::new(),
    };
    for _ in 0..2 + draw(2) {
        w.syms.push(known_sym(if chance(50) { 40 } else { 6 })?);
    }
    for i in 0..if images { 2 } else { 1 } {
        let c = if images && i == 0 && draw(2) == 1 { scene(2, 2).map(|x| x.0).unwrap_or_else(|| plain_frame(2).0) } else { plain_frame(2).0 };
        let mut sc: [String; 5] = Default::default();
        for (k, s) in sc.iter_mut().enumerate() {
            *s = guard("scan", || format!("{:?}", prepared(&c, k as u64).scan()))?;
        }
        w.prep.push(prepared(&c, 0));
        w.frames.push(c);
        w.scans.push(sc);
    }
    for s in &w.syms {
        for op in 0..3 {
            s.check(op, "alone, before")?;
        }
    }
    let mut plans: Vec<Vec<Op>> = Vec::new();
    for _ in 0..tasks {
        let mut v = Vec::new();
        for _ in 0..1 + draw(4) {
            let op = Op {
                kind: if images { draw(10) } else { [0, 1, 2, 3, 6, 7][draw(6) as usize] },
                a: draw(w.syms.len() as u64) as usize,
                b: draw(w.syms.len() as u64) as usize,
                at: draw(if chance(500) { 30 } else { 600 }),
                how: draw(6),
            };
            v.push(op);
        }
        plans.push(v);
    }
    event(|| format!("plans {plans:?}"));
    let gap = [20u64, 300, 3000, 40_000][draw(4) as usize];
    let w: &'static World = Box::leak(Box::new(w));
    let st = session(w, &plans, gap, 400);
    // the shared world is ours again
    let w = unsafe { Box::from_raw(w as *const World as *mut World) };
    let st = st?;
    for s in &w.syms {
        s.check(draw(3), "alone, after")?;
    }
    // several callers at the grids of one scan
    if images {
        let f = 0;
        let mut p = w.prep[f].dup();
        let mut res: Res = Ok(true);
        p.with(&mut |hs| {
            if hs.is_empty() {
                return;
            }
            let sinks: Vec<Sink> = (0..tasks).map(|_| Sink::default()).collect();
            let alone: Vec<String> = hs.iter().map(|h| format!("{:?}", h.out())).collect();
            let mut ts: Vec<Box<dyn FnOnce() + Send + '_>> = Vec::new();
            for sink in &sinks {
                let pick = draw(hs.len() as u64) as usize;
                let job = Shared((hs[pick], sink.clone(), alone[pick].clone()));
                ts.push(Box::new(move || {
                    let job = job;
                    let (h, sink, want) = job.get();
                    let got = guard("decoding a shared detected grid", || format!("{:?}", h.out()));
                    put(sink, "shared detected grid", got.unwrap_or_else(|e| e.detail), want);
                }));
            }
            let st = simrt::run_tasks(ts, gap, 200);
            digest(st.interleaving);
            count("fault:preemption", st.switches);
            count("probe:detected grid shared between callers", 1);
            for s in &sinks {
                for (what, got, want) in s.lock().unwrap().iter() {
                    if let Err(e) = same(got, want, what) {
                        res = Err(e);
                    }
                }
            }
        });
        res?;
    }
    Ok(st.switches > tasks as u64)
}

// ---------------------------------------------------------------- C06

pub fn c06(run: u64) -> Res {
    let with_image = stratum(3, run) != 0;
    let mut syms = Vec::new();
    for _ in 0..2 {
        syms.push(known_sym(6)?);
    }
    let c = if with_image { if draw(2) == 0 { plain_frame(3).0 } else { busy_frame() } } else { plain_frame(1).0 };
    let how = draw(5);
    // objects that merely stand by
    let bystander = guard("prepare", || prepared(&c, how))?;
    let shades0 = bystander.shades();
    let want_scan = guard("scan", || bystander.dup().scan())?;
    let mut any = false;
    let rounds = 1 + draw(4);
    for _ in 0..rounds {
        let s = &syms[draw(2) as usize];
        match if with_image { draw(8) } else { draw(3) } {
            0 => {
                // the module medium unwinds during a read
                let total = {
                    let k = Sym::sim(SimGrid::new(s.n, s.bits.clone()));
                    let _ = guard("decode_to", || k.decode())?;
                    k.grid().unwrap().reads.load(Relaxed)
                };
                let k = Sym::sim(SimGrid::new(s.n, s.bits.clone()));
                let g = k.grid().unwrap();
                g.cancel_at.store(draw(total.max(1)), Relaxed);
                let op = draw(3);
                let r = cancellable("cancelled read", || match op {
                    0 => drop(k.decode()),
                    1 => drop(k.decode_string()),
                    _ => drop(k.raw()),
                })?;
                g.cancel_at.store(NEVER, Relaxed);
                any |= r.is_none();
                event(|| format!("read of the module medium abandoned: {}", r.is_none()));
                same(&format!("{:?}", guard("decode_to", || k.decode())?), &format!("{:?}", s.dec), "the grid that was being read")?;
                same(&format!("{:?}", guard("get_raw_data", || k.raw())?), &format!("{:?}", s.raw), "raw data of the grid that was being read")?;
            }
            1 => {
                // the writer unwinds
                let len = s.payload().len() as u64;
                let at = draw(len + 1);
                let mut w = SimWriter {
                    script: vec![WAct::Accept(1 + draw(3) as usize); at as usize],
                    ..Default::default()
                };
                w.script.push(WAct::Cancel);
                let r = cancellable("cancelled write", || drop(s.sym.decode_to(&mut w)))?;
                any |= r.is_none();
                event(|| format!("writer abandoned the call at its write {at}: {}", r.is_none()));
                if !s.payload().starts_with(&w.accepted) {
                    return vio("output is not a prefix of the payload", "abandoned decode");
                }
                same(&format!("{:?}", guard("decode_to", || s.sym.decode())?), &format!("{:?}", s.dec), "decode repeated after an abandoned one")?;
            }
            2 => {
                let (mut w, _) = faulty_writer(s.payload().len());
                let r = guard("decode_to", || s.sym.decode_to(&mut w))?;
                any |= w.fatal;
                event(|| format!("writer failed: {} -> {r:?}", w.fatal));
                same(&format!("{:?}", guard("decode_to", || s.sym.decode())?), &format!("{:?}", s.dec), "decode repeated after a failed one")?;
            }
            3 | 4 => {
                // a scan is abandoned in the middle; a clone made before it lives on
                let im = SimImage::new(c.w, c.h, &c.px, Layout::Tiled);
                let ctl = im.ctl.clone();
                let mut p = guard("prepare", || from_sim_image(im))?;
                let twice = draw(2) == 1;
                if twice {
                    let _ = guard("scan", || p.scan())?;
                }
                let mut before = p.dup();
                let sh = before.shades();
                let want = guard("scan", || before.dup().scan())?;
                let g0 = ctl.gets.load(Relaxed);
                let _ = guard("scan", || p.dup().scan())?;
                let total = ctl.gets.load(Relaxed) - g0;
                ctl.cancel_at.store(ctl.gets.load(Relaxed) + draw(total.max(1)), Relaxed);
                let r = cancellable("cancelled scan", || drop(p.scan()))?;
                ctl.cancel_at.store(NEVER, Relaxed);
                any |= r.is_none();
                event(|| format!("scan abandoned: {}", r.is_none()));
                same_px(&before.shades(), &sh, c.w, "clone disturbed", "clone made before an abandoned scan")?;
                if draw(2) == 1 {
                    drop(p);
                }
                same_scan(&guard("scan", || before.scan())?, &want, "clone made before an abandoned scan")?;
            }
            5 => {
                // preparation is abandoned
                let im = SimImage::new(c.w, c.h, &c.px, Layout::Columns);
                let ctl = im.ctl.clone();
                ctl.cancel_at.store(draw((c.px.len() as u64 * 4).max(1)), Relaxed);
                let r = cancellable("cancelled preparation", || drop(from_sim_image(im)))?;
                any |= r.is_none();
                event(|| format!("preparation abandoned: {}", r.is_none()));
                if ctl.live.load(Relaxed) != 0 && r.is_none() {
                    return vio("buffer kept", "an image buffer outlives the abandoned preparation");
                }
                let again = guard("prepare", || from_sim_image(SimImage::new(c.w, c.h, &c.px, Layout::Columns)).scan())?;
                let fresh = guard("prepare", || from_gray_image(c.w, c.h, &c.px).scan())?;
                same_scan(&again, &fresh, "preparation repeated after an abandoned one")?;
            }
            6 => {
                // the pixel source unwinds
                let at = draw(c.px.len() as u64 + 1);
                let mut k = 0;
                let bitmap = draw(2) == 1;
                let r = cancellable("cancelled source", || {
                    let mut src = |x: usize, y: usize| {
                        if k == at {
                            count("fault:cancel in pixel source", 1);
                            std::panic::panic_any(Cancelled);
                        }
                        k += 1;
                        c.px[y * c.w + x]
                    };
                    if bitmap {
                        drop(from_bitmap(c.w, c.h, &mut |x, y| src(x, y) < 128))
                    } else {
                        drop(from_greyscale(c.w, c.h, &mut src))
                    }
                })?;
                any |= r.is_none();
                event(|| format!("pixel source abandoned the call at pixel {at}: {}", r.is_none()));
            }
            _ => {
                // reading a detected grid is abandoned in the image buffer or in the writer
                let im = SimImage::new(c.w, c.h, &c.px, Layout::BottomUp);
                let ctl = im.ctl.clone();
                let mut p = guard("prepare", || from_sim_image(im))?;
                let mut res: Res = Ok(false);
                guard("scan", || {
                    p.with(&mut |hs| {
                        for h in hs {
                            let want = h.out();
                            let g0 = ctl.gets.load(Relaxed);
                            let _ = h.dec();
                            let total = ctl.gets.load(Relaxed) - g0;
                            let hit = if draw(2) == 0 {
                                ctl.cancel_at.store(ctl.gets.load(Relaxed) + draw(total.max(1)), Relaxed);
                                let r = cancellable("cancelled decode", || drop(h.dec()));
                                ctl.cancel_at.store(NEVER, Relaxed);
                                r
                            } else {
                                let mut w = SimWriter {
                                    script: vec![WAct::Accept(1), WAct::Cancel],
                                    ..Default::default()
                                };
                                cancellable("cancelled decode", || drop(h.dec_to(&mut w)))
                            };
                            match hit {
                                Err(e) => res = Err(e),
                                Ok(r) => {
                                    if r.is_none() {
                                        if let Ok(b) = &mut res {
                                            *b = true;
                                        }
                                    }
                                }
                            }
                            if h.out() != want {
                                res = vio("wrong result", "detected grid after an abandoned decode");
                            }
                        }
                    })
                })?;
                any |= res?;
            }
        }
    }
    // everything that stood by
    for (i, s) in syms.iter().enumerate() {
        for op in 0..3 {
            s.check(op, &format!("of object {i} after abandoned calls"))?;
        }
    }
    same_px(&bystander.shades(), &shades0, c.w, "bystander disturbed", "prepared image that stood by")?;
    same_scan(&guard("scan", || bystander.dup().scan())?, &want_scan, "clone of an image that stood by")?;
    let mut b = bystander;
    same_scan(&guard("scan", || b.scan())?, &want_scan, "image that stood by")?;
    digest(mix(any as u64, want_scan.len() as u64));
    digest(c.hash());
    Ok(any)
}

// ---------------------------------------------------------------- C10

fn raster(asked: &[(usize, usize)], w: usize, h: usize, what: &str) -> Result<(), Vio> {
    let mut it = asked.iter();
    for y in 0..h {
        for x in 0..w {
            match it.next() {
                Some(&p) if p == (x, y) => {}
                Some(&p) => {
                    return vio("source not read once in row order", format!("{what} {w}x{h}: asked for {p:?} where ({x},{y}) was due"))
                }
                None => return vio("source not read completely", format!("{what} {w}x{h}: ({x},{y}) never asked for")),
            }
        }
    }
    if let Some(p) = it.next() {
        return vio("source read more than once", format!("{what} {w}x{h}: {p:?} asked for at the end"));
    }
    Ok(())
}

pub fn c10(run: u64) -> Res {
    let kind = stratum(5, run);
    if kind == 0 {
        // module source
        let (n, bits) = if draw(3) == 0 {
            let n = draw(60) as usize;
            let mut r = Rng::new(subseed());
            (n, (0..n * n).map(|_| (r.next() >> 20 & 1) as u8).collect::<Vec<u8>>())
        } else {
            let (s, _, _) = small_symbol(10);
            let mut d = no_damage(&s);
            damage_data(&s, &mut d, false);
            (s.n, d.bits)
        };
        let (asked, back) = guard("from_func", || simple_grid_from(n, &bits))?;
        raster(&asked, n, n, "module source")?;
        digest(hash_bytes(&bits));
        same_px(&back, &bits, n, "module differs from its source", "stored grid")?;
        if n >= 21 {
            let a = guard("decode", || Sym::simple(n, &bits).decode())?;
            let b = guard("decode", || Sym::sim(SimGrid::new(n, bits.clone())).decode())?;
            same(&format!("{a:?}"), &format!("{b:?}"), "stored grid against own medium")?;
            let a = guard("raw", || Sym::simple(n, &bits).raw())?;
            let b = guard("raw", || Sym::sim(SimGrid::new(n, bits.clone())).raw())?;
            same(&format!("{a:?}"), &format!("{b:?}"), "raw data, stored grid against own medium")?;
        }
        return Ok(n > 0);
    }
    let c = match kind {
        1 => tiny_frame(),
        2 if draw(50) == 0 => far_frame(),
        _ => busy_frame(),
    };
    let (w, h) = (c.w, c.h);
    digest(c.hash());
    // every access to the caller's buffer is checked by the buffer itself
    let lay = layout();
    let im = SimImage::new(w, h, &c.px, lay);
    let ctl = im.ctl.clone();
    let mut ps = guard("own image type", || from_sim_image(im))?;
    let dark = ps.dark();
    let mut asked = Vec::new();
    let mut pg = guard("from_greyscale", || {
        from_greyscale(w, h, &mut |x, y| {
            asked.push((x, y));
            c.px[y * w + x]
        })
    })?;
    raster(&asked, w, h, "greyscale source")?;
    let mut pi = guard("prepare", || from_gray_image(w, h, &c.px))?;
    let mut asked = Vec::new();
    let mut pb = guard("from_bitmap", || {
        from_bitmap(w, h, &mut |x, y| {
            asked.push((x, y));
            dark[y * w + x] != 0
        })
    })?;
    raster(&asked, w, h, "bitmap source")?;
    let lay2 = layout();
    let mut pu = guard("without_preparation", || from_sim_image_unprepared(SimImage::new(w, h, &dark, lay2)))?;
    event(|| format!("frame {w}x{h}, layouts {lay:?} and {lay2:?}"));
    for (p, what) in [(&pg, "callback"), (&pi, "image-library buffer"), (&pb, "bitmap callback"), (&pu, "unprepared buffer")] {
        if p.dims() != (w, h) {
            return vio("wrong dimensions", format!("{what}: {:?} for {w}x{h}", p.dims()));
        }
        same_px(&p.dark(), &dark, w, "storage matters", &format!("{what} against own image type ({lay:?})"))?;
    }
    let want = guard("scan", || ps.scan())?;
    note_scan(&want);
    let shades = ps.shades();
    let rounds = 1 + draw(2);
    for (p, what) in [
        (&mut pg, "callback"),
        (&mut pi, "image-library buffer"),
        (&mut pb, "bitmap callback"),
        (&mut pu, "unprepared buffer"),
    ] {
        let got = guard("scan", || p.scan())?;
        same_scan(&got, &want, &format!("{what} against own image type ({lay:?})"))?;
        same_px(&p.shades(), &shades, w, "storage matters", &format!("{what} after the scan"))?;
    }
    if rounds == 2 {
        let want = guard("scan", || ps.scan())?;
        for (p, what) in [(&mut pg, "callback"), (&mut pi, "image-library buffer"), (&mut pb, "bitmap callback")] {
            same_scan(&guard("scan", || p.scan())?, &want, &format!("second scan, {what}"))?;
        }
    }
    digest(ctl.gets.load(Relaxed));
    count("probe:buffer accesses checked", ctl.gets.load(Relaxed));
    Ok(w * h > 0)
}

// ---------------------------------------------------------------- C11

pub fn c11(_run: u64) -> Res {
    let c = busy_frame();
    let (w, h) = (c.w, c.h);
    digest(c.hash());
    let unprepared = draw(4) == 0;
    let lay = layout();
    let (im, truth): (SimImage, Option<Vec<u8>>) = if unprepared {
        let b: Vec<u8> = c.px.iter().map(|p| (*p < 128) as u8).collect();
        (SimImage::new(w, h, &b, lay), Some(b))
    } else {
        (SimImage::new(w, h, &c.px, lay), None)
    };
    let ctl = im.ctl.clone();
    let mut p = guard("prepare", || {
        if unprepared {
            from_sim_image_unprepared(im)
        } else {
            from_sim_image(im)
        }
    })?;
    let dark = p.dark();
    if let Some(b) = truth {
        same_px(&dark, &b, w, "black and white swapped", "image used without preparation")?;
    } else {
        let sh = p.shades();
        if let Some(i) = sh.iter().position(|s| *s > 1) {
            return vio("preparation left a grey pixel", format!("pixel ({},{}) has shade {}", i % w, i / w, sh[i]));
        }
    }
    if draw(5) == 0 {
        // the bitmap callback decides the partition itself
        let b = from_bitmap(w, h, &mut |x, y| c.px[y * w + x] < 100);
        let want: Vec<u8> = c.px.iter().map(|v| (*v < 100) as u8).collect();
        same_px(&b.dark(), &want, w, "black and white swapped", "bitmap source")?;
    }
    let broken = |ctx: &str| -> Result<(), Vio> {
        if let Some(b) = ctl.broken.lock().unwrap_or_else(|e| e.into_inner()).clone() {
            return vio("black and white swapped", format!("{ctx}: {b}"));
        }
        Ok(())
    };
    let mut clones: Vec<Box<dyn Prepared>> = Vec::new();
    let ops = 1 + draw(5);
    let mut modules: Option<Vec<Vec<u8>>> = None;
    for i in 0..ops {
        let op = if i == 0 { 0 } else { draw(5) };
        match op {
            0 | 1 => {
                // detect, then read through the grids: reading must not write
                let mut res: Result<(), Vio> = Ok(());
                let mut mods = Vec::new();
                let first = i == 0;
                guard("scan", || {
                    p.with(&mut |hs| {
                        let puts = ctl.puts.load(Relaxed);
                        for h in hs {
                            let a = h.modules();
                            let d = h.dec();
                            let r = h.raw();
                            if h.modules() != a || h.dec() != d || h.raw() != r {
                                res = vio("reads are not repeatable", "detected grid read twice");
                            }
                            mods.push(a);
                        }
                        if ctl.puts.load(Relaxed) != puts {
                            res = vio("reading changed the image", format!("{} writes", ctl.puts.load(Relaxed) - puts));
                        }
                    })
                })?;
                res?;
                if first {
                    modules = Some(mods);
                }
                event(|| "detect and read".to_string());
            }
            2 => {
                clones.push(p.dup());
                event(|| "clone".to_string());
            }
            3 => {
                // a scan abandoned at an arbitrary access: even then no pixel has changed sides
                let at = ctl.gets.load(Relaxed) + draw(if chance(500) { 2000 } else { 200_000 });
                ctl.cancel_at.store(at, Relaxed);
                let r = cancellable("cancelled scan", || drop(p.scan()))?;
                ctl.cancel_at.store(NEVER, Relaxed);
                event(|| format!("scan abandoned: {}", r.is_none()));
                broken("abandoned scan")?;
                same_px(&p.dark(), &dark, w, "black and white swapped", "after an abandoned scan")?;
                if r.is_none() {
                    // the interrupted image itself is not used for detection any more
                    p = match clones.pop() {
                        Some(c) => c,
                        None => break,
                    };
                }
            }
            _ => {
                if let Some(q) = clones.last_mut() {
                    let _ = guard("scan", || q.scan())?;
                }
                event(|| "scan of a clone".to_string());
            }
        }
        broken("during a scan")?;
        same_px(&p.dark(), &dark, w, "black and white swapped", "after an operation")?;
    }
    for q in &clones {
        same_px(&q.dark(), &dark, w, "black and white swapped", "clone")?;
    }
    // modules of the first scan against a fresh image with the same partition
    if let Some(m) = modules {
        let mut f = guard("from_bitmap", || from_bitmap(w, h, &mut |x, y| dark[y * w + x] != 0))?;
        let mut n = Vec::new();
        f.with(&mut |hs| n = hs.iter().map(|h| h.modules()).collect());
        if n != m {
            return vio("modules depend on more than the partition", format!("{} and {} grid(s)", m.len(), n.len()));
        }
        count("probe:grid found", m.len() as u64);
    }
    digest(ctl.puts.load(Relaxed));
    Ok(ctl.puts.load(Relaxed) > 0)
}

// ---------------------------------------------------------------- C12

pub fn c12(run: u64) -> Res {
    let c = match stratum(3, run) {
        0 => bars_frame(),
        _ => busy_frame(),
    };
    let w = c.w;
    digest(c.hash());
    let mut a = prepared(&c, draw(5));
    // life before the clone
    let before = draw(4);
    for _ in 0..before {
        let g = guard("scan", || a.scan())?;
        note_scan(&g);
    }
    let mut b = guard("clone", || a.dup())?;
    if draw(4) == 0 {
        b = guard("clone of a clone", || b.dup())?;
    }
    event(|| format!("cloned after {before} scan(s)"));
    if a.dims() != b.dims() {
        return vio("clone differs", format!("{:?} and {:?}", a.dims(), b.dims()));
    }
    same_px(&b.shades(), &a.shades(), w, "clone differs", "right after cloning")?;
    let steps = 1 + draw(4);
    let mut any = before > 0;
    for i in 0..steps {
        let first_b = draw(2) == 1;
        let keep = draw(3) == 0;
        let (x, y) = if first_b { (&mut b, &mut a) } else { (&mut a, &mut b) };
        let sh = y.shades();
        let gx = guard("scan", || x.scan())?;
        note_scan(&gx);
        same_px(&y.shades(), &sh, w, "scan of one affects the other", "the one that was not scanned")?;
        let mut z = if keep { Some(y.dup()) } else { None };
        let gy = guard("scan", || y.scan())?;
        same_scan(&gy, &gx, &format!("scan {i} of original and clone (clone first: {first_b})"))?;
        same_px(&y.shades(), &x.shades(), w, "clone differs", &format!("pixels after scan {i} of both"))?;
        if let Some(z) = &mut z {
            same_px(&z.shades(), &sh, w, "scan of one affects the other", "later clone")?;
            same_scan(&guard("scan", || z.scan())?, &gx, "later clone")?;
        }
        any |= !gx.is_empty();
    }
    // one goes away, the other lives on
    let want = guard("scan", || a.dup().scan())?;
    drop(a);
    same_scan(&guard("scan", || b.scan())?, &want, "after the original is gone")?;
    Ok(any)
}

// ---------------------------------------------------------------- C14

/// What a scan may hold besides copies of the image: the rows still to be filled are at most
/// proportional to the horizontal runs of dark pixels.
fn scan_allowance(dark: &[u8], w: usize) -> i64 {
    let mut runs = 0i64;
    for row in dark.chunks(w.max(1)) {
        let mut prev = 0;
        for &d in row {
            runs += (d != 0 && prev == 0) as i64;
            prev = d;
        }
    }
    128 * runs + 16 * w as i64 + 64 * 1024
}

/// Few, but very large dark areas.
fn huge_frame() -> Canvas {
    let m = range(8, 60) as i64;
    let k = 1 + draw(2) as i64;
    let mut c = Canvas::new((m * (9 * k + 1)) as usize, (m * 9) as usize, 255);
    for i in 0..k {
        let x = i * 9 * m + m;
        c.rect(x, m, 7 * m, 7 * m, 0);
        c.rect(x + m, 2 * m, 5 * m, 5 * m, 255);
        c.rect(x + 2 * m, 3 * m, 3 * m, 3 * m, 0);
    }
    match draw(4) {
        0 => {}
        1 => {
            // a bar hanging on to the ring
            c.rect(8 * m, m, c.w as i64 - 9 * m, m + draw(5) as i64, 0);
        }
        2 => {
            // a comb
            let mut x = m;
            while x < 8 * m {
                c.rect(x, 8 * m, 1 + m / 8, m - 1, 0);
                x += 2 + m / 4;
            }
        }
        _ => {
            // holes in the core
            let mut r = Rng::new(subseed());
            for _ in 0..draw(60) {
                let (x, y) = (3 * m + r.below(3 * m as u64) as i64, 3 * m + r.below(3 * m as u64) as i64);
                c.rect(x, y, 1, 1, 255);
            }
        }
    }
    count("probe:frame with very large dark areas", 1);
    event(|| format!("huge finder patterns, {m} px per module, {}x{}", c.w, c.h));
    c
}

pub fn c14(run: u64) -> Res {
    let images = stratum(4, run) != 0;
    if !images {
        // many different symbols, whole and broken, with failing writers in between
        let k = 12;
        let mut pool = Vec::new();
        for _ in 0..k {
            pool.push(known_sym(4)?);
        }
        let plan: Vec<u64> = (0..48).map(|_| draw(6)).collect();
        let cut: Vec<usize> = (0..48).map(|_| draw(40) as usize).collect();
        // half of the runs show a symbol never seen before, damaged anew, in every operation
        let fresh = draw(2) == 1;
        let mut r = Rng::new(subseed());
        count("probe:run of ever new symbols under memory watch", fresh as u64);
        let mut pass = |n: usize| -> Result<(), Vio> {
            for i in 0..n {
                let new;
                let (size, bits, sym) = if fresh {
                    new = new_symbol(&mut r);
                    (new.0, &new.1, &new.2)
                } else {
                    let s = &pool[i % k];
                    (s.n, &s.bits, &s.sym)
                };
                match plan[i % 48] {
                    0 => drop(guard("decode", || sym.decode())?),
                    1 => drop(guard("decode", || sym.decode_string())?),
                    2 => drop(guard("raw", || sym.raw())?),
                    3 => {
                        let mut w = SimWriter {
                            capacity: Some(cut[i % 48]),
                            ..Default::default()
                        };
                        let _ = guard("decode_to", || sym.decode_to(&mut w))?;
                    }
                    4 => {
                        let mut w = SimWriter {
                            script: vec![WAct::Accept(1); cut[i % 48]],
                            ..Default::default()
                        };
                        w.script.push(WAct::Cancel);
                        let _ = cancellable("decode_to", || drop(sym.decode_to(&mut w)))?;
                    }
                    _ => {
                        let g = Sym::sim(SimGrid::new(size, bits.clone()));
                        g.grid().unwrap().cancel_at.store(cut[i % 48] as u64 * 11, Relaxed);
                        let _ = cancellable("decode", || drop(g.decode()))?;
                    }
                }
            }
            Ok(())
        };
        let warm = 144;
        let n = 384;
        pass(warm)?;
        let l0 = simrt::alloc_live();
        pass(n)?;
        let l1 = simrt::alloc_live();
        event(|| format!("{n} operations on {k} symbols: {} bytes more held afterwards", l1 - l0));
        if l1 - l0 > 512 {
            return vio("memory grows", format!("{} bytes after {n} operations, all results dropped", l1 - l0));
        }
        // peak of a single call: a constant, whatever the symbol
        let (big, _, _) = make(range(1, 40) as usize, draw(4) as u16, 0);
        let g = Sym::sim(SimGrid::new(big.n, big.bits.clone()));
        simrt::alloc_reset_peak();
        let l = simrt::alloc_live();
        let _ = guard("decode", || g.decode())?;
        let p = simrt::alloc_peak() - l;
        if p > 256 * 1024 {
            return vio("too much memory", format!("decoding a version {} symbol took {p} bytes", big.v));
        }
        digest(hash_bytes(&big.bits));
        count("probe:operations under memory watch", n as u64);
        return Ok(true);
    }
    let kinds = 3;
    let frames: Vec<Canvas> = (0..kinds).map(|_| if chance(100) { huge_frame() } else { busy_frame() }).collect();
    let plan: Vec<(usize, u64, u64)> = (0..12).map(|_| (draw(kinds) as usize, draw(4), draw(100_000))).collect();
    let mut worst = (0i64, 0usize);
    let fresh = draw(2) == 1;
    let mut r = Rng::new(subseed());
    let mut pass = |n: usize| -> Result<(), Vio> {
        for i in 0..n {
            let (f, what, at) = plan[i % plan.len()];
            let new;
            let c = if fresh && f != 0 {
                let (n, bits, _) = new_symbol(&mut r);
                let q = n as i64 * 3 + 30;
                let mut c = Canvas::new(q as usize + r.below(60) as usize, q as usize + r.below(60) as usize, 255);
                let m = placement(n as f64, c.w as f64 / 2.0, c.h as f64 / 2.0, 3.0, r.below(400) as f64 / 1000.0, 1.0, 0.0);
                c.put_bits(&bits, n, n, &m, 0, Some(255), 1);
                new = c;
                &new
            } else {
                &frames[f]
            };
            match what {
                0 | 1 => {
                    simrt::alloc_reset_peak();
                    let l = simrt::alloc_live();
                    let mut p = guard("prepare", || if what == 0 { from_gray_image(c.w, c.h, &c.px) } else { from_greyscale(c.w, c.h, &mut |x, y| c.px[y * c.w + x]) })?;
                    guard("scan", || p.with(&mut |_| ()))?;
                    let pk = simrt::alloc_peak() - l;
                    if pk > worst.0 {
                        worst = (pk, c.px.len());
                    }
                    if pk > 4 * c.px.len() as i64 + scan_allowance(&p.dark(), c.w) {
                        return vio("too much memory", format!("{pk} bytes for a frame of {} pixels", c.px.len()));
                    }
                    p.with(&mut |hs| {
                        for h in hs {
                            let _ = h.dec();
                        }
                    });
                }
                2 => {
                    let im = SimImage::new(c.w, c.h, &c.px, Layout::Rows);
                    let ctl = im.ctl.clone();
                    ctl.cancel_at.store(at, Relaxed);
                    let _ = cancellable("scan", || {
                        let mut p = from_sim_image(im);
                        drop(p.scan());
                    })?;
                    let live = ctl.live.load(Relaxed);
                    if live != 0 {
                        return vio("buffer kept", format!("{live} image buffer(s) outlive an abandoned scan"));
                    }
                }
                _ => {
                    let im = SimImage::new(c.w, c.h, &c.px, Layout::Rows);
                    let ctl = im.ctl.clone();
                    simrt::alloc_reset_peak();
                    let l = simrt::alloc_live();
                    let mut p = guard("prepare", || from_sim_image(im))?;
                    guard("scan", || p.with(&mut |_| ()))?;
                    let pk = simrt::alloc_peak() - l;
                    let most = scan_allowance(&p.dark(), c.w);
                    if std::env::var("SIM_MEM").is_ok() {
                        eprintln!("MEM {} {pk} {most} {}x{}", pk * 1000 / most, c.w, c.h);
                    }
                    if pk > most {
                        return vio("too much memory", format!("{pk} bytes besides the image for a frame of {}x{}, {most} would be plenty", c.w, c.h));
                    }
                    if ctl.max_live.load(Relaxed) > 4 {
                        return vio("too much memory", format!("{} copies of the image alive during a scan", ctl.max_live.load(Relaxed)));
                    }
                    if ctl.live.load(Relaxed) != 1 {
                        return vio("buffer kept", format!("{} copies of the image after a scan", ctl.live.load(Relaxed)));
                    }
                    drop(p);
                    if ctl.live.load(Relaxed) != 0 {
                        return vio("buffer kept", "image buffer alive after everything was dropped");
                    }
                }
            }
        }
        Ok(())
    };
    pass(24)?;
    let l0 = simrt::alloc_live();
    pass(36)?;
    let l1 = simrt::alloc_live();
    event(|| format!("36 scans: {} bytes more held; worst peak {worst:?}", l1 - l0));
    if l1 - l0 > 256 {
        return vio("memory grows", format!("{} bytes after 36 scans, all results dropped", l1 - l0));
    }
    for f in &frames {
        digest(f.hash());
    }
    count("probe:operations under memory watch", 36);
    Ok(true)
}

// ---------------------------------------------------------------- C16

pub fn c16(run: u64) -> Res {
    let kind = stratum(40, run);
    if kind == 39 {
        // one object, very many times
        let s = known_sym(1)?;
        let n = if stratum(6, run / 40) == 5 { 70_000 } else { 3_000 };
        let op = draw(3);
        for i in 0..n {
            let (got, want): (bool, &str) = match op {
                0 => (guard("decode_to", || s.sym.decode())? == s.dec, "decode_to"),
                1 => (guard("decode", || s.sym.decode_string())? == s.text, "decode"),
                _ => (guard("raw", || s.sym.raw())? == s.raw, "get_raw_data"),
            };
            if !got {
                return vio("wrong result", format!("{want} gave another answer at repetition {i}"));
            }
        }
        event(|| format!("operation {op} repeated {n} times"));
        count("probe:repeated operation", n);
        digest(mix(hash_bytes(&s.bits), n));
        return Ok(true);
    }
    let k = 2 + draw(5) as usize;
    let mut syms = Vec::new();
    for _ in 0..k {
        syms.push(known_sym(if chance(100) { 40 } else { 8 })?);
    }
    let mut frames: Vec<(Canvas, u64, Vec<GridOut>)> = Vec::new();
    let nf = if kind % 3 == 0 { 1 + draw(2) } else { 0 };
    for _ in 0..nf {
        let c = busy_frame();
        let how = draw(5);
        let g = guard("scan", || prepared(&c, how).scan())?;
        // every grid's answers are what the reference makes of its modules
        for o in &g {
            if o.size >= 21 && o.size <= 177 && (o.size - 17) % 4 == 0 {
                check_outcome(&ref_outcome(o.size, &o.bits), &o.dec, "wrong result", "grid of a scan")?;
                same(&format!("{:?}", o.raw), &format!("{:?}", ref_raw(o.size, &o.bits)), "raw data of a grid of a scan")?;
            }
        }
        frames.push((c, how, g));
    }
    let n = 4 + draw(if chance(200) { 300 } else { 30 });
    for i in 0..n {
        let op = draw(8);
        let s = &syms[draw(k as u64) as usize];
        match op {
            0..=2 => s.check(op, &format!("as operation {i}"))?,
            3 => {
                let (mut w, _) = faulty_writer(s.payload().len().min(60));
                w.expect_prefix_of = Some(s.payload().to_vec());
                let r = guard("decode_to", || s.sym.decode_to(&mut w))?;
                let want = match &s.dec {
                    Dec::Ok(m, _) if !w.fatal => Ok(m.clone()),
                    Dec::Err(e, _) if !w.fatal => Err(e.clone()),
                    _ => Err("IoError".into()),
                };
                if r != want || w.prefix_broken_at.is_some() {
                    return vio("wrong result", format!("decode to a faulty writer as operation {i}: {r:?}, expected {want:?}"));
                }
            }
            4 => {
                // a different object that comes and goes
                let t = known_sym(6)?;
                t.check(draw(3), &format!("of a new object as operation {i}"))?;
            }
            5 => {
                let rep = 2 + draw(4);
                for _ in 0..rep {
                    s.check(draw(3), &format!("as operation {i}, repeated"))?;
                }
            }
            _ => {
                if frames.is_empty() {
                    s.check(op, &format!("as operation {i}"))?;
                    continue;
                }
                let f = &frames[draw(frames.len() as u64) as usize];
                if op == 6 {
                    let g = guard("scan", || prepared(&f.0, f.1).scan())?;
                    same_scan(&g, &f.2, &format!("scan as operation {i}"))?;
                } else {
                    // the grids of one scan in any order, any number of times
                    let mut p = guard("prepare", || prepared(&f.0, f.1))?;
                    let mut res: Result<(), Vio> = Ok(());
                    guard("scan", || {
                        p.with(&mut |hs| {
                            if hs.is_empty() || hs.len() != f.2.len() {
                                return;
                            }
                            for _ in 0..2 + draw(6) {
                                let j = draw(hs.len() as u64) as usize;
                                let o = &f.2[j];
                                let bad = match draw(3) {
                                    0 => hs[j].dec() != o.dec,
                                    1 => hs[j].raw() != o.raw,
                                    _ => hs[j].dec_string() != as_text(&o.dec),
                                };
                                if bad {
                                    res = vio("wrong result", format!("grid {j} of a scan decoded out of order as operation {i}"));
                                }
                            }
                        })
                    })?;
                    res?;
                }
            }
        }
    }
    digest(mix(n, k as u64));
    event(|| format!("{n} operations over {k} symbols and {nf} frames"));
    count("probe:operations in sequence", n);
    Ok(true)
}

// ---------------------------------------------------------------- C18

/// Width, height and pixels of a picture file (PGM, PPM or uncompressed BMP).
fn picture(b: &[u8]) -> Option<(usize, usize, Vec<[u8; 3]>)> {
    if b.starts_with(b"P5") || b.starts_with(b"P6") {
        let mut pos = 2;
        let mut nums = Vec::new();
        while nums.len() < 3 {
            while b.get(pos)?.is_ascii_whitespace() {
                pos += 1;
            }
            let mut n = 0usize;
            while b.get(pos)?.is_ascii_digit() {
                n = n * 10 + (b[pos] - b'0') as usize;
                pos += 1;
            }
            nums.push(n);
        }
        let px = &b[pos + 1..];
        let (w, h) = (nums[0], nums[1]);
        if nums[2] != 255 {
            return None;
        }
        let out: Vec<[u8; 3]> = if b[1] == b'5' {
            px.iter().map(|v| [*v; 3]).collect()
        } else {
            if px.len() % 3 != 0 {
                return None;
            }
            px.chunks(3).map(|c| [c[0], c[1], c[2]]).collect()
        };
        return (out.len() == w * h).then_some((w, h, out));
    }
    if b.starts_with(b"P7") {
        // the header names its values and ends with a line of its own
        let end = b.windows(7).position(|w| w == b"ENDHDR\n")? + 7;
        let head = std::str::from_utf8(&b[..end]).ok()?;
        let val = |k: &str| -> Option<usize> {
            let mut it = head.split_ascii_whitespace();
            it.find(|t| *t == k)?;
            it.next()?.parse().ok()
        };
        let (w, h, d) = (val("WIDTH")?, val("HEIGHT")?, val("DEPTH")?);
        if val("MAXVAL")? != 255 || b.len() - end != w * h * d {
            return None;
        }
        let px = b[end..].chunks(d).map(|c| if d < 3 { [c[0]; 3] } else { [c[0], c[1], c[2]] });
        return Some((w, h, px.collect()));
    }
    if !b.starts_with(b"BM") || b.len() < 54 {
        return None;
    }
    let g = |o: usize| u32::from_le_bytes([b[o], b[o + 1], b[o + 2], b[o + 3]]) as usize;
    let (off, hdr, w, h, bpp) = (g(10), g(14), g(18), g(22), b[28] as usize);
    let stride = (w * bpp / 8).div_ceil(4) * 4;
    if b.len() != off + stride * h || g(2) != b.len() {
        return None;
    }
    let mut out = vec![[0u8; 3]; w * h];
    for y in 0..h {
        for x in 0..w {
            let p = off + (h - 1 - y) * stride + x * bpp / 8;
            out[y * w + x] = match bpp {
                8 => {
                    let q = 14 + hdr + b[p] as usize * 4;
                    [b[q + 2], b[q + 1], b[q]]
                }
                24 | 32 => [b[p + 2], b[p + 1], b[p]],
                _ => return None,
            };
        }
    }
    Some((w, h, out))
}

/// Does the file show what it should?
fn shows(file: &[u8], w: usize, h: usize, shade: &[u8]) -> Result<(), String> {
    let Some((pw, ph, px)) = picture(file) else {
        return Err(format!("{} byte(s) that are not a complete picture", file.len()));
    };
    if (pw, ph) != (w, h) {
        return Err(format!("{pw}x{ph} instead of {w}x{h}"));
    }
    let mut colour: std::collections::BTreeMap<u8, [u8; 3]> = Default::default();
    for (i, (s, p)) in shade.iter().zip(&px).enumerate() {
        let c = *colour.entry(*s).or_insert(*p);
        let ok = match s {
            0 => *p == [255; 3],
            1 => *p == [0; 3],
            _ => *p != [255; 3] && *p != [0; 3],
        };
        if !ok || c != *p {
            return Err(format!("({},{}) has shade {s} but is shown as {p:?}", i % w, i / w));
        }
    }
    Ok(())
}

/// A script for the disk; (opens, writes, space, is it free of fatal faults).
fn disk_script(size: usize) -> (Vec<simrt::DAct>, Vec<simrt::DAct>, Option<usize>, bool) {
    use simrt::DAct::*;
    let mut opens = Vec::new();
    let mut writes = Vec::new();
    let mut space = None;
    let mut healthy = true;
    if draw(4) == 3 {
        opens = vec![Interrupted; 1 + draw(3) as usize];
    }
    let stumble = |n: u64, w: &mut Vec<simrt::DAct>| {
        for _ in 0..n {
            w.push(match draw(3) {
                0 => Interrupted,
                1 => Accept(1 + draw(5) as usize),
                _ => Accept(1 + draw(3000) as usize),
            });
        }
    };
    match draw(6) {
        0 => {}
        1 => stumble(1 + draw(30), &mut writes),
        2 => {
            space = Some(match draw(3) {
                0 => draw(8) as usize,
                1 => draw(size as u64 + 1) as usize,
                _ => size - 1 - draw(4.min(size as u64)) as usize,
            });
            healthy = false;
        }
        3 => {
            let n = draw(4);
            stumble(n, &mut writes);
            writes.push(Fail([simrt::EIO, simrt::EDQUOT][draw(2) as usize]));
            healthy = false;
        }
        4 => {
            opens.push(Fail([simrt::EACCES, simrt::EMFILE, simrt::ENOSPC][draw(3) as usize]));
            healthy = false;
        }
        _ => {
            stumble(1 + draw(6), &mut writes);
            space = Some(draw(2 * size as u64 + 1) as usize);
            healthy = false;
        }
    }
    (opens, writes, space, healthy)
}

pub fn c18(run: u64) -> Res {
    let dir = own_dir();
    let r = c18_in(&dir, run);
    let _ = std::fs::remove_dir_all(&dir);
    r
}

fn c18_in(dir: &std::path::Path, run: u64) -> Res {
    let root = dir.to_str().unwrap().to_string();
    let mut any = false;
    let kind = stratum(3, run);
    let mut dumps = |w: usize, h: usize, shade: &[u8], dump: &mut dyn FnMut(&str), what: &str| -> Result<(), Vio> {
        let n = 1 + draw(3);
        for i in 0..n {
            let (ext, size) = if draw(2) == 0 { ("bmp", 54 + w * h) } else if kind == 0 || what == "grid" { ("pgm", 12 + w * h) } else { ("ppm", 12 + 3 * w * h) };
            let name = format!("{}.{ext}", draw(2));
            let path = format!("{root}/{name}");
            let old = std::fs::read(&path).ok().map(|b| b.len());
            if old.is_none() && draw(3) == 2 {
                // something longer of the same name is already there
                std::fs::write(&path, vec![b'x'; 2 * size + 3000]).unwrap();
                count("probe:file already there", 1);
            }
            let (opens, writes, space, healthy) = disk_script(size);
            event(|| format!("{what} {w}x{h} to {name}: open {opens:?}, write {writes:?}, space {space:?}"));
            simrt::disk_begin(&root, opens, writes, space);
            let r = may_panic(|| dump(&path));
            let d = simrt::disk_end();
            digest(mix(d.write_calls, d.failed as u64 * 2 + r.is_ok() as u64));
            any |= d.failed || d.write_calls > 1;
            let file = std::fs::read(&path).unwrap_or_default();
            match r {
                Ok(()) => {
                    count("probe:dump reported as written", 1);
                    if let Err(e) = shows(&file, w, h, shade) {
                        return vio("dump wrong although reported as written", format!("{what}, attempt {i}: {e} (disk failed: {})", d.failed));
                    }
                }
                Err(e) => {
                    count("probe:dump refused", 1);
                    if !d.failed || healthy {
                        return vio("dump fails on a healthy disk", format!("{what}: {e}"));
                    }
                }
            }
        }
        // the disk has healed
        let path = format!("{root}/after.bmp");
        if let Err(e) = may_panic(|| dump(&path)) {
            return vio("dump fails on a healthy disk", format!("{what}: {e}"));
        }
        if let Err(e) = shows(&std::fs::read(&path).unwrap_or_default(), w, h, shade) {
            return vio("dump wrong although reported as written", format!("{what}, healthy disk: {e}"));
        }
        Ok(())
    };
    if kind == 0 {
        let s = known_sym(if chance(100) { 40 } else { 8 })?;
        digest(hash_bytes(&s.bits));
        dumps(s.n, s.n, &s.bits, &mut |p| s.sym.dump(p), "grid")?;
        for op in 0..3 {
            s.check(op, "after the dumps")?;
        }
        return Ok(any);
    }
    let c = if draw(3) == 0 { plain_frame(3).0 } else { busy_frame() };
    if c.px.is_empty() {
        return Ok(false);
    }
    digest(c.hash());
    let mut p = guard("prepare", || prepared(&c, draw(5)))?;
    if kind == 1 {
        for _ in 0..draw(3) {
            let _ = guard("scan", || p.scan())?;
        }
        let sh = p.shades();
        dumps(c.w, c.h, &sh, &mut |path| p.dump(path), "image")?;
        same_px(&p.shades(), &sh, c.w, "dump changed the image", "after the dumps")?;
        let want = guard("scan", || p.dup().scan())?;
        same_scan(&guard("scan", || p.scan())?, &want, "after the dumps")?;
    } else {
        let mut res: Result<(), Vio> = Ok(());
        guard("scan", || {
            p.with(&mut |hs| {
                for h in hs {
                    let m = h.modules();
                    let n = h.size();
                    let before = h.out();
                    let mut go = || -> Result<(), Vio> {
                        dumps(n, n, &m, &mut |path| h.dump(path), "grid")?;
                        if h.out() != before {
                            return vio("dump changed the image", "grid found in it");
                        }
                        Ok(())
                    };
                    if let Err(e) = go() {
                        res = Err(e);
                        return;
                    }
                }
            })
        })?;
        res?;
    }
    Ok(any)
}
