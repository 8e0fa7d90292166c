//! Scenarios over module matrices: C01-C04, C13, C15.

use crate::driver::{guard, vio, Res, Vio};
use crate::qr::{self, *};
use glue::*;
use simrt::{chance, count, digest, draw, event, hash_bytes, mix, range, stratum, subseed, Rng};

pub fn note(d: &Dec) {
    match d {
        Dec::Ok(m, v) => {
            digest(mix(m.version as u64 * 64 + m.ecc as u64 * 8 + m.mask as u64, hash_bytes(v)));
            count("probe:decode ok", 1);
        }
        Dec::Err(e, v) => {
            digest(mix(hash_bytes(e.as_bytes()), hash_bytes(v)));
            match e.as_str() {
                "DataEcc" => count("probe:decode DataEcc", 1),
                "FormatEcc" => count("probe:decode FormatEcc", 1),
                "InvalidVersion" => count("probe:decode InvalidVersion", 1),
                "DataUnderflow" => count("probe:decode DataUnderflow", 1),
                "UnknownDataType" => count("probe:decode UnknownDataType", 1),
                "EncodingError" => count("probe:decode EncodingError", 1),
                "IoError" => count("probe:decode IoError", 1),
                _ => count("probe:decode other error", 1),
            }
        }
    }
}

pub fn meta_of(s: &Symbol) -> Meta {
    Meta {
        version: s.v,
        ecc: s.level,
        mask: s.mask,
    }
}

/// A random symbol; versions, levels and masks are spread evenly over the runs.
pub fn any_symbol(run: u64) -> (Symbol, Vec<Seg>, Vec<u8>) {
    let v = 1 + stratum(40, run) as usize;
    let l = stratum(4, run / 40) as u16;
    let m = stratum(8, run / 160) as u16;
    make(v, l, m)
}

pub fn small_symbol(max_v: u64) -> (Symbol, Vec<Seg>, Vec<u8>) {
    let v = range(1, max_v) as usize;
    let l = draw(4) as u16;
    let m = draw(8) as u16;
    make(v, l, m)
}

pub fn make(v: usize, l: u16, m: u16) -> (Symbol, Vec<Seg>, Vec<u8>) {
    let mut r = Rng::new(subseed());
    let max = [1, 2, 4, 8][draw(4) as usize];
    let segs = rand_segs(&mut r, v, l, max);
    let s = encode_segs(v, l, m, &segs);
    let t = segs_text(&segs);
    event(|| {
        format!(
            "symbol: version {v} level {l} mask {m}, {} segment(s), payload {} byte(s)",
            segs.len(),
            t.len()
        )
    });
    digest(hash_bytes(&s.bits));
    (s, segs, t)
}

/// Faults placed on a symbol.
pub struct Damage {
    pub bits: Vec<u8>,
    pub flaky: Vec<u8>,
    pub any: bool,
    pub any_flaky: bool,
}

pub fn no_damage(s: &Symbol) -> Damage {
    Damage {
        bits: s.bits.clone(),
        flaky: vec![0; s.n * s.n],
        any: false,
        any_flaky: false,
    }
}

/// Damage codeword `i` of the symbol: permanently (nonzero xor) or transiently.
pub fn hit_codeword(s: &Symbol, d: &mut Damage, i: usize, x: u8, flaky: bool) {
    let g = geo(s.v);
    for k in 0..8 {
        if x >> (7 - k) & 1 != 0 {
            let p = g.order[i * 8 + k] as usize;
            if flaky {
                d.flaky[p] = 1;
                d.any_flaky = true;
            } else {
                d.bits[p] ^= 1;
            }
        }
    }
    d.any = true;
    if flaky {
        count("fault:flaky codeword", 1);
    } else {
        count("fault:damaged codeword", 1);
    }
}

fn err_value(r: &mut Rng, style: u64) -> u8 {
    match style {
        0 => 1 << r.below(8),
        1 => 0xff,
        2 => 1,
        _ => 1 + r.below(255) as u8,
    }
}

/// Data damage within the correction budget of every block.
pub fn damage_data(s: &Symbol, d: &mut Damage, allow_flaky: bool) {
    damage_data_upto(s, d, allow_flaky, blocks(s.v, s.level).parity / 2)
}

/// Data damage of at most `t` codewords per block.
pub fn damage_data_upto(s: &Symbol, d: &mut Damage, allow_flaky: bool, t: usize) {
    let bl = blocks(s.v, s.level);
    let nb = bl.data.len();
    let style = draw(7);
    if style == 0 {
        return;
    }
    let mut r = Rng::new(subseed());
    let mut by_block: Vec<Vec<usize>> = vec![Vec::new(); nb];
    for (i, &(b, j)) in bl.place.iter().enumerate() {
        let v = &mut by_block[b as usize];
        if v.len() <= j as usize {
            v.resize(j as usize + 1, 0);
        }
        v[j as usize] = i;
    }
    let flaky_mode = if allow_flaky { draw(3) } else { 0 };
    let val = draw(4);
    let fl = |r: &mut Rng| match flaky_mode {
        0 => false,
        1 => r.below(2) == 0,
        _ => true,
    };
    let full = draw(3) != 0; // up to the budget exactly
    match style {
        1 => {
            // burst over a rectangle of the matrix, as far as the budget goes
            let n = s.n as u64;
            let (x0, y0) = (draw(n), draw(n));
            let (ww, hh) = (1 + draw(n / 2), 1 + draw(n / 2));
            let g = geo(s.v);
            let mut used = vec![0usize; nb];
            for (i, &(b, _)) in bl.place.iter().enumerate() {
                let inside = (0..8).any(|k| {
                    let p = g.order[i * 8 + k] as u64;
                    let (y, x) = (p / n, p % n);
                    x >= x0 && x < x0 + ww && y >= y0 && y < y0 + hh
                });
                if inside && used[b as usize] < t {
                    used[b as usize] += 1;
                    let f = fl(&mut r);
                    hit_codeword(s, d, i, err_value(&mut r, 1), f);
                }
            }
            event(|| format!("burst damage at ({x0},{y0}) {ww}x{hh} modules"));
        }
        _ => {
            let one = style == 2;
            let only = r.below(nb as u64) as usize;
            for (b, cw) in by_block.iter().enumerate() {
                if one && b != only {
                    continue;
                }
                let k = if full { t } else { r.below(t as u64 + 1) as usize };
                let len = cw.len();
                let mut pos: Vec<usize> = match style {
                    3 => (0..len).collect(),
                    4 => (0..len).rev().collect(),
                    5 => {
                        let o = r.below(len as u64) as usize;
                        (0..len).map(|i| (i + o) % len).collect()
                    }
                    _ => {
                        let mut p: Vec<usize> = (0..len).collect();
                        for i in 0..len {
                            let j = i + r.below((len - i) as u64) as usize;
                            p.swap(i, j);
                        }
                        p
                    }
                };
                pos.truncate(k);
                for p in pos {
                    let f = fl(&mut r);
                    let x = err_value(&mut r, val);
                    hit_codeword(s, d, cw[p], x, f);
                }
            }
            event(|| format!("codeword damage, placement style {style}, {} per block at most, flaky mode {flaky_mode}", t));
        }
    }
}

/// A word more than three bits away from every valid format word.
pub fn unreadable_format(r: &mut Rng) -> u16 {
    loop {
        let w = (r.next() & 0x7fff) as u16;
        if fix_format(w).is_none() {
            return w;
        }
    }
}

pub fn flips(r: &mut Rng, k: u64) -> u16 {
    let mut w = 0u16;
    while w.count_ones() < k as u32 {
        w |= 1 << r.below(15);
    }
    w
}

/// Format damage that leaves the format readable.
pub fn damage_format(s: &Symbol, d: &mut Damage, allow_flaky: bool) {
    let style = draw(6);
    if style == 0 {
        return;
    }
    let mut r = Rng::new(subseed());
    let w = format_word(s.level, s.mask);
    let g = geo(s.v);
    d.any = true;
    match style {
        1 | 2 => {
            // first copy: up to three wrong bits; second copy arbitrary
            let k = 1 + r.below(3);
            let f = flips(&mut r, k);
            let b = if style == 2 { (r.next() & 0x7fff) as u16 } else { w };
            put_format(&mut d.bits, s.v, w ^ f, b);
            count("fault:format bits flipped", f.count_ones() as u64);
            event(|| format!("first format copy: flipped {f:#06x}; second copy {b:#06x}"));
        }
        3 | 4 => {
            let a = unreadable_format(&mut r);
            let k = if style == 3 { 0 } else { 1 + r.below(3) };
            let f = flips(&mut r, k);
            put_format(&mut d.bits, s.v, a, w ^ f);
            count("fault:first format copy destroyed", 1);
            event(|| format!("first format copy unreadable ({a:#06x}); second flipped {f:#06x}"));
        }
        _ => {
            if allow_flaky {
                let k = 1 + r.below(3);
            let f = flips(&mut r, k);
                for (p, k) in g.kind.iter().enumerate() {
                    if let M::FormatA(i) = k {
                        if f >> i & 1 != 0 {
                            d.flaky[p] = 1;
                        }
                    }
                }
                d.any_flaky = true;
                count("fault:flaky format bits", f.count_ones() as u64);
                event(|| format!("first format copy: bits {f:#06x} flaky"));
            }
        }
    }
}

/// Damage to modules that carry no data.
pub fn damage_function(s: &Symbol, d: &mut Damage, allow_flaky: bool) {
    if !chance(400) {
        return;
    }
    let mut r = Rng::new(subseed());
    let g = geo(s.v);
    let p = [1, 10, 50, 100][draw(4) as usize];
    let fl = allow_flaky && draw(2) == 1;
    let rem: std::collections::HashSet<u32> = g.order[g.total * 8..].iter().copied().collect();
    let mut k = 0;
    for (i, kind) in g.kind.iter().enumerate() {
        let hit = match kind {
            M::Data => rem.contains(&(i as u32)),
            M::FormatA(_) | M::FormatB(_) => false,
            _ => true,
        };
        if hit && r.below(100) < p {
            if fl {
                d.flaky[i] = 1;
                d.any_flaky = true;
            } else {
                d.bits[i] ^= 1;
            }
            k += 1;
        }
    }
    d.any = true;
    count("fault:function module damaged", k);
    event(|| format!("{k} function modules {}", if fl { "flaky" } else { "flipped" }));
}

pub fn as_sym(s: &Symbol, d: &Damage, how: u64) -> Sym {
    if how == 1 && !d.any_flaky {
        Sym::simple(s.n, &d.bits)
    } else {
        let mut g = SimGrid::new(s.n, d.bits.clone());
        if d.any_flaky {
            g.flaky = Some((d.flaky.clone(), subseed()));
        }
        Sym::sim(g)
    }
}

fn expect(want: &Dec, got: &Dec, class: &str, ctx: &str) -> Result<(), Vio> {
    note(got);
    if want != got {
        event(|| format!("{ctx}: got {}", got.short()));
        return vio(
            class,
            format!("{ctx}: expected {}, got {}", want.short(), got.short()),
        );
    }
    Ok(())
}

pub fn want_string(s: &Symbol, t: &[u8]) -> Dec {
    match std::str::from_utf8(t) {
        Ok(_) => Dec::Ok(meta_of(s), t.to_vec()),
        Err(_) => Dec::Err("EncodingError".into(), vec![]),
    }
}

// ---------------------------------------------------------------- C01

pub fn c01(run: u64) -> Res {
    let (s, _, t) = any_symbol(run);
    let mut d = no_damage(&s);
    let how = draw(2);
    let fl = how == 0;
    damage_data(&s, &mut d, fl);
    damage_format(&s, &mut d, fl);
    damage_function(&s, &mut d, fl);
    let sym = as_sym(&s, &d, how);
    let want = Dec::Ok(meta_of(&s), t.clone());
    let got = guard("decode_to", || sym.decode())?;
    expect(&want, &got, "wrong result", "decode_to of a correctable symbol")?;
    if d.any_flaky || draw(2) == 1 {
        let got = guard("decode", || sym.decode_string())?;
        expect(&want_string(&s, &t), &got, "wrong result", "decode of a correctable symbol")?;
    }
    Ok(d.any)
}

// ---------------------------------------------------------------- C02

/// What the reference says about a whole decode.
pub enum Want {
    Exactly(Dec),
    /// Error of this kind with an output between these two prefixes
    Between(String, Vec<u8>, Vec<u8>),
    /// Only: starts with these bytes
    Starts(Vec<u8>),
    Anything,
}

pub fn ref_outcome(n: usize, bits: &[u8]) -> Want {
    match ref_decode(n, bits) {
        RefOut::Either => Want::Anything,
        RefOut::Err(e) => Want::Exactly(Dec::Err(e.name().into(), vec![])),
        RefOut::Ok(l, m, data) => {
            let v = (n - 17) / 4;
            let (out, end, part) = ref_payload(v, &data);
            match end {
                End::Ok => Want::Exactly(Dec::Ok(
                    Meta {
                        version: v,
                        ecc: l,
                        mask: m,
                    },
                    out,
                )),
                End::Unknown => Want::Exactly(Dec::Err("UnknownDataType".into(), out)),
                End::Underflow => {
                    let mut hi = out.clone();
                    hi.extend(part);
                    Want::Between("DataUnderflow".into(), out, hi)
                }
                End::Undefined => Want::Starts(out),
            }
        }
    }
}

pub fn check_outcome(w: &Want, got: &Dec, class: &str, ctx: &str) -> Result<(), Vio> {
    note(got);
    let (bytes, kind) = match got {
        Dec::Ok(_, v) => (v, ""),
        Dec::Err(e, v) => (v, e.as_str()),
    };
    let bad = match w {
        Want::Anything => false,
        Want::Exactly(d) => d != got,
        Want::Between(k, lo, hi) => k != kind || !bytes.starts_with(lo) || !hi.starts_with(bytes),
        Want::Starts(lo) => !bytes.starts_with(lo),
    };
    if bad {
        let e = match w {
            Want::Exactly(d) => d.short(),
            Want::Between(k, lo, hi) => {
                format!("Err({k}) after {}..{} byte(s) of the true payload", lo.len(), hi.len())
            }
            Want::Starts(lo) => format!("output starting with {} byte(s)", lo.len()),
            Want::Anything => unreachable!(),
        };
        return vio(class, format!("{ctx}: expected {e}, got {}", got.short()));
    }
    Ok(())
}

pub fn c02(run: u64) -> Res {
    let kind = stratum(8, run);
    let (n, bits): (usize, Vec<u8>) = match kind {
        0 | 1 => {
            // any size
            let n = if kind == 0 {
                stratum(40, run / 8) as usize
            } else {
                range(0, 220) as usize
            };
            let mut r = Rng::new(subseed());
            let b = match draw(4) {
                0 => vec![0; n * n],
                1 => vec![1; n * n],
                2 => {
                    // a valid symbol cropped or padded to that size
                    let (s, _, _) = small_symbol(8);
                    let mut b = vec![0; n * n];
                    for y in 0..n.min(s.n) {
                        for x in 0..n.min(s.n) {
                            b[y * n + x] = s.bits[y * s.n + x];
                        }
                    }
                    b
                }
                _ => (0..n * n).map(|_| (r.next() >> 40 & 1) as u8).collect(),
            };
            event(|| format!("matrix of {n}x{n} modules"));
            count("fault:matrix of arbitrary size", 1);
            (n, b)
        }
        _ => {
            let v = 1 + stratum(40, run / 8) as usize;
            let l = stratum(4, run / 320) as u16;
            let m = draw(8) as u16;
            let (s, _, _) = make(v, l, m);
            let mut d = no_damage(&s);
            let n = s.n;
            let bl = blocks(s.v, s.level);
            let mut r = Rng::new(subseed());
            match kind {
                2 | 3 => {
                    // just beyond the budget in one block, within it elsewhere
                    if draw(2) == 1 {
                        damage_data(&s, &mut d, false);
                    }
                    let b = r.below(bl.data.len() as u64) as u16;
                    let cw: Vec<usize> = bl
                        .place
                        .iter()
                        .enumerate()
                        .filter(|(_, p)| p.0 == b)
                        .map(|x| x.0)
                        .collect();
                    let k = bl.parity / 2 + 1 + draw(3) as usize;
                    let mut p: Vec<usize> = (0..cw.len()).collect();
                    for i in 0..p.len() {
                        let j = i + r.below((p.len() - i) as u64) as usize;
                        p.swap(i, j);
                    }
                    for &q in p.iter().take(k) {
                        let x = 1 + r.below(255) as u8;
                        hit_codeword(&s, &mut d, cw[q], x, false);
                    }
                    count("fault:block damaged beyond its budget", 1);
                    event(|| format!("block {b}: {k} codewords damaged, budget {}", bl.parity / 2));
                }
                4 => {
                    // both format copies: unreadable, or wrong by a few bits more than correctable
                    let w = format_word(s.level, s.mask);
                    let (a, b) = match draw(3) {
                        0 => (unreadable_format(&mut r), unreadable_format(&mut r)),
                        1 => {
                            let k = 4 + r.below(3);
                            let a = w ^ flips(&mut r, k);
                            let k = 4 + r.below(3);
                            (a, w ^ flips(&mut r, k))
                        }
                        _ => ((r.next() & 0x7fff) as u16, (r.next() & 0x7fff) as u16),
                    };
                    put_format(&mut d.bits, s.v, a, b);
                    count("fault:both format copies destroyed", 1);
                    event(|| format!("format copies {a:#06x} {b:#06x}"));
                }
                5 => {
                    // torn: the rest of another symbol of the same size
                    let (o, _, _) = make(v, draw(4) as u16, draw(8) as u16);
                    let y = draw(n as u64) as usize;
                    d.bits[y * n..].copy_from_slice(&o.bits[y * n..]);
                    count("fault:torn symbol", 1);
                    event(|| format!("rows from {y} on belong to another symbol"));
                }
                6 => {
                    let y = draw(n as u64) as usize;
                    let k = 1 + draw(n as u64 / 2) as usize;
                    if draw(2) == 0 {
                        for p in &mut d.bits[y * n..((y + k).min(n)) * n] {
                            *p = 0;
                        }
                        event(|| format!("rows {y}..{} blank", y + k));
                    } else {
                        for yy in y..n {
                            for x in 0..n {
                                d.bits[yy * n + x] = if yy + k < n { d.bits[(yy + k) * n + x] } else { 0 };
                            }
                        }
                        event(|| format!("{k} rows lost at {y}"));
                    }
                    count("fault:rows lost", 1);
                }
                _ => {
                    let p = [5, 20, 100, 300, 500][draw(5) as usize];
                    for b in &mut d.bits {
                        if r.below(1000) < p {
                            *b ^= 1;
                        }
                    }
                    count("fault:noise over the whole symbol", 1);
                    event(|| format!("noise {p} permille"));
                }
            }
            (n, d.bits)
        }
    };
    let odd_size = n >= 21 && n <= 180 && (n > 177 || (n - 17) % 4 != 0);
    let want = if odd_size {
        Want::Anything
    } else {
        ref_outcome(n, &bits)
    };
    let bad_size = !odd_size && (n < 21 || n > 180);
    let how = draw(2);
    let sym = if how == 1 {
        Sym::simple(n, &bits)
    } else {
        Sym::sim(SimGrid::new(n, bits.clone()))
    };
    let mut w = SimWriter::default();
    let r = guard("decode_to", || sym.decode_to(&mut w))?;
    let got = match r {
        Ok(m) => Dec::Ok(m, w.accepted.clone()),
        Err(e) => Dec::Err(e, w.accepted.clone()),
    };
    if bad_size {
        note(&got);
        let fine = matches!(&got, Dec::Err(e, v) if v.is_empty() && (e == "InvalidVersion" || e == "FormatEcc"));
        if !fine {
            return vio(
                "wrong result",
                format!("{n}x{n} matrix: expected an invalid-version error, got {}", got.short()),
            );
        }
    } else {
        check_outcome(&want, &got, "wrong result", &format!("decode of a damaged {n}x{n} symbol"))?;
    }
    if let Want::Exactly(Dec::Err(_, v)) = &want {
        if v.is_empty() && w.calls != 0 && matches!(ref_decode(n, &bits), RefOut::Err(_)) {
            return vio(
                "output before success was certain",
                format!("{} write call(s) for a symbol that cannot be corrected", w.calls),
            );
        }
    }
    let st = guard("decode", || sym.decode_string())?;
    match (&got, &st) {
        (Dec::Err(a, _), Dec::Err(b, _)) if a == b => {}
        (Dec::Ok(a, v), Dec::Ok(b, u)) if a == b && u == v => {}
        (Dec::Ok(_, v), Dec::Err(b, _)) if b == "EncodingError" && std::str::from_utf8(v).is_err() => {}
        _ => {
            return vio(
                "decode and decode_to disagree",
                format!("decode: {}, decode_to: {}", st.short(), got.short()),
            )
        }
    }
    let _ = guard("get_raw_data", || sym.raw())?;
    Ok(matches!(want, Want::Exactly(Dec::Err(..))) || bad_size || odd_size)
}

// ---------------------------------------------------------------- C03

/// A writer whose behaviour is decided by the choice stream.
pub fn faulty_writer(len: usize) -> (SimWriter, bool) {
    let mut w = SimWriter::default();
    let mut any = false;
    let style = draw(6);
    let calls = len as u64 + 2;
    match style {
        0 => {}
        1 => {
            // a fatal fault at one point of the output
            let at = draw(calls) as usize;
            w.script = vec![WAct::Accept(usize::MAX); at];
            w.script.push(if draw(2) == 0 { WAct::Error(draw(8) as u8) } else { WAct::Zero });
            any = true;
        }
        2 => {
            w.capacity = Some(draw(calls) as usize);
            any = true;
        }
        3 => {
            // short writes and interruptions everywhere
            let mut r = Rng::new(subseed());
            for _ in 0..2 * len + 8 {
                w.script.push(match r.below(3) {
                    0 => WAct::Interrupted,
                    _ => WAct::Accept(1 + r.below(3) as usize),
                });
            }
            any = true;
        }
        _ => {
            let k = draw(12);
            let mut at = 0usize;
            for _ in 0..k {
                at += draw(1 + calls / 2) as usize;
                while w.script.len() < at {
                    w.script.push(WAct::Accept(usize::MAX));
                }
                w.script.push(match draw(if style == 4 { 2 } else { 4 }) {
                    0 => WAct::Accept(1),
                    1 => WAct::Interrupted,
                    2 => WAct::Error(draw(8) as u8),
                    _ => WAct::Zero,
                });
                any = true;
            }
        }
    }
    (w, any)
}

pub fn c03(run: u64) -> Res {
    let big = stratum(10, run) == 9;
    let (s, segs, t) = if big { any_symbol(run / 10) } else { small_symbol(12) };
    let (mut w, _) = faulty_writer(t.len());
    w.expect_prefix_of = Some(t.clone());
    let mut d = no_damage(&s);
    if draw(4) == 0 {
        damage_data(&s, &mut d, false);
    }
    let sym = as_sym(&s, &d, draw(2));
    let script = w.script.clone();
    let r = guard("decode_to", || sym.decode_to(&mut w))?;
    event(|| {
        format!(
            "writer: script {:?} capacity {:?}; {} calls, {} short, {} interrupted, fatal {}; accepted {} of {}; result {:?}",
            script.iter().take(40).collect::<Vec<_>>(), w.capacity, w.calls, w.short, w.interrupted, w.fatal, w.accepted.len(), t.len(), r
        )
    });
    digest(mix(w.accepted.len() as u64, w.calls));
    digest(mix(w.short, w.interrupted * 2 + w.fatal as u64));
    let kinds: Vec<u64> = segs.iter().map(seg_mode).collect();
    if let Some(i) = w.prefix_broken_at {
        return vio(
            "output is not a prefix of the payload",
            format!("byte {i} of {} was {:#04x}; segments {kinds:?}", t.len(), w.accepted[i]),
        );
    }
    match &r {
        Ok(m) => {
            if w.fatal {
                return vio("write failure swallowed", format!("success reported, {} of {} bytes written", w.accepted.len(), t.len()));
            }
            if w.accepted != t {
                return vio("success with incomplete output", format!("{} of {} bytes written", w.accepted.len(), t.len()));
            }
            if *m != meta_of(&s) {
                return vio("wrong metadata", format!("{m:?}"));
            }
            count("probe:delivered completely", 1);
        }
        Err(e) => {
            if !w.fatal {
                return vio("failure without a write failure", format!("{e} after {} of {} bytes", w.accepted.len(), t.len()));
            }
            if e != "IoError" {
                return vio("wrong error", format!("expected IoError, got {e}"));
            }
            count("probe:I/O error reported", 1);
        }
    }
    if w.calls_after_fatal > 0 {
        return vio("written after failure", format!("{} write call(s) after the failed one", w.calls_after_fatal));
    }
    // Repeating the call with a healthy writer delivers everything.
    let got = guard("decode_to", || sym.decode())?;
    expect(&Dec::Ok(meta_of(&s), t), &got, "wrong result", "decode_to again with a healthy writer")?;
    Ok(w.fatal || w.short > 0 || w.interrupted > 0)
}

// ---------------------------------------------------------------- C04

pub fn c04(run: u64) -> Res {
    let v = if stratum(3, run) == 0 {
        1 + stratum(40, run / 3) as usize
    } else {
        range(1, 12) as usize
    };
    let l = draw(4) as u16;
    let m = draw(8) as u16;
    let cap = data_codewords(v, l);
    let mut r = Rng::new(subseed());
    let mut b = Bits::default();
    // some healthy segments first
    let lead = draw(4);
    for _ in 0..lead {
        let room = (cap * 8 - b.0.len()) * 2 / 3;
        if let Some(s) = rand_seg(&mut r, v, room) {
            seg_put(&s, v, &mut b);
        }
    }
    let room = cap * 8 - b.0.len();
    let kind = draw(8);
    let mut tail_random = false;
    match kind {
        0 => {
            // nothing wrong; optional garbage after the terminator
            tail_random = draw(2) == 1;
            b.put(0, room.min(4));
        }
        1 => {
            // segment that claims more than the symbol holds
            let sg = match draw(4) {
                0 => Seg::Numeric(vec![]),
                1 => Seg::Alnum(vec![]),
                2 => Seg::Byte(vec![]),
                _ => Seg::Kanji(vec![]),
            };
            let cb = count_bits(&sg, v);
            if room > 4 + cb {
                let body = room - 4 - cb;
                let fit = match seg_mode(&sg) {
                    1 => body / 10 * 3 + [0, 0, 0, 0, 1, 1, 1, 2, 2, 2][body % 10],
                    2 => body / 11 * 2 + (body % 11 >= 6) as usize,
                    4 => body / 8,
                    _ => body / 13,
                };
                let max = (1usize << cb) - 1;
                if fit < max {
                    let over = 1 + match draw(3) {
                        0 => draw(3),
                        _ => draw((max - fit) as u64),
                    };
                    let c = (fit as u64 + over).min(max as u64);
                    b.put(seg_mode(&sg), 4);
                    b.put(c, cb);
                    let digits = draw(2) == 0;
                    // defined content as far as it goes
                    match (seg_mode(&sg), digits) {
                        (1, true) => {
                            while cap * 8 - b.0.len() >= 10 {
                                b.put(r.below(1000), 10);
                            }
                        }
                        (2, true) => {
                            while cap * 8 - b.0.len() >= 11 {
                                b.put(r.below(2025), 11);
                            }
                        }
                        _ => tail_random = true,
                    }
                    event(|| format!("segment of mode {} claims {c} characters, room for {fit}", seg_mode(&sg)));
                }
            }
        }
        2 => {
            let bad = [3u64, 5, 6, 9, 10, 11, 12, 13, 14, 15][draw(10) as usize];
            if room >= 4 {
                b.put(bad, 4);
                tail_random = true;
                event(|| format!("unsupported mode {bad}"));
            }
        }
        3 => {
            // segment header cut off by the end of the symbol
            let sg = match draw(5) {
                0 => Seg::Numeric(vec![]),
                1 => Seg::Alnum(vec![]),
                2 => Seg::Byte(vec![]),
                3 => Seg::Kanji(vec![]),
                _ => Seg::Eci(0),
            };
            let cb = count_bits(&sg, v).max(8);
            // fill with a byte segment so that only `k` bits are left
            let k = 4 + draw(cb as u64) as usize;
            let hb = 4 + count_bits(&Seg::Byte(vec![]), v);
            if room >= hb + k {
                let mut c = (room - hb - k) / 8;
                c = c.min((1 << (hb - 4)) - 1);
                let by: Vec<u8> = (0..c).map(|_| r.below(256) as u8).collect();
                seg_put(&Seg::Byte(by), v, &mut b);
                let left = cap * 8 - b.0.len();
                if left >= 4 {
                    b.put(seg_mode(&sg), 4);
                    tail_random = true;
                    event(|| format!("mode {} with {} bit(s) left", seg_mode(&sg), left - 4));
                }
            }
        }
        4 => {
            // ECI designators of all lengths, then whatever
            if room >= 4 {
                b.put(7, 4);
                let first = [0x00u64, 0x80, 0xc0][draw(3) as usize] | draw(32);
                b.put(first, 8.min(room - 4));
                tail_random = true;
            }
        }
        5 | 6 => {
            // random codewords
            b.0.clear();
            for _ in 0..cap {
                b.put(r.below(256), 8);
            }
        }
        _ => {
            // flip bits in a healthy stream
            b.put(0, room.min(4));
            let k = 1 + draw(6);
            for _ in 0..k {
                let n = b.0.len() as u64;
                if n > 0 {
                    b.0[r.below(n) as usize] ^= 1;
                }
            }
            event(|| format!("{k} bit(s) of the stream flipped before encoding"));
        }
    }
    b.0.truncate(cap * 8);
    let data = if tail_random {
        while b.0.len() < cap * 8 {
            b.0.push(r.below(2) as u8);
        }
        b.bytes()
    } else {
        let mut d = b.bytes();
        let mut k = 0;
        while d.len() < cap {
            d.push([0xec, 0x11][k % 2]);
            k += 1;
        }
        d
    };
    let s = build(v, l, m, &data);
    digest(hash_bytes(&data));
    let mut d = no_damage(&s);
    if draw(4) == 3 {
        damage_data(&s, &mut d, false);
    }
    let want = match ref_decode(s.n, &s.bits) {
        RefOut::Ok(..) => ref_outcome(s.n, &s.bits),
        x => panic!("reference rejects its own symbol: {x:?}"),
    };
    match &want {
        Want::Exactly(Dec::Ok(..)) => {}
        _ => count("fault:malformed stream stored", 1),
    }
    let sym = as_sym(&s, &d, draw(2));
    let got = guard("decode_to", || sym.decode())?;
    event(|| format!("version {v} level {l} kind {kind}: {}", got.short()));
    check_outcome(&want, &got, "wrong result", &format!("malformed stream of kind {kind} in a version {v} symbol"))?;
    let st = guard("decode", || sym.decode_string())?;
    let agree = match (&got, &st) {
        (Dec::Err(a, _), Dec::Err(b, _)) => a == b,
        (Dec::Ok(a, v), Dec::Ok(b, u)) => a == b && u == v && std::str::from_utf8(v).is_ok(),
        (Dec::Ok(_, v), Dec::Err(b, _)) => b == "EncodingError" && std::str::from_utf8(v).is_err(),
        _ => false,
    };
    if !agree {
        return vio(
            "decode and decode_to disagree",
            format!("decode: {}, decode_to: {}", st.short(), got.short()),
        );
    }
    // and with a writer that fails on the way
    let (lo, hi) = match &want {
        Want::Exactly(Dec::Ok(_, v)) => (v.clone(), v.clone()),
        Want::Exactly(Dec::Err(_, v)) => (v.clone(), v.clone()),
        Want::Between(_, a, b) => (a.clone(), b.clone()),
        _ => return Ok(!matches!(want, Want::Exactly(Dec::Ok(..)))),
    };
    if draw(3) == 2 {
        let (mut w, _) = faulty_writer(hi.len());
        w.expect_prefix_of = Some(hi.clone());
        let r = guard("decode_to", || sym.decode_to(&mut w))?;
        if w.prefix_broken_at.is_some() || w.calls_after_fatal > 0 {
            return vio("output is not a prefix of the payload", "malformed stream, faulty writer".to_string());
        }
        let ok = match &r {
            Err(e) if w.fatal => e == "IoError",
            Err(e) => matches!(&got, Dec::Err(g, _) if g == e) && w.accepted.starts_with(&lo),
            Ok(_) => !w.fatal && matches!(got, Dec::Ok(..)),
        };
        if !ok {
            return vio("wrong result", format!("faulty writer (fatal {}): {:?}", w.fatal, r));
        }
    }
    Ok(!matches!(want, Want::Exactly(Dec::Ok(..))) || tail_random)
}

// ---------------------------------------------------------------- C13

pub fn c13(run: u64) -> Res {
    let (s, _, _) = any_symbol(run);
    let g = geo(s.v);
    let mut d = no_damage(&s);
    let mut r = Rng::new(subseed());
    match draw(5) {
        0 => {}
        1 => damage_data(&s, &mut d, false),
        2 => {
            for &p in &g.order {
                d.bits[p as usize] = (r.next() >> 33 & 1) as u8;
            }
            d.any = true;
            count("fault:all data modules overwritten", 1);
        }
        3 => {
            let p = 1 + draw(500);
            for &q in &g.order {
                if r.below(1000) < p {
                    d.bits[q as usize] ^= 1;
                }
            }
            d.any = true;
            count("fault:noise over the data modules", 1);
        }
        _ => {
            let v = draw(2) as u8;
            for &p in &g.order {
                d.bits[p as usize] = v;
            }
            d.any = true;
            count("fault:data modules blanked", 1);
        }
    }
    damage_format(&s, &mut d, false);
    damage_function(&s, &mut d, false);
    let sym = as_sym(&s, &d, draw(2));
    let got = guard("get_raw_data", || sym.raw())?;
    let mut bits = Bits::default();
    for &p in &g.order {
        bits.0.push(d.bits[p as usize]);
    }
    let want = bits.bytes();
    digest(hash_bytes(&want));
    match &got {
        Raw::Ok(m, len, data, clean) => {
            if *m != meta_of(&s) {
                return vio("wrong metadata", format!("{m:?} for {:?}", meta_of(&s)));
            }
            if *len != g.order.len() {
                return vio(
                    "wrong number of bits",
                    format!("{len} bits, version {} has {} data modules", s.v, g.order.len()),
                );
            }
            if *data != want {
                let i = (0..g.order.len())
                    .find(|i| (data[i / 8] ^ want[i / 8]) >> (7 - i % 8) & 1 != 0)
                    .unwrap_or(0);
                return vio(
                    "raw bits differ from the stored modules",
                    format!(
                        "version {} bit {i} (module row {} column {})",
                        s.v,
                        g.order[i] as usize / s.n,
                        g.order[i] as usize % s.n
                    ),
                );
            }
            if !clean {
                return vio("raw bits beyond the length", "buffer beyond the bit count is not zero");
            }
        }
        Raw::Err(e) => return vio("raw data refused", format!("{e} although the format is readable")),
    }
    Ok(d.any)
}

// ---------------------------------------------------------------- C15

fn solve(rows: &mut Vec<Vec<u64>>, nvars: usize, r: &mut Rng) -> Option<Vec<u8>> {
    // rows: bitset of nvars coefficients + 1 constant bit
    let words = nvars / 64 + 1;
    let bit = |row: &Vec<u64>, i: usize| row[i / 64] >> (i % 64) & 1 != 0;
    let mut piv = Vec::new();
    let mut top = 0;
    for c in 0..nvars {
        let Some(k) = (top..rows.len()).find(|&k| bit(&rows[k], c)) else {
            continue;
        };
        rows.swap(top, k);
        for k in 0..rows.len() {
            if k != top && bit(&rows[k], c) {
                let (a, b) = if k < top {
                    let (x, y) = rows.split_at_mut(top);
                    (&mut x[k], &y[0])
                } else {
                    let (x, y) = rows.split_at_mut(k);
                    (&mut y[0], &x[top])
                };
                for w in 0..words {
                    a[w] ^= b[w];
                }
            }
        }
        piv.push(c);
        top += 1;
    }
    for row in rows.iter().skip(top) {
        if bit(row, nvars) {
            return None;
        }
    }
    let mut x = vec![0u8; nvars];
    let is_piv: std::collections::HashSet<usize> = piv.iter().copied().collect();
    for (i, v) in x.iter_mut().enumerate() {
        if !is_piv.contains(&i) {
            *v = (r.next() >> 20 & 1) as u8;
        }
    }
    for (k, &c) in piv.iter().enumerate() {
        let mut v = bit(&rows[k], nvars) as u8;
        for i in 0..nvars {
            if i != c && bit(&rows[k], i) {
                v ^= x[i];
            }
        }
        x[c] = v;
    }
    Some(x)
}

/// A matrix that is a valid symbol both as given and mirrored, with different payloads.
pub fn dual_symbol(r: &mut Rng, v: usize) -> Option<(Vec<u8>, Symbol, Vec<u8>, Symbol, Vec<u8>)> {
    let rev = |w: u16| w.reverse_bits() >> 1;
    // formats that can share one damaged word
    let mut pairs = Vec::new();
    for l1 in [1u16] {
        for m1 in 0..8u16 {
            for l2 in [1u16] {
                for m2 in 0..8u16 {
                    let a = format_word(l1, m1);
                    let b = rev(format_word(l2, m2));
                    if (a ^ b).count_ones() <= 6 {
                        pairs.push((l1, m1, l2, m2, a, b));
                    }
                }
            }
        }
    }
    if pairs.is_empty() {
        return None;
    }
    let (l1, m1, l2, m2, a, b) = pairs[r.below(pairs.len() as u64) as usize];
    let mut w = a;
    let mut flipped = 0;
    let diff = a ^ b;
    for i in 0..15 {
        if diff >> i & 1 != 0 && flipped < (diff.count_ones() as usize).div_ceil(2) {
            w ^= 1 << i;
            flipped += 1;
        }
    }
    if fix_format(w) != Some((l1, m1)) || fix_format(rev(w)) != Some((l2, m2)) {
        return None;
    }
    let g = geo(v);
    let n = g.n;
    let nv = g.order.len();
    let mut var = vec![usize::MAX; n * n];
    for (i, &p) in g.order.iter().enumerate() {
        var[p as usize] = i;
    }
    let words = nv / 64 + 1;
    let mut rows: Vec<Vec<u64>> = Vec::new();
    let set = |row: &mut Vec<u64>, i: usize| row[i / 64] ^= 1 << (i % 64);
    let mut texts = Vec::new();
    for side in 0..2 {
        let (l, m) = if side == 0 { (l1, m1) } else { (l2, m2) };
        let bl = blocks(v, l);
        let d = data_codewords(v, l);
        // bit k of codeword i of this orientation -> (variable, constant from the mask)
        let at = |k: usize| {
            let p = g.order[k] as usize;
            let (y, x) = (p / n, p % n);
            let q = if side == 0 { p } else { x * n + y };
            (var[q], mask_at(m, y, x))
        };
        // all bits must be data modules in both orientations (true for symmetric layouts)
        if (0..g.total * 8).any(|k| at(k).0 == usize::MAX) {
            return None;
        }
        // parity constraints, from the generator: encode unit vectors
        let mut base = 0;
        let mut cw_index = vec![vec![0usize; 0]; bl.data.len()];
        for (i, &(bk, j)) in bl.place.iter().enumerate() {
            let c = &mut cw_index[bk as usize];
            if c.len() <= j as usize {
                c.resize(j as usize + 1, 0);
            }
            c[j as usize] = i;
        }
        for (bk, &dl) in bl.data.iter().enumerate() {
            let mut par_rows: Vec<Vec<u64>> = vec![vec![0; words]; bl.parity * 8];
            for j in 0..dl {
                for k in 0..8 {
                    let mut unit = vec![0u8; dl];
                    unit[j] = 0x80 >> k;
                    let par = qr::rs_parity_pub(&unit, bl.parity);
                    let (vi, c) = at(cw_index[bk][j] * 8 + k);
                    for (pi, pb) in par.iter().enumerate() {
                        for q in 0..8 {
                            if pb >> (7 - q) & 1 != 0 {
                                let row = &mut par_rows[pi * 8 + q];
                                set(row, vi);
                                if c {
                                    set(row, nv);
                                }
                            }
                        }
                    }
                }
            }
            for pi in 0..bl.parity {
                for q in 0..8 {
                    let (vi, c) = at(cw_index[bk][dl + pi] * 8 + q);
                    let row = &mut par_rows[pi * 8 + q];
                    set(row, vi);
                    if c {
                        set(row, nv);
                    }
                }
            }
            rows.extend(par_rows);
            base += dl;
        }
        assert_eq!(base, d);
        // fixed beginning of the payload, then a terminator
        let free = nv - 2 * (8 * bl.parity * bl.data.len());
        let chars = (free / 2).saturating_sub(16) / 8;
        if chars < 2 {
            return None;
        }
        let chars = chars.min(6);
        let text: Vec<u8> = (0..chars).map(|_| if side == 0 { b'A' } else { b'a' } + r.below(26) as u8).collect();
        let mut bits = Bits::default();
        seg_put(&Seg::Byte(text.clone()), v, &mut bits);
        bits.put(0, 4);
        for (k, bv) in bits.0.iter().enumerate() {
            // codeword order of the data stream
            let (byte, bit) = (k / 8, k % 8);
            let mut o = byte;
            let mut bk = 0;
            while o >= bl.data[bk] {
                o -= bl.data[bk];
                bk += 1;
            }
            let (vi, c) = at(cw_index[bk][o] * 8 + bit);
            let mut row = vec![0; words];
            set(&mut row, vi);
            if (*bv != 0) ^ c {
                set(&mut row, nv);
            }
            rows.push(row);
        }
        texts.push(text);
    }
    let x = solve(&mut rows, nv, r)?;
    let mut bits = g.fixed.clone();
    for (i, &p) in g.order.iter().enumerate() {
        bits[p as usize] = x[i];
    }
    put_format(&mut bits, v, w, w);
    let t1 = texts.remove(0);
    let t2 = texts.remove(0);
    let mk = |level, mask| Symbol {
        v,
        n,
        level,
        mask,
        bits: vec![],
    };
    Some((bits, mk(l1, m1), t1, mk(l2, m2), t2))
}

pub fn c15(run: u64) -> Res {
    let kind = stratum(6, run);
    if kind == 0 {
        return c15_dual();
    }
    if kind == 1 {
        return crate::sc_image::c15_picture();
    }
    let (s, _, t) = any_symbol(run);
    let mut d = no_damage(&s);
    damage_data(&s, &mut d, false);
    damage_format(&s, &mut d, false);
    damage_function(&s, &mut d, false);
    let mirrored = transpose(s.n, &d.bits);
    if !matches!(ref_correct(s.v, &mirrored), RefOut::Err(_)) {
        count("probe:mirror image is itself decodable", 1);
        return Ok(false);
    }
    // transient faults stay within the same codewords and format bits
    let sym = if draw(2) == 1 {
        Sym::simple(s.n, &mirrored)
    } else {
        Sym::sim(SimGrid::new(s.n, mirrored.clone()))
    };
    count("fault:symbol mirrored", 1);
    let got = guard("decode_to", || sym.decode())?;
    expect(&Dec::Ok(meta_of(&s), t.clone()), &got, "wrong result", "mirrored symbol")?;
    let got = guard("decode", || sym.decode_string())?;
    expect(&want_string(&s, &t), &got, "wrong result", "mirrored symbol, decode()")?;
    let mut w = SimWriter::default();
    let r = guard("decode_to", || sym.decode_to(&mut w))?;
    if r.is_err() || w.accepted != t {
        return vio("wrong result", "mirrored symbol to a writer");
    }
    Ok(true)
}

fn c15_dual() -> Res {
    let v = 1 + draw(2) as usize;
    let mut r = Rng::new(subseed());
    let Some((bits, s1, t1, s2, t2)) = dual_symbol(&mut r, v) else {
        return Ok(false);
    };
    count("probe:symbol valid in both orientations", 1);
    digest(hash_bytes(&bits));
    let n = s1.n;
    let mut d = Damage {
        bits,
        flaky: vec![0; n * n],
        any: false,
        any_flaky: false,
    };
    // As given it can be corrected, so it is read as given - with or without damage.
    let full = Symbol {
        bits: d.bits.clone(),
        ..s1.clone()
    };
    if draw(2) == 1 {
        damage_data(&full, &mut d, false);
    }
    event(|| format!("dual symbol: as given {:?}, mirrored {:?}", String::from_utf8_lossy(&t1), String::from_utf8_lossy(&t2)));
    let want = ref_outcome(n, &d.bits);
    let g1 = guard("decode_to", || Sym::sim(SimGrid::new(n, d.bits.clone())).decode())?;
    check_outcome(&want, &g1, "wrong orientation", "symbol that is valid in both orientations")?;
    match &g1 {
        Dec::Ok(m, v) if *m == meta_of(&s1) && *v == t1 => {}
        _ => {
            return vio(
                "wrong orientation",
                format!("expected the symbol as given ({:?}), got {}", String::from_utf8_lossy(&t1), g1.short()),
            )
        }
    }
    let tr = transpose(n, &full.bits);
    let g2 = guard("decode_to", || Sym::simple(n, &tr).decode())?;
    match &g2 {
        Dec::Ok(m, v) if *m == meta_of(&s2) && *v == t2 => {}
        _ => {
            return vio(
                "wrong orientation",
                format!("expected the symbol as given ({:?}), got {}", String::from_utf8_lossy(&t2), g2.short()),
            )
        }
    }
    Ok(true)
}
