PROPERTY = "C05"
NEEDS = "two threads decoding symbols of different versions or levels, one of them preempted between storing the key and storing the value of a process-wide memo"
BREAKS = "block parameters are memoised in two separate atomics; a reader between the two stores combines one symbol's key with another's parameters"
EDITS = [("src/decode.rs", "    let lb_count = (ver.data_bytes - sb_ecc.bs * sb_ecc.ns) / (sb_ecc.bs + 1);\n", """    // Remember the last division, codes of one kind usually come in series
    static KEY: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    static LONG: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    use std::sync::atomic::Ordering::SeqCst;
    let key = meta.version.0 * 4 + meta.ecc_level as usize;
    if KEY.load(SeqCst) != key {
        KEY.store(key, SeqCst);
        LONG.store((ver.data_bytes - sb_ecc.bs * sb_ecc.ns) / (sb_ecc.bs + 1), SeqCst);
    }
    let lb_count = LONG.load(SeqCst);
""")]
DEMO = r'''
use std::sync::atomic::{AtomicUsize, Ordering};
fn main() {
    let syms: Vec<(Symbol, String)> = [(5, 2), (8, 0), (1, 1), (10, 3), (7, 2), (5, 3)].iter().map(|&(v, l)| {
        let t = format!("version {v} level {l}");
        (Symbol::new(v, l, 0, &[Seg::Byte(t.clone().into_bytes())]), t)
    }).collect();
    let bad = AtomicUsize::new(0);
    let t0 = std::time::Instant::now();
    std::thread::scope(|s| {
        for k in 0..12 {
            let (syms, bad) = (&syms, &bad);
            s.spawn(move || {
                let grids: Vec<_> = syms.iter().map(|x| (x.0.grid(), &x.1)).collect();
                let mut i = k;
                while t0.elapsed().as_secs() < 60 && bad.load(Ordering::Relaxed) == 0 {
                    let (g, t) = &grids[i % grids.len()];
                    i += 1;
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| g.decode().map(|x| x.1)));
                    if !matches!(&r, Ok(Ok(x)) if x == *t) {
                        bad.fetch_add(1, Ordering::Relaxed);
                    }
                }
            });
        }
    });
    assert_eq!(bad.load(Ordering::Relaxed), 0, "a concurrent decode gave something else than alone");
}
'''
