PROPERTY = "C05"
NEEDS = "a thread that is stopped between reading the modules and correcting them while other threads start two decodes"
BREAKS = "the raw bits are parked in one of two process-wide slots used in turn, so a third decode overwrites those of the first"
EDITS = [("src/decode.rs", """        let (meta, raw) = get_raw(c, true)?;
        let stream = codestream_ecc(&meta, raw)?;""", """        // The raw bits are large, keep them off the stack of the caller
        static POOL: [std::sync::Mutex<Option<RawData>>; 2] =
            [std::sync::Mutex::new(None), std::sync::Mutex::new(None)];
        static NEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let (meta, raw) = get_raw(c, true)?;
        let slot = &POOL[NEXT.fetch_add(1, std::sync::atomic::Ordering::SeqCst) % 2];
        *slot.lock().unwrap_or_else(|e| e.into_inner()) = Some(raw);
        if meta.version.0 > 40 {
            return Err(DeQRError::InvalidVersion);
        }
        let raw = slot.lock().unwrap_or_else(|e| e.into_inner()).clone();
        let stream = codestream_ecc(&meta, raw.ok_or(DeQRError::DataEcc)?)?;""")]
DEMO = r'''
fn main() {
    let texts: Vec<String> = (0..8).map(|k| format!("caller number {k} {}", "x".repeat(k))).collect();
    let t0 = std::time::Instant::now();
    let bad = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for _ in 0..3 {
            for t in &texts {
                let bad = &bad;
                sc.spawn(move || {
                    let g = Symbol::new(3, 1, 0, &[Seg::Byte(t.as_bytes().to_vec())]).grid();
                    while t0.elapsed().as_secs() < 40 && bad.load(std::sync::atomic::Ordering::SeqCst) == 0 {
                        for _ in 0..200 {
                            if g.decode().map(|x| x.1).as_deref() != Ok(t.as_str()) {
                                bad.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                            }
                        }
                    }
                });
            }
        }
    });
    assert_eq!(bad.into_inner(), 0, "results mixed up");
}
'''
