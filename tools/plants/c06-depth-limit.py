PROPERTY = "C06"
NEEDS = "many decodes abandoned by a panic of their writer, on one thread"
BREAKS = "a counter of nested calls is not restored when a call unwinds; after sixteen abandoned calls every decode of the thread fails"
EDITS = [("src/decode.rs", """    decode_payload(&meta, stream, writer)?;
    Ok(meta)
}""", """    // A writer may decode again, but not without end
    thread_local! {
        static DEPTH: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
    }
    if DEPTH.with(|d| d.get()) >= 16 {
        return Err(DeQRError::IoError);
    }
    DEPTH.with(|d| d.set(d.get() + 1));
    let res = decode_payload(&meta, stream, writer);
    DEPTH.with(|d| d.set(d.get() - 1));
    res.map(|_| meta)
}""")]
DEMO = r'''
struct W;
impl std::io::Write for W {
    fn write(&mut self, _: &[u8]) -> std::io::Result<usize> { panic!("the output is gone") }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let g = Symbol::new(2, 1, 0, &[Seg::Alnum(b"STILL HERE".to_vec())]).grid();
    for k in 0..100 {
        assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(g.decode_to(W)))).is_err() , "{k}");
        assert!(g.decode().map(|x| x.1).as_deref() == Ok("STILL HERE"), "after {k} abandoned calls");
    }
}
'''
