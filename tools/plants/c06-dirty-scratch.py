PROPERTY = "C06"
NEEDS = "a call abandoned (by unwinding out of the grid) while data modules are being read, then another decode on the same thread"
BREAKS = "the data buffer is kept per thread and cleared at the end of a call; an abandoned call leaves its bits in it, and they are mixed into the next symbol"
EDITS = [("src/decode.rs", """    let mut ds = RawData {
        data: [0; MAX_PAYLOAD_SIZE],
        len: 0,
    };
""", """    // Reuse the buffer of the last call, only the part that was used has to be cleared
    thread_local! {
        static SCRATCH: std::cell::Cell<*mut RawData> = const { std::cell::Cell::new(std::ptr::null_mut()) };
    }
    if SCRATCH.get().is_null() {
        let fresh = RawData {
            data: [0; MAX_PAYLOAD_SIZE],
            len: 0,
        };
        SCRATCH.set(Box::into_raw(Box::new(fresh)));
    }
    // Nobody else looks at it while it is taken out
    let scratch = SCRATCH.replace(std::ptr::null_mut());
    let guard = PutBack(scratch, |p| SCRATCH.set(p));
    let ds = unsafe { &mut *scratch };
"""), ("src/decode.rs", """        y = new_y;
        neg_dir = new_neg_dir;
    }

    ds
}
""", """        y = new_y;
        neg_dir = new_neg_dir;
    }

    let done = ds.clone();
    ds.data[..done.len.div_ceil(8)].fill(0);
    ds.len = 0;
    drop(guard);
    done
}

struct PutBack(*mut RawData, fn(*mut RawData));

impl Drop for PutBack {
    fn drop(&mut self) {
        unsafe { (*self.0).len = 0 };
        (self.1)(self.0)
    }
}
""")]
DEMO = r'''
struct Abandon { s: Symbol, left: std::cell::Cell<i64> }
impl rqrr::BitGrid for Abandon {
    fn size(&self) -> usize { self.s.n }
    fn bit(&self, y: usize, x: usize) -> bool {
        self.left.set(self.left.get() - 1);
        if self.left.get() == 0 { std::panic::resume_unwind(Box::new(())) }
        self.s.bits[y * self.s.n + x] != 0
    }
}
fn main() {
    let s = Symbol::new(4, 1, 2, &[Seg::Byte(b"before and after".to_vec())]);
    let other = Symbol::new(4, 1, 7, &[Seg::Byte(b"something else entirely, longer".to_vec())]);
    for at in [5, 40, 100, 300, 600, 800] {
        let g = rqrr::Grid::new(Abandon { s: other.clone(), left: std::cell::Cell::new(at) });
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| g.decode().is_ok()));
        assert!(r.is_err());
        let r = s.grid().decode().map(|x| x.1);
        assert_eq!(r.as_deref(), Ok("before and after"), "after a call abandoned at module {at}");
    }
}
'''
