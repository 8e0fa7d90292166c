PROPERTY = "C16"
NEEDS = "65,536 reads of one version after a read of a smaller or larger version"
BREAKS = "function modules are marked with a 16-bit stamp in a scratch map that is never cleared; when the stamp comes round again, old marks of another version count"
EDITS = [("src/decode.rs", """    let mut y = code.size() - 1;
    let mut x = code.size() - 1;
    let mut neg_dir = true;
""", """    // Scratch map of the function modules; a cell counts if it carries the stamp of this read
    use std::cell::{Cell, RefCell};
    thread_local! {
        static STAMP: Cell<u16> = const { Cell::new(0) };
        static MARKS: RefCell<Vec<u16>> = const { RefCell::new(Vec::new()) };
    }
    let stamp = STAMP.with(|s| {
        s.set(s.get().wrapping_add(1));
        s.get()
    });
    let mut marks = MARKS.with(|m| m.take());
    marks.resize(177 * 177, stamp.wrapping_sub(1));
    for y in 0..code.size().min(177) {
        for x in 0..code.size().min(177) {
            if reserved_cell(meta.version, y, x) {
                marks[y * 177 + x] = stamp;
            }
        }
    }
    let reserved_cell = |_: Version, y: usize, x: usize| match marks.get(y * 177 + x) {
        Some(m) if y < 177 && x < 177 => *m == stamp,
        _ => reserved_cell(meta.version, y, x),
    };

    let mut y = code.size() - 1;
    let mut x = code.size() - 1;
    let mut neg_dir = true;
"""), ("src/decode.rs", """        y = new_y;
        neg_dir = new_neg_dir;
    }

    ds
}""", """        y = new_y;
        neg_dir = new_neg_dir;
    }
    let _ = &reserved_cell;
    MARKS.with(|m| *m.borrow_mut() = marks);

    ds
}""")]
DEMO = r'''
fn main() {
    let a = Symbol::new(2, 1, 0, &[Seg::Byte(b"version two".to_vec())]).grid();
    let b = Symbol::new(1, 1, 0, &[Seg::Byte(b"one".to_vec())]).grid();
    assert_eq!(b.decode().unwrap().1, "one");
    assert_eq!(a.decode().unwrap().1, "version two");
    for k in 0..70_000 {
        assert_eq!(b.get_raw_data().unwrap().1.len, 208, "read {k}");
    }
}
'''
