PROPERTY = "C10"
NEEDS = "a matrix supplied by a callback that counts or consumes its calls"
BREAKS = "the last module of the matrix is asked for twice"
EDITS = [("src/lib.rs", "        SimpleGrid { cell_bitmap, size }", "        // The outermost module is part of every symbol\n        debug_assert!(size == 0 || { fill_func(size - 1, size - 1); c == size * size });\n\n        SimpleGrid { cell_bitmap, size }")]
DEMO = r'''
fn main() {
    for size in [0, 1, 21, 25] {
        let n = std::cell::Cell::new(0);
        rqrr::SimpleGrid::from_func(size, |_, _| { n.set(n.get() + 1); false });
        assert_eq!(n.get(), size * size);
    }
}
'''
