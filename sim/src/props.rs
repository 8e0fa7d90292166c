use crate::driver::Res;
use crate::*;

pub struct Prop {
    pub id: &'static str,
    pub run: fn(u64) -> Res,
    /// Simulated runs of the quick tier (about 45 s on 8 cores).
    pub quick_runs: u64,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub assumptions: &'static [&'static str],
}

const REAL: &str = "rqrr, every module, compiled from /repo's working tree with debug assertions and overflow checks; lru; g2p; the image crate's buffer types";
const STUB_MOD: &str = "module medium (a BitGrid owned by the simulator, or rqrr's own SimpleGrid filled from it) and output stream (a Write owned by the simulator); the symbol producer is an independent encoder written from ISO/IEC 18004";
const STUB_IMG: &str = "camera: an independent encoder and rasteriser, a capture pipeline with faults, pixel sources and image buffers owned by the simulator";
const STUB_LIFE: &str = "callers (tasks run by the simulator's scheduler), module medium, output stream, camera, pixel sources, image buffers, allocator accounting: all owned by the simulator";

const STUB_DISK: &str = "disk: libc's open64, write, writev, close and fsync are replaced for files below a scratch directory; caller, module medium, camera";

const A_ENC: &str = "the independent encoder and reference decoder in sim/src/qr.rs follow ISO/IEC 18004 (cross-checked against each other on every symbol)";
const A_SAMPLE: &str = "seeded sampling: a clean batch is evidence for the sampled executions only";
const A_HASH: &str = "foldhash is replaced by a vendored copy with fixed keys so that hash maps inside dependencies behave the same in every process";

pub static PROPS: &[Prop] = &[
    Prop { id: "C01", run: sc_decode::c01, quick_runs: 9_000,
        rule: "One run: a symbol (version, level, mask, producer-chosen segments) is stored in a simulated module medium, permanent and flaky module faults are injected up to the correction budget (styles: random, burst, per-block maximum, parity only, last blocks, ...), the format copies and function modules are damaged, and it is decoded one or several times; result must equal the stored payload. Versions x levels x masks are stratified over the run number. Non-trivial: at least one module fault was injected.",
        real: REAL, stub: STUB_MOD, assumptions: &[A_ENC, A_SAMPLE] },
    Prop { id: "C02", run: sc_decode::c02, quick_runs: 26_000,
        rule: "One run: damage beyond the budget (bursts, torn symbols, lost rows, noise, both format copies, block by block) or a matrix of arbitrary size and content; an independent reference decoder says which answers are right; errors must be of the right kind, nothing may reach the writer, nothing may panic. Non-trivial: the right answer is an error or the matrix is of no valid size.",
        real: REAL, stub: STUB_MOD, assumptions: &[A_ENC, A_SAMPLE] },
    Prop { id: "C03", run: sc_decode::c03, quick_runs: 45_000,
        rule: "One run: a symbol is decoded into a simulated stream that follows a drawn script of short writes, EINTR, errors, zero progress and a full device; after every call of the stream the accepted bytes must be a prefix of the payload; afterwards success must equal complete delivery. Non-trivial: at least one stream fault fired.",
        real: REAL, stub: STUB_MOD, assumptions: &[A_ENC, A_SAMPLE] },
    Prop { id: "C04", run: sc_decode::c04, quick_runs: 24_000,
        rule: "One run: a faulty producer cuts the bit stream inside a segment, stores an unsupported mode, flips stream bits, or stores text that is not UTF-8, in an otherwise perfect symbol; decoded to a writer (sometimes a faulty one) and to a string; compared with an executable reference of the segment grammar. Non-trivial: the right answer is not a plain success, or arbitrary bits follow the terminator.",
        real: REAL, stub: STUB_MOD, assumptions: &[A_ENC, A_SAMPLE] },
    Prop { id: "C05", run: sc_life::c05, quick_runs: 1_600,
        rule: "One run: 2-4 callers execute drawn plans of decode / raw / prepare / scan / clone / re-entrant calls on shared and private objects; the simulator decides after every instrumented edge who runs next, by drawn distances or by aiming at drawn places of the code that were executed in the run; half the runs are series of short sessions over a small pool; each result must equal the one known from the reference or obtained alone. Non-trivial: more hand-overs than callers. Distinct by digest of the hand-over sequence and results.",
        real: REAL, stub: STUB_LIFE, assumptions: &["one caller runs at a time: effects of weak memory ordering are out of reach (the library uses no atomics)", A_SAMPLE, A_HASH] },
    Prop { id: "C06", run: sc_life::c06, quick_runs: 7_000,
        rule: "One run: several calls are abandoned by unwinding out of a drawn callback (module read, pixel source, image access, write) or fail through the writer; afterwards every object that stood by, every grid that was only read and every earlier clone must answer as before. Non-trivial: at least one call was really abandoned or failed.",
        real: REAL, stub: STUB_LIFE, assumptions: &[A_ENC, A_SAMPLE, A_HASH] },
    Prop { id: "C07", run: sc_image::c07, quick_runs: 26_000,
        rule: "One run: a frame from a capture pipeline (codes, finder look-alikes, capstone triples with degenerate geometry, noise, patterns, degenerate sizes; torn, skewed, repeated and lost lines, bursts, occlusion, exposure steps) is prepared, scanned, and everything found is decoded, raw-read and located; no panic, no overflow, no access outside the buffer, executed edges within the work bound. Non-trivial: the frame has more than 49 pixels.",
        real: REAL, stub: STUB_IMG, assumptions: &["work is measured in executed edges of the instrumented crates", A_SAMPLE, A_HASH] },
    Prop { id: "C08", run: sc_image::c08, quick_runs: 3_600,
        rule: "One run: a stream of frames, some unreadable, each legible one showing one code (version, quarter turn, scale, lighting, noise, data damage within half the budget drawn); every legible frame must yield a grid of the right size, bounds and payload. Non-trivial: at least one legible frame was processed.",
        real: REAL, stub: STUB_IMG, assumptions: &[A_ENC, "symbols whose data contain something resembling a finder pattern are set aside by an independent, generous test", A_SAMPLE, A_HASH] },
    Prop { id: "C09", run: sc_image::c09, quick_runs: 8_000,
        rule: "One run: one to several upright codes plus drawn amounts of clutter (bars, finder fragments, blobs, hundreds of regions), scanned; the multiset of (size, bounds, payload) must be that of the codes. Non-trivial: always (at least one code).",
        real: REAL, stub: STUB_IMG, assumptions: &[A_ENC, "placements in which finders of different codes line up like one code's, and clutter that is a finder look-alike, are set aside", A_SAMPLE, A_HASH] },
    Prop { id: "C10", run: sc_life::c10, quick_runs: 7_000,
        rule: "One run: the same pixels (or modules) are supplied through every constructor and through image types with different storage layouts; sources must be asked row by row exactly once, accesses stay inside the buffer, and all outcomes agree. Non-trivial: image with pixels.",
        real: REAL, stub: STUB_IMG, assumptions: &[A_SAMPLE, A_HASH] },
    Prop { id: "C11", run: sc_life::c11, quick_runs: 15_000,
        rule: "One run: a history of detect / read / clone / abandoned detect on one frame; the simulated buffer checks on every single write that no pixel changes between white and dark after preparation. Non-trivial: the library wrote to the buffer.",
        real: REAL, stub: STUB_IMG, assumptions: &[A_SAMPLE, A_HASH] },
    Prop { id: "C12", run: sc_life::c12, quick_runs: 10_000,
        rule: "One run: an image lives for a drawn number of scans, is cloned, then original and clone go through the same operations in drawn order; results and pixel states must agree step by step, and neither may change the other. Non-trivial: scanned before the clone, or a grid was found.",
        real: REAL, stub: STUB_IMG, assumptions: &[A_SAMPLE, A_HASH] },
    Prop { id: "C13", run: sc_decode::c13, quick_runs: 120_000,
        rule: "One run: a symbol whose data modules carry arbitrary faults (damage, blanking, overwriting, noise) and whose format copies are damaged within their budget is read raw; every bit must equal the stored module in the order the standard prescribes. Versions x levels x masks are stratified. Non-trivial: at least one module fault was injected.",
        real: REAL, stub: STUB_MOD, assumptions: &[A_ENC, A_SAMPLE] },
    Prop { id: "C14", run: sc_life::c14, quick_runs: 720,
        rule: "One run: a warm-up pass and a long pass over the same drawn operation mix (with failures and cancellations) under an accounting allocator; memory held may not grow from pass to pass, the peak of a scan (frames with very large dark areas among them) stays, besides at most four copies of the image, within 128 bytes per horizontal dark run, 16 bytes per column and 64 KiB, the peak of a decode within 256 KiB, and no image buffer outlives its owner. Non-trivial: always.",
        real: REAL, stub: STUB_LIFE, assumptions: &["failing allocations cannot be injected: allocation failure aborts a Rust program by design", A_SAMPLE, A_HASH] },
    Prop { id: "C15", run: sc_decode::c15, quick_runs: 8_000,
        rule: "One run: a symbol with faults within the budget is presented mirrored, as matrix or in a mirrored picture, and as given; a matrix is also built that is decodable both ways (the given one must win). Non-trivial: the symbol was presented mirrored.",
        real: REAL, stub: STUB_MOD, assumptions: &[A_ENC, A_SAMPLE, A_HASH] },
    Prop { id: "C16", run: sc_life::c16, quick_runs: 1_300,
        rule: "One run: a long drawn sequence of operations over a pool of matrices and frames of mixed versions, levels, damage and outcome, with writer faults in between; every result must equal the reference answer (matrices) or the one of a fresh object (frames); some runs repeat one operation tens of thousands of times. Non-trivial: always.",
        real: REAL, stub: STUB_LIFE, assumptions: &[A_ENC, A_SAMPLE, A_HASH] },
    Prop { id: "C18", run: sc_life::c18, quick_runs: 12_000,
        rule: "One run: debug pictures of grids and of prepared images are written to a simulated disk (std::fs system calls answered by a drawn script of interrupted and failing opens, short, interrupted and failing writes and a full device, with an older, longer file in place); whatever is reported as written must read back exactly; a healthy disk must succeed; the objects must be unchanged. Non-trivial: the disk failed or a picture took several writes.",
        real: REAL, stub: STUB_DISK, assumptions: &[A_SAMPLE, A_HASH] },
];
