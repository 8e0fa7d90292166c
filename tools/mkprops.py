#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the long statements stay reviewable)."""
import json, os, sys
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p("C01","Correctable symbol damage never changes what is decoded",
 "For every QR symbol (any version 1-40, error-correction level, mask and sequence of numeric, alphanumeric, byte, kanji and ECI segments) in which each block has at most half as many damaged codewords as it has parity codewords, and in which either the first format-information copy has at most three wrong bits or the first copy is unreadable and the second has at most three, decoding returns exactly the original payload bytes and the original version, level and mask. This holds whether a damaged module is permanently wrong or gives a different answer every time it is read. Damage to finder, timing, alignment, version-information and remainder modules has no effect on the result.",
 ["inputs","fault_sequences"],
 "all versions x levels x masks x segment sequences x all placements of permanent and transient module faults within the correction budget",
 "The tests decode about ten clean or lightly damaged images (versions 1, 3, 11, 13, 14); no test injects damage up to the budget, no test damages the format copies and still expects success, and no test has a module that changes between reads.",
 ["src/decode.rs","src/version_db.rs"],
 [("block error correction","src/decode.rs correct_block, berlekamp_massey, block_syndromes"),("de-interleaving","src/decode.rs codestream_ecc"),("format recovery from two copies","src/decode.rs read_format, correct_format"),("function-module map","src/decode.rs reserved_cell"),("block structure table","src/version_db.rs")],
 ["Grid::decode","Grid::decode_to","MetaData"])

p("C02","Uncorrectable damage is reported and never turned into output",
 "When neither the symbol as given nor its mirror image can be error-corrected, decoding returns an error that describes the symbol as given (size of no known version, format information unreadable in both copies, or data uncorrectable) and not one byte is offered to the output. Data of a block that still fails its parity check after correction is never delivered as a success. Whatever the module matrix contains, and whatever its size, decoding returns instead of panicking.",
 ["inputs","fault_sequences"],
 "all symbols x all damage beyond the budget (bursts, torn symbols, noise, lost rows), all matrix sizes",
 "Two test images cover one DataEcc and one FormatEcc case; nothing checks that the writer stays untouched, and nothing covers small or odd sizes, torn symbols or damage just beyond the budget.",
 ["src/decode.rs","src/lib.rs"],
 [("correct whole symbol before interpreting it","src/decode.rs decode, codestream_ecc"),("post-correction syndrome check","src/decode.rs correct_block"),("fallback keeps the first error","src/decode.rs decode"),("size check","src/decode.rs Version::from_size, read_format")],
 ["Grid::decode_to","Grid::decode","Grid::get_raw_data"])

p("C03","Output streams get exactly the payload, or a prefix and an I/O error",
 "Whatever the writer does - accept only part of a buffer, be interrupted and ask for a retry, fill up, fail or report zero progress at any byte - the bytes it has accepted are at every moment a prefix of the payload, in order and without loss or duplication. Decoding to a writer reports success exactly when the writer accepted the whole payload, retries interrupted writes, and otherwise reports an I/O error. Once a write has failed for good, nothing more is written.",
 ["fault_sequences","inputs"],
 "all payloads x all sequences of writer behaviours (short write, EINTR, error, zero progress, device full) at every call",
 "The only writer test uses a writer that fails on its first call; short writes, interruptions and failures in the middle of the output are never exercised.",
 ["src/decode.rs","src/lib.rs"],
 [("write_all for every emitted group, error mapped and propagated","src/decode.rs decode_numeric, decode_alpha, decode_byte, decode_kanji")],
 ["Grid::decode_to"])

p("C04","A malformed payload yields a typed error after at most a true prefix",
 "If an error-free symbol carries a bit stream that is cut short inside a segment or contains an unsupported segment type, decoding fails with the underflow error or the unknown-type error respectively, and what reached the writer is every complete segment before the fault followed by at most a prefix of the content of the faulty segment. Decoding to a string fails with the encoding error exactly when the payload is not UTF-8 and otherwise returns the same bytes as decoding to a writer. Bits after the terminator are ignored.",
 ["inputs","fault_sequences"],
 "all segment sequences x all cut points and corrupted headers in the stream a faulty producer stored, with and without a faulty writer",
 "tests/test_errors.rs states that underflow, overflow and unknown data type are not tested at all because they need manipulated grids.",
 ["src/decode.rs","src/lib.rs"],
 [("bits-remaining checks","src/decode.rs decode_eci, decode_kanji, decode_byte, alpha_tuple, numeric_tuple"),("mode dispatch and terminator","src/decode.rs decode_payload"),("UTF-8 check","src/lib.rs Grid::decode")],
 ["Grid::decode_to","Grid::decode"])

p("C05","Concurrent callers never influence each other's results",
 "Any number of threads may decode, read raw data, prepare and scan at the same time, on their own or on shared grids, and may call back into the library from a grid, a pixel source or a writer; under every interleaving each call returns what it returns when it runs alone, and all calls complete. Prepared images and detected grids can be moved to and shared between threads.",
 ["schedules","histories"],
 "all interleavings, at basic-block granularity, of concurrent and re-entrant calls over shared and private grids and images",
 "Every test is a single call sequence on private objects; the test runner's own parallelism is uncontrolled and checks nothing across threads.",
 ["src/decode.rs","src/prepare.rs","src/detect.rs","src/identify/grid.rs","src/lib.rs"],
 [("no shared mutable state; decoding takes the grid by shared reference and keeps scratch on the stack","src/decode.rs, src/lib.rs"),("scan state lives in the prepared image only","src/prepare.rs")],
 ["Grid::decode","Grid::decode_to","Grid::get_raw_data","PreparedImage::prepare*","PreparedImage::detect_grids"])

p("C06","A cancelled or failed call leaves nothing behind",
 "If a call is abandoned at an arbitrary point - a panic unwinding out of the caller's grid, pixel source, image buffer or writer, or a writer error - then every other object, every grid that was only being read, and every clone made before the call behaves afterwards exactly as if the abandoned call had never been made. Repeating an abandoned decode gives the full result, and building an image again from the same pixels gives the same image. (An image whose own detection was interrupted is only guaranteed to keep its division into white and dark.)",
 ["crash_points","histories"],
 "all calls x every callback at which the call can be abandoned x all follow-up call sequences",
 "No test unwinds out of a callback, and no test calls the library again after a failed write.",
 ["src/decode.rs","src/prepare.rs","src/lib.rs"],
 [("decode works on local state only","src/decode.rs"),("grids reference the image read-only","src/identify/grid.rs RefGridImage"),("trial groupings work on a copy","src/prepare.rs find_groupings")],
 ["Grid::decode_to","PreparedImage::prepare_from_greyscale","PreparedImage::detect_grids"])

p("C07","Scanning any captured frame terminates without panicking",
 "For every image of every size - including empty, one-pixel-wide, very large-featured, noisy, torn, partially overwritten or deliberately confusing frames - preparing it, detecting grids, and decoding, raw-reading and locating every grid found completes without a panic. The amount of work is bounded by the image's size and the number of finder-like patterns in it; no frame makes a scan run forever. No access outside the image buffer is ever made.",
 ["inputs","fault_sequences"],
 "all frames produced by a capture pipeline with tearing, lost and repeated lines, noise bursts, occlusion, exposure steps and geometric distortion, plus degenerate sizes",
 "Two regression images (should-not-panic-1/2) are the only robustness tests.",
 ["src/prepare.rs","src/detect.rs","src/identify/grid.rs","src/identify/match_capstones.rs","src/geometry.rs"],
 [("degenerate geometry is rejected rather than used","src/geometry.rs Perspective::create, line_intersect; src/identify/grid.rs from_group"),("clamped pixel lookup","src/prepare.rs get_pixel_at_point"),("bounded spiral search","src/identify/grid.rs find_alignment_pattern"),("explicit-stack flood fill","src/prepare.rs flood_fill")],
 ["PreparedImage::prepare*","PreparedImage::detect_grids","Grid::decode","Grid::get_raw_data"])

p("C08","A legible code in the frame is read, whatever frames came before",
 "A frame that shows a QR code of any version with a full quiet zone - at an integer scale of at least three pixels per module, upright or turned by a quarter, half or three-quarter turn, under uneven lighting and mild sensor noise, with data damage of at most half of what the error correction of each block can absorb, and whose data do not happen to contain something that resembles a finder pattern - yields a grid of the right size that decodes to the original payload and metadata. The reported bounds enclose the code's own top-left, top-right, bottom-right and bottom-left corners in that order, to within two and a half modules. This holds for every legible frame of a stream regardless of how many damaged or unreadable frames were processed before it.",
 ["inputs","histories","fault_sequences"],
 "all payloads, versions, placements, quarter turns and lighting, over frame streams with arbitrary faulty frames in between",
 "The tests read about eight fixed images, one frame each, none above version 14, and never check the bounds.",
 ["src/prepare.rs","src/detect.rs","src/identify/grid.rs","src/identify/match_capstones.rs","src/geometry.rs","src/version_db.rs"],
 [("adaptive thresholding","src/prepare.rs prepare"),("finder-pattern search","src/detect.rs"),("grouping","src/identify/match_capstones.rs, src/prepare.rs find_groupings"),("grid size from timing pattern, alignment search, perspective refinement","src/identify/grid.rs")],
 ["PreparedImage::detect_grids","Grid::bounds","Grid::decode"])

p("C09","Every code in the scene is reported exactly once, however cluttered it is",
 "In a scene with several upright legible codes (versions 1 to 6, integer scale of at least three pixels per module), placed so that no three finder patterns of different codes lie like the three corners of one code, and with any amount of unrelated dark clutter that stays clear of their quiet zones and contains no complete finder pattern, one scan reports every code exactly once, each with its own size, bounds and payload, and nothing else. Clutter that resembles parts of finder patterns, in any number - also far more regions than the scanner can label at once - neither hides nor duplicates a code.",
 ["inputs","histories"],
 "all placements of one to several codes and all amounts of finder-like clutter, in particular more distinct regions than the scanner can label at once",
 "Tests have at most three codes in a fixed picture and never exceed the scanner's region labels, so label recycling is never checked.",
 ["src/prepare.rs","src/detect.rs","src/identify/match_capstones.rs"],
 [("region labels recycled least-recently-used, repainting evicted regions","src/prepare.rs get_region"),("claimed finder patterns are recoloured","src/detect.rs create_capstone"),("used-finder bookkeeping","src/prepare.rs find_groupings")],
 ["PreparedImage::detect_grids"],
 state=[("cache","at most 251 live region labels; the least recently used is recycled","src/prepare.rs PreparedImage")])

p("C10","Pixel sources are consumed exactly once and storage does not matter",
 "Building an image or a grid from a callback asks for every coordinate exactly once, in row order, and for no coordinate outside the requested size, so a streaming source can be used. Every access to a caller-supplied image buffer stays inside it. The outcome - grids, sizes, bounds, modules, decoded data - depends only on the pixel values, not on whether they came from a callback, an image-library buffer or a caller's own image type, nor on how that type stores them.",
 ["inputs","configurations","histories"],
 "all image contents and sizes x all ways of supplying the pixels x stateful sources",
 "Tests only use the image library's own buffer; the callback constructors are not covered except for one 21x21 grid.",
 ["src/prepare.rs","src/lib.rs"],
 [("raster loops over the callback","src/prepare.rs prepare_from_bitmap, prepare_from_greyscale; src/lib.rs SimpleGrid::from_func"),("buffer abstraction","src/prepare.rs ImageBuffer")],
 ["PreparedImage::prepare","PreparedImage::prepare_from_greyscale","PreparedImage::prepare_from_bitmap","SimpleGrid::from_func"])

p("C11","Scanning recolours dark pixels only; black and white never swap",
 "Preparation turns every pixel of the buffer into either white or black, and from then on no operation ever makes a white pixel dark or a dark pixel white: at every moment of a scan the set of white pixels is the one preparation produced. Reading modules through a detected grid therefore gives the same values before and after any further detection, and any number of reads leave the image unchanged.",
 ["histories","inputs"],
 "all frames x every intermediate state of every sequence of detect, clone and decode operations",
 "Unit tests check flood fill on a 3x3 picture; nothing checks the image after a scan, in particular after label recycling.",
 ["src/prepare.rs","src/detect.rs","src/identify/grid.rs"],
 [("flood fill from one dark shade to another","src/prepare.rs flood_fill, repaint_and_apply"),("evicted labels repainted black","src/prepare.rs get_region")],
 ["PreparedImage::get_pixel_at","caller-supplied image buffer"])

p("C12","A clone behaves exactly like the original from then on",
 "A prepared image may be cloned at any point of its life. From that point, any operation on the clone gives the same results as the same operation on the original would, and operations on either never affect the other.",
 ["histories"],
 "all frames x all points in a history at which the clone is taken x all operation sequences afterwards",
 "No test clones a prepared image; the library clones internally while testing groupings.",
 ["src/prepare.rs"],
 [("copying buffer and region labels","src/prepare.rs impl Clone for PreparedImage")],
 ["PreparedImage::clone","PreparedImage::detect_grids"])

p("C13","Raw data are the stored modules, verbatim, faults included",
 "Reading the raw data of a symbol whose format information is readable returns the correct metadata and exactly one bit per data module, in codeword order, each equal to the module as stored - still masked, with damage neither corrected nor spread. The number of bits is the number of data modules of the version, and the call never depends on whether the data are correctable.",
 ["inputs","fault_sequences"],
 "all versions, levels and masks x all patterns of damaged data modules",
 "The raw-data call has no test.",
 ["src/decode.rs","src/lib.rs"],
 [("zigzag reader","src/decode.rs read_data, read_bit"),("function-module map","src/decode.rs reserved_cell")],
 ["Grid::get_raw_data","RawData"])

p("C14","A long-running scanner uses bounded memory and leaks nothing",
 "Over any sequence of scans and decodes, including ones that fail, are cancelled or hit writer errors, memory held after the results are dropped does not grow with the number of operations. While a scan runs, at most four copies of the image exist, and the memory held besides them stays proportional to the number of horizontal runs of dark pixels, not to the dark area (within 128 bytes per run, 16 bytes per column and 64 KiB). A decode needs at most 256 KiB whatever the symbol. No image buffer outlives the object it was given to.",
 ["histories","fault_sequences"],
 "all operation sequences with failures and cancellations at arbitrary callbacks",
 "Tests are one-shot and do not measure memory.",
 ["src/prepare.rs","src/decode.rs","src/detect.rs"],
 [("ownership; scratch dropped with the call","src/prepare.rs flood_fill, find_groupings")],
 ["allocator"])

p("C15","Mirrored symbols decode like their originals",
 "A symbol read mirrored (rows and columns exchanged) decodes to the same payload and metadata as the original, with the same tolerance to damage, whether it is supplied as a module matrix or found in a mirrored picture. The mirrored reading is used only when the symbol as given cannot be corrected, and never changes the result of a symbol that can be.",
 ["inputs","fault_sequences"],
 "all symbols x all damage within the correction budget x both orientations",
 "One clean version-1 mirrored picture is tested.",
 ["src/decode.rs","src/lib.rs"],
 [("second attempt on the transposed grid","src/decode.rs decode; src/lib.rs MirroredGrid")],
 ["Grid::decode","Grid::decode_to"])

p("C16","Results do not depend on what was done before",
 "Decoding and raw reading are repeatable: in any sequence of operations over any set of grids and images, of any mix of versions, levels, damage and failures, each operation returns the same result as it would as the first operation of a fresh process, and returns it again when repeated. The grids of one scan can be decoded in any order and any number of times.",
 ["histories"],
 "all operation sequences over sets of grids and images with different parameters and outcomes",
 "Tests perform one operation per object and compare with one expected value.",
 ["src/decode.rs","src/lib.rs","src/prepare.rs","src/identify/grid.rs"],
 [("no state outside the objects passed in","src/decode.rs, src/lib.rs")],
 ["Grid::decode","Grid::decode_to","Grid::get_raw_data","PreparedImage::detect_grids"])

p("C17","Version and size convert into each other for all 40 versions",
 "The size of version v is 4v+17 for v in 1..40, converting that size back gives v, and sizes of no version (below 21 or above 180) are rejected.",
 ["inputs"],"all integers","Only the sizes in the test images are exercised.",
 ["src/decode.rs"],[("arithmetic","src/decode.rs Version::from_size, to_size")],["Version::from_size","Version::to_size"])

p("C18","Debug pictures on disk are complete and exact, or the dump fails loudly",
 "Writing the debug picture of a grid or of a prepared image either panics or leaves a file that reproduces the whole state: for a grid every module in its place, black or white; for an image every white pixel white, every plain black pixel black, and every recoloured region in one colour per shade that is neither. Short writes and interrupted system calls are retried, an older file of the same name is replaced completely, and a full disk or any other error is never mistaken for success. On a healthy disk the dump succeeds. Whatever happens, the grid or image is unchanged and can be dumped again.",
 ["inputs","fault_sequences"],"all grids and images (also while grids of the image are in use) x all outcomes of the file-system calls",
 "The helpers have no test.",
 ["src/lib.rs","src/prepare.rs"],[("picture of a grid","src/lib.rs BitGrid::write_grid_to"),("picture of an image, one colour per shade","src/prepare.rs write_state_to"),("encode, then write and check","src/lib.rs save_picture")],["files","BitGrid::write_grid_to","PreparedImage::write_state_to"])

p("C19","Every error has a distinct human-readable message",
 "Each error value formats to a non-empty message that names it, and no two error values share one.",
 ["inputs"],"all error values","No test formats errors.",
 ["src/lib.rs"],[("Display","src/lib.rs impl Display for DeQRError")],["DeQRError Display"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
open(out,"w").write("".join(json.dumps(d)+"\n" for d in P))
