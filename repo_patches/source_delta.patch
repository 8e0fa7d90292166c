From a7f06e80a919c662bb1189c42b4975e041cd2dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:42 +0000
Subject: [PATCH 01/13] fix: version 21 bottom-right alignment pattern is
 centred on 94, not 92

Data modules under the mis-placed patterns were read from the wrong place,
so up to all of the error correction budget of a version 21 symbol was spent
on errors the reader itself introduced.
---
 src/version_db.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/version_db.rs b/src/version_db.rs
index 80bdae8..f8b68da 100644
--- a/src/version_db.rs
+++ b/src/version_db.rs
@@ -551,7 +551,7 @@ pub const VERSION_DATA_BASE: [VersionInfo; 41] = [
     },
     VersionInfo {
         data_bytes: 1156,
-        apat: [6, 28, 50, 72, 92, 0, 0],
+        apat: [6, 28, 50, 72, 94, 0, 0],
         ecc: [
             RSParameters {
                 bs: 68,
-- 
2.43.0


From 68325bb010db9cc41e326d945fb0c849cc2eeec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:21 +0000
Subject: [PATCH 02/13] fix: take the extra data word of long blocks from where
 it is stored

Only the long blocks have a last data word, so in the interleaved stream that
row starts with the first long block. Every long block was read with one wrong
codeword, which cost one error of its correction budget.
---
 src/decode.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/decode.rs b/src/decode.rs
index 98866f3..35c6bc1 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -359,7 +359,9 @@ fn codestream_ecc(meta: &MetaData, ds: RawData) -> DeQRResult<CorrectedDataStrea
         let num_ec = ecc.bs - ecc.dw;
         #[allow(clippy::needless_range_loop)]
         for j in 0..ecc.dw {
-            dst[j] = ds.data[j * bc + i];
+            // The last data word exists only in the long blocks, the short ones are skipped there
+            let skip = if j < sb_ecc.dw { 0 } else { sb_ecc.ns };
+            dst[j] = ds.data[j * bc + i - skip];
         }
         for j in 0..num_ec {
             dst[ecc.dw + j] = ds.data[ecc_offset + j * bc + i];
-- 
2.43.0


From 726b00a65abaaf400f8d6cff323f1ae3bf4aaace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:57 +0000
Subject: [PATCH 03/13] fix: report InvalidVersion for grids too small to hold
 format information

Reading the format modules of a grid smaller than the smallest QR code asked
for modules outside the grid and underflowed while computing their position.
---
 src/decode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decode.rs b/src/decode.rs
index 35c6bc1..d5d8d5e 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -680,6 +680,8 @@ fn correct_format(mut word: u16) -> DeQRResult<u16> {
 }
 
 fn read_format(code: &dyn BitGrid) -> DeQRResult<MetaData> {
+    // Grids too small for any version have no room for the format information
+    let version = Version::from_size(code.size())?;
     let mut format = 0;
 
     // Try first location
@@ -706,7 +708,6 @@ fn read_format(code: &dyn BitGrid) -> DeQRResult<MetaData> {
     let fdata = verified_format >> 10;
     let ecc_level = fdata >> 3;
     let mask = fdata & 7;
-    let version = Version::from_size(code.size())?;
 
     Ok(MetaData {
         version,
-- 
2.43.0


From 1907d139db1c80ca894a105932cfe13ba9b71837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:06 +0000
Subject: [PATCH 04/13] fix: do not accept format information more than 3 bits
 from a valid word

Some words with more errors than the code can correct were turned into an
arbitrary valid word, and the intact second copy was never looked at.
---
 src/decode.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/decode.rs b/src/decode.rs
index d5d8d5e..6c1b692 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -664,6 +664,7 @@ fn correct_format(mut word: u16) -> DeQRResult<u16> {
      * to get S_1 .. S_6 (but we index them from 0).
      */
     if let Err(s) = format_syndromes(word) {
+        let received = word;
         let sigma = berlekamp_massey(&s, 6);
 
         /* Now, find the roots of the polynomial */
@@ -675,6 +676,10 @@ fn correct_format(mut word: u16) -> DeQRResult<u16> {
 
         // Double CHECK syndromes
         format_syndromes(word).map_err(|_| DeQRError::FormatEcc)?;
+        // The code corrects at most 3 errors, anything further away is not a correction
+        if (received ^ word).count_ones() > 3 {
+            return Err(DeQRError::FormatEcc);
+        }
     }
     Ok(word)
 }
-- 
2.43.0


From f02d2d6e65efed62c35549740a329f703ef599f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:55 +0000
Subject: [PATCH 05/13] fix: scanning an image without columns reads outside of
 it

---
 src/detect.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/detect.rs b/src/detect.rs
index 216f8e0..103adb1 100644
--- a/src/detect.rs
+++ b/src/detect.rs
@@ -37,6 +37,9 @@ where
     S: ImageBuffer,
 {
     let mut res = Vec::new();
+    if img.width() == 0 {
+        return res;
+    }
 
     for y in 0..img.height() {
         let mut finder = LineScanner::new(img.get_pixel_at(0, y));
-- 
2.43.0


From 6f08a18b27cb7c2321d0e7cc5ced29f02c8a5d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:28 +0000
Subject: [PATCH 06/13] fix: corner scores of wide regions overflow i32

---
 src/detect.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/detect.rs b/src/detect.rs
index 103adb1..39f9119 100644
--- a/src/detect.rs
+++ b/src/detect.rs
@@ -277,7 +277,7 @@ where
 struct FirstCornerFinder {
     initial: Point,
     best: Point,
-    score: i32,
+    score: i64,
 }
 
 impl FirstCornerFinder {
@@ -296,9 +296,9 @@ impl FirstCornerFinder {
 
 impl AreaFiller for FirstCornerFinder {
     fn update(&mut self, row: Row) {
-        let dy = (row.y as i32) - self.initial.y;
-        let l_dx = (row.left as i32) - self.initial.x;
-        let r_dx = (row.right as i32) - self.initial.x;
+        let dy = (row.y as i64) - self.initial.y as i64;
+        let l_dx = (row.left as i64) - self.initial.x as i64;
+        let r_dx = (row.right as i64) - self.initial.x as i64;
 
         let l_dist = l_dx * l_dx + dy * dy;
         let r_dist = r_dx * r_dx + dy * dy;
@@ -333,7 +333,7 @@ impl AreaFiller for FirstCornerFinder {
 struct AllCornerFinder {
     baseline: Point,
     best: [Point; 4],
-    scores: [i32; 4],
+    scores: [i64; 4],
 }
 
 impl AllCornerFinder {
@@ -343,8 +343,10 @@ impl AllCornerFinder {
             y: corner.y - initial.y,
         };
 
-        let parallel_score = initial.x * baseline.x + initial.y * baseline.y;
-        let orthogonal_score = -initial.x * baseline.y + initial.y * baseline.x;
+        let (x, y) = (initial.x as i64, initial.y as i64);
+        let (base_x, base_y) = (baseline.x as i64, baseline.y as i64);
+        let parallel_score = x * base_x + y * base_y;
+        let orthogonal_score = -x * base_y + y * base_x;
 
         AllCornerFinder {
             baseline,
@@ -365,12 +367,13 @@ impl AllCornerFinder {
 
 impl AreaFiller for AllCornerFinder {
     fn update(&mut self, row: Row) {
-        let l_par_score = (row.left as i32) * self.baseline.x + (row.y as i32) * self.baseline.y;
-        let l_ort_score = -(row.left as i32) * self.baseline.y + (row.y as i32) * self.baseline.x;
+        let (base_x, base_y) = (self.baseline.x as i64, self.baseline.y as i64);
+        let l_par_score = (row.left as i64) * base_x + (row.y as i64) * base_y;
+        let l_ort_score = -(row.left as i64) * base_y + (row.y as i64) * base_x;
         let l_scores = [l_par_score, l_ort_score, -l_par_score, -l_ort_score];
 
-        let r_par_score = (row.right as i32) * self.baseline.x + (row.y as i32) * self.baseline.y;
-        let r_ort_score = -(row.right as i32) * self.baseline.y + (row.y as i32) * self.baseline.x;
+        let r_par_score = (row.right as i64) * base_x + (row.y as i64) * base_y;
+        let r_ort_score = -(row.right as i64) * base_y + (row.y as i64) * base_x;
         let r_scores = [r_par_score, r_ort_score, -r_par_score, -r_ort_score];
 
         for j in 0..4 {
-- 
2.43.0


From b9cf30bc48d63a952f84826ebde80f02194c77e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:28 +0000
Subject: [PATCH 07/13] fix: reject capstones whose rotated corners have no
 perspective instead of panicking

Three of the corners of a bent region can lie on a line, then only some of the
four rotations have a perspective.
---
 src/identify/grid.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/identify/grid.rs b/src/identify/grid.rs
index 805e261..6a35eb2 100644
--- a/src/identify/grid.rs
+++ b/src/identify/grid.rs
@@ -56,9 +56,9 @@ impl SkewedGridLocation {
         /* Rotate each capstone so that corner 0 is top-left with respect
          * to the grid.
          */
-        rotate_capstone(&mut group.0, &h0, &hd);
-        rotate_capstone(&mut group.1, &h0, &hd);
-        rotate_capstone(&mut group.2, &h0, &hd);
+        rotate_capstone(&mut group.0, &h0, &hd)?;
+        rotate_capstone(&mut group.1, &h0, &hd)?;
+        rotate_capstone(&mut group.2, &h0, &hd)?;
 
         /* Check the timing pattern. This doesn't require a perspective
          * transform.
@@ -164,7 +164,7 @@ where
     Some(jiggle_perspective(img, initial, grid_size))
 }
 
-fn rotate_capstone(cap: &mut CapStone, h0: &Point, hd: &Point) {
+fn rotate_capstone(cap: &mut CapStone, h0: &Point, hd: &Point) -> Option<()> {
     let (best_idx, _) = cap
         .corners
         .iter()
@@ -174,8 +174,8 @@ fn rotate_capstone(cap: &mut CapStone, h0: &Point, hd: &Point) {
 
     /* Rotate the capstone */
     cap.corners.rotate_left(best_idx);
-    cap.c = geometry::Perspective::create(&cap.corners, 7.0, 7.0)
-        .expect("rotated perspective can't fail");
+    cap.c = geometry::Perspective::create(&cap.corners, 7.0, 7.0)?;
+    Some(())
 }
 
 //* Try the measure the timing pattern for a given QR code. This does
-- 
2.43.0


From f66541687889b2cd8e4263e54d51c098aeefa6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:28 +0000
Subject: [PATCH 08/13] fix: intersecting the edges of large capstones
 overflows i32

---
 src/geometry.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index 94d89ae..11d6c96 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -85,14 +85,14 @@ impl Perspective {
 
 pub fn line_intersect(p0: &Point, p1: &Point, q0: &Point, q1: &Point) -> Option<Point> {
     /* (a, b) is perpendicular to line p */
-    let a = -(p1.y - p0.y);
-    let b = p1.x - p0.x;
+    let a = -(p1.y - p0.y) as i64;
+    let b = (p1.x - p0.x) as i64;
     /* (c, d) is perpendicular to line q */
-    let c = -(q1.y - q0.y);
-    let d = q1.x - q0.x;
+    let c = -(q1.y - q0.y) as i64;
+    let d = (q1.x - q0.x) as i64;
     /* e and f are dot products of the respective vectors with p and q */
-    let e = a * p1.x + b * p1.y;
-    let f = c * q1.x + d * q1.y;
+    let e = a * p1.x as i64 + b * p1.y as i64;
+    let f = c * q1.x as i64 + d * q1.y as i64;
     /* Now we need to solve:
      *     [a b] [rx]   [e]
      *     [c d] [ry] = [f]
@@ -106,8 +106,8 @@ pub fn line_intersect(p0: &Point, p1: &Point, q0: &Point, q1: &Point) -> Option<
         None
     } else {
         Some(Point {
-            x: (d * e - b * f) / det,
-            y: (-c * e + a * f) / det,
+            x: i32::try_from((d * e - b * f) / det).ok()?,
+            y: i32::try_from((-c * e + a * f) / det).ok()?,
         })
     }
 }
-- 
2.43.0


From fdbf66a4451fa7c4932f12573dcb0b7681a5ef01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:28 +0000
Subject: [PATCH 09/13] fix: degenerate perspectives make a scan panic

A perspective can map points to (or beyond) infinity, which failed the
assertions in Perspective::map, and the estimate of the alignment pattern's
size based on such points overflowed or was absurdly large.
---
 src/geometry.rs      |  5 +----
 src/identify/grid.rs | 34 +++++++++++++++++++++++++---------
 2 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index 11d6c96..a113c90 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -52,10 +52,7 @@ impl Perspective {
         let x = x.round();
         let y = y.round();
 
-        assert!(x <= i32::MAX as f64);
-        assert!(x >= i32::MIN as f64);
-        assert!(y <= i32::MAX as f64);
-        assert!(y >= i32::MIN as f64);
+        // Points at or beyond the horizon are saturated, they are far outside of any image
         Point {
             x: x as i32,
             y: y as i32,
diff --git a/src/identify/grid.rs b/src/identify/grid.rs
index 6a35eb2..5e8613d 100644
--- a/src/identify/grid.rs
+++ b/src/identify/grid.rs
@@ -63,7 +63,7 @@ impl SkewedGridLocation {
         /* Check the timing pattern. This doesn't require a perspective
          * transform.
          */
-        let grid_size = measure_timing_pattern(img, &group);
+        let grid_size = measure_timing_pattern(img, &group)?;
 
         /* Make an estimate based for the alignment pattern based on extending
          * lines from capstones A and C.
@@ -187,7 +187,7 @@ fn rotate_capstone(cap: &mut CapStone, h0: &Point, hd: &Point) -> Option<()> {
 // * which is nearest the centre of the code. Using these points, we do
 // * a horizontal and a vertical timing scan.
 // */
-fn measure_timing_pattern<S>(img: &PreparedImage<S>, caps: &CapStoneGroup) -> usize
+fn measure_timing_pattern<S>(img: &PreparedImage<S>, caps: &CapStoneGroup) -> Option<usize>
 where
     S: ImageBuffer,
 {
@@ -197,16 +197,26 @@ where
     let tpet1 = caps.1.c.map(US[1], VS[1]);
     let tpet2 = caps.2.c.map(US[2], VS[2]);
 
+    // These lie within the capstones, unless a capstone has a degenerate perspective
+    let inside = |p: &Point| {
+        p.x >= 0 && (p.x as usize) < img.width() && p.y >= 0 && (p.y as usize) < img.height()
+    };
+    if !inside(&tpet0) || !inside(&tpet1) || !inside(&tpet2) {
+        return None;
+    }
+
     let hscan = timing_scan(img, &tpet1, &tpet2);
     let vscan = timing_scan(img, &tpet1, &tpet0);
 
     let scan = cmp::max(hscan, vscan);
 
     /* Choose the nearest allowable grid size */
-    assert!(scan >= 1);
+    if scan < 1 {
+        return None;
+    }
     let size = scan + 13;
     let ver = (size as f64 - 15.0).floor() as usize / 4;
-    ver * 4 + 17
+    Some(ver * 4 + 17)
 }
 
 fn timing_scan<S>(img: &PreparedImage<S>, p0: &Point, p1: &Point) -> usize
@@ -244,9 +254,15 @@ where
     let a = c0.c.map(u, v + 1.0);
     let (u, v) = c2.c.unmap(&align_seed);
     let c = c2.c.map(u + 1.0, v);
-    let size_estimate = ((a.x - align_seed.x) * -(c.y - align_seed.y)
-        + (a.y - align_seed.y) * (c.x - align_seed.x))
-        .unsigned_abs() as usize;
+    let (seed_x, seed_y) = (align_seed.x as f64, align_seed.y as f64);
+    let size_estimate = ((a.x as f64 - seed_x) * -(c.y as f64 - seed_y)
+        + (a.y as f64 - seed_y) * (c.x as f64 - seed_x))
+        .abs() as usize;
+
+    // No region can match something much bigger than the whole image
+    if size_estimate / 2 > img.width() * img.height() {
+        return None;
+    }
 
     /* Spiral outwards from the estimate point until we find something
      * roughly the right size. Don't look too far from the estimate
@@ -276,8 +292,8 @@ where
                 }
             }
 
-            align_seed.x += DX_MAP[dir];
-            align_seed.y += DY_MAP[dir];
+            align_seed.x = align_seed.x.saturating_add(DX_MAP[dir]);
+            align_seed.y = align_seed.y.saturating_add(DY_MAP[dir]);
         }
 
         // Cycle directions
-- 
2.43.0


From ee674e7cdba54db7af346e4d90cbf8067fb1d1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:02 +0000
Subject: [PATCH 10/13] fix: cloning a prepared image reverses the order in
 which its labels are recycled

---
 src/prepare.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/prepare.rs b/src/prepare.rs
index 27b77b4..597810c 100644
--- a/src/prepare.rs
+++ b/src/prepare.rs
@@ -20,7 +20,7 @@ where
 {
     fn clone(&self) -> Self {
         let mut cache = LruCache::new(self.cache.cap());
-        for (k, v) in self.cache.iter() {
+        for (k, v) in self.cache.iter().rev() {
             cache.put(*k, *v);
         }
 
-- 
2.43.0


From 129c9aebc95e65d16aabcc844b1b72df2af16e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:34 +0000
Subject: [PATCH 11/13] fix: report DataUnderflow when a character count is cut
 off by the end of the data

---
 src/decode.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/decode.rs b/src/decode.rs
index 6c1b692..1b9b25b 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -189,6 +189,9 @@ where
         _ => 12,
     };
 
+    if ds.bits_remaining() < nbits {
+        Err(DeQRError::DataUnderflow)?
+    }
     let count = ds.take_bits(nbits);
     if ds.bits_remaining() < count * 13 {
         Err(DeQRError::DataUnderflow)?
@@ -221,6 +224,9 @@ where
         _ => 16,
     };
 
+    if ds.bits_remaining() < nbits {
+        Err(DeQRError::DataUnderflow)?
+    }
     let count = ds.take_bits(nbits);
     if ds.bits_remaining() < count * 8 {
         Err(DeQRError::DataUnderflow)?;
@@ -242,6 +248,9 @@ where
         Version(10..=26) => 11,
         _ => 13,
     };
+    if ds.bits_remaining() < nbits {
+        Err(DeQRError::DataUnderflow)?
+    }
     let mut count = ds.take_bits(nbits);
     let mut buf = [0; 2];
 
@@ -290,6 +299,9 @@ where
         _ => 14,
     };
 
+    if ds.bits_remaining() < nbits {
+        Err(DeQRError::DataUnderflow)?
+    }
     let mut count = ds.take_bits(nbits);
     let mut buf = [0; 3];
     while count >= 3 {
-- 
2.43.0


From 25f9a5564af17c0b96126e03dbc80b403b179a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:12 +0000
Subject: [PATCH 12/13] fix: debug pictures are not silently truncated when the
 disk fills up

---
 src/lib.rs     | 14 +++++++++++++-
 src/prepare.rs |  2 +-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f176783..371ebb7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -148,10 +148,22 @@ pub trait BitGrid {
                 dyn_img.get_pixel_mut(x as u32, y as u32).0[0] = color;
             }
         }
-        dyn_img.save(p).unwrap();
+        save_picture(dyn_img, p);
     }
 }
 
+/// Encode the picture and write it to the given path
+///
+/// The `save` method of the image library does not report errors of its last write, so a full
+/// disk would leave a truncated picture unnoticed.
+#[cfg(feature = "img")]
+fn save_picture<I: Into<image::DynamicImage>>(picture: I, p: &str) {
+    let format = image::ImageFormat::from_path(p).unwrap();
+    let mut file = std::io::Cursor::new(Vec::new());
+    picture.into().write_to(&mut file, format).unwrap();
+    std::fs::write(p, file.into_inner()).unwrap();
+}
+
 /// Mirrored grid, switching x and y coordinates
 ///
 /// Some QR codes are read mirrored, even though the spec does not officially support it.
diff --git a/src/prepare.rs b/src/prepare.rs
index 597810c..009bbf8 100644
--- a/src/prepare.rs
+++ b/src/prepare.rs
@@ -428,7 +428,7 @@ where
                 }
             }
         }
-        dyn_img.save(p).unwrap();
+        crate::save_picture(dyn_img, p);
     }
 
     fn flood_fill<F>(&mut self, x: usize, y: usize, from: u8, to: u8, mut fill: F) -> F
-- 
2.43.0


From c55d3cef3a4034eef536491a0974c0629972022d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:18 +0000
Subject: [PATCH 13/13] fix: far apart finders in huge images no longer
 overflow the orientation tests

---
 src/identify/grid.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/identify/grid.rs b/src/identify/grid.rs
index 5e8613d..4489310 100644
--- a/src/identify/grid.rs
+++ b/src/identify/grid.rs
@@ -47,7 +47,7 @@ impl SkewedGridLocation {
         };
 
         /* Make sure A-B-C is clockwise */
-        if (group.1.center.x - h0.x) * -hd.y + (group.1.center.y - h0.y) * hd.x > 0 {
+        if line_score(&hd, group.1.center.x - h0.x, group.1.center.y - h0.y) > 0 {
             mem::swap(&mut group.0, &mut group.2);
             hd.x = -hd.x;
             hd.y = -hd.y
@@ -80,7 +80,7 @@ impl SkewedGridLocation {
         if grid_size > 21 {
             /* Try to find the actual location of the alignment pattern. */
             align = find_alignment_pattern(img, align, &group.0, &group.2)?;
-            let score = -hd.y * align.x + hd.x * align.y;
+            let score = line_score(&hd, align.x, align.y);
             let finder = LeftMostFinder {
                 line_p: hd,
                 best: align,
@@ -164,12 +164,18 @@ where
     Some(jiggle_perspective(img, initial, grid_size))
 }
 
+/// Measure how far, and on which side, a point is from the line through the origin with direction
+/// `line`. The products may not fit into 32 bits in huge images.
+fn line_score(line: &Point, x: i32, y: i32) -> i64 {
+    -i64::from(line.y) * i64::from(x) + i64::from(line.x) * i64::from(y)
+}
+
 fn rotate_capstone(cap: &mut CapStone, h0: &Point, hd: &Point) -> Option<()> {
     let (best_idx, _) = cap
         .corners
         .iter()
         .enumerate()
-        .min_by_key(|(_, a)| (a.x - h0.x) * (-hd.y) + (a.y - h0.y) * hd.x)
+        .min_by_key(|(_, a)| line_score(hd, a.x - h0.x, a.y - h0.y))
         .expect("corners cannot be empty");
 
     /* Rotate the capstone */
@@ -308,13 +314,13 @@ where
 struct LeftMostFinder {
     line_p: Point,
     best: Point,
-    score: i32,
+    score: i64,
 }
 
 impl AreaFiller for LeftMostFinder {
     fn update(&mut self, row: Row) {
-        let left_d = -self.line_p.y * (row.left as i32) + self.line_p.x * row.y as i32;
-        let right_d = -self.line_p.y * (row.right as i32) + self.line_p.x * row.y as i32;
+        let left_d = line_score(&self.line_p, row.left as i32, row.y as i32);
+        let right_d = line_score(&self.line_p, row.right as i32, row.y as i32);
 
         if left_d < self.score {
             self.score = left_d;
-- 
2.43.0

