From c022caf3c7030c1b0e6f3bcb8098104852a8e365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:16 +0000
Subject: [PATCH 01/68] fix: PPG demosaic on images narrower or lower than its
 border

interpolate_borders() stepped back to column w-3 forever for 4 and 5 pixel
wide images and the 'h - 6' / 'w - 6' ranges wrapped around for smaller
images, so the unsafe neighbour reads left the buffer.
---
 rawler/src/imgop/sensor/bayer/ppg.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/rawler/src/imgop/sensor/bayer/ppg.rs b/rawler/src/imgop/sensor/bayer/ppg.rs
index 7fb0cf7..8ed526a 100644
--- a/rawler/src/imgop/sensor/bayer/ppg.rs
+++ b/rawler/src/imgop/sensor/bayer/ppg.rs
@@ -76,8 +76,8 @@ fn interpolate_borders(input: &mut RgbF32, shifted: &CFA) {
     let mut col = 0;
     while col < w {
       // Full process first 3 and last 3 rows, process only left and right 3 pixels for all other
-      if col == 3 && row >= 3 && row < h - 3 {
-        col = w - 3 // go to right border
+      if col == 3 && row >= 3 && row < h.saturating_sub(3) {
+        col = w.saturating_sub(3).max(col) // go to right border, but never step back for narrow images
       }
       // Store the pixel sum and count for each RGB channel (R=0, G=1, B=2)
       let mut sum = [(0.0, 0_usize); 3];
@@ -117,8 +117,8 @@ fn interpolate_green(img: &mut RgbF32, shifted: &CFA) {
   // image. This is not possible in Rust without unsafe code.
   let dataptr = img.data_ptr();
 
-  img.pixels_mut().par_chunks_exact_mut(w).enumerate().skip(3).take(h - 6).for_each(|(row, buf)| {
-    for (col, pixel) in buf.iter_mut().enumerate().skip(3).take(w - 6) {
+  img.pixels_mut().par_chunks_exact_mut(w).enumerate().skip(3).take(h.saturating_sub(6)).for_each(|(row, buf)| {
+    for (col, pixel) in buf.iter_mut().enumerate().skip(3).take(w.saturating_sub(6)) {
       if shifted.color_at(row, col) != CFA_COLOR_G {
         let ch = shifted.color_at(row, col); // It's R or B
         let x = pixel[ch];
@@ -176,8 +176,8 @@ fn interpolate_rb_at_green(img: &mut RgbF32, shifted: &CFA) {
   // image. This is not possible in Rust without unsafe code.
   let dataptr = img.data_ptr();
 
-  img.pixels_mut().par_chunks_exact_mut(w).enumerate().skip(3).take(h - 6).for_each(|(row, buf)| {
-    for (col, pixel) in buf.iter_mut().enumerate().skip(3).take(w - 6) {
+  img.pixels_mut().par_chunks_exact_mut(w).enumerate().skip(3).take(h.saturating_sub(6)).for_each(|(row, buf)| {
+    for (col, pixel) in buf.iter_mut().enumerate().skip(3).take(w.saturating_sub(6)) {
       if shifted.color_at(row, col) == CFA_COLOR_G {
         let h_ch = shifted.color_at(row, col + 1); // horizontal corresponding channel
         let v_ch = shifted.color_at(row + 1, col); // vertical corresponding channel
@@ -213,8 +213,8 @@ fn interpolate_rb_at_non_green(img: &mut RgbF32, shifted: &CFA) {
   // image. This is not possible in Rust without unsafe code.
   let dataptr = img.data_ptr();
 
-  img.pixels_mut().par_chunks_exact_mut(w).enumerate().skip(3).take(h - 6).for_each(|(row, buf)| {
-    for (col, pixel) in buf.iter_mut().enumerate().skip(3).take(w - 6) {
+  img.pixels_mut().par_chunks_exact_mut(w).enumerate().skip(3).take(h.saturating_sub(6)).for_each(|(row, buf)| {
+    for (col, pixel) in buf.iter_mut().enumerate().skip(3).take(w.saturating_sub(6)) {
       if shifted.color_at(row, col) != CFA_COLOR_G {
         let x_ch = shifted.color_at(row, col); // current
         let y_ch = if x_ch == CFA_COLOR_R { CFA_COLOR_B } else { CFA_COLOR_R };
-- 
2.43.0


From 37b991344b3503f3dc430e06fe4c81e31df71e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:16 +0000
Subject: [PATCH 02/68] fix: keep subnormal values when widening 32 bit floats

---
 rawler/src/bits.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rawler/src/bits.rs b/rawler/src/bits.rs
index bf2a1de..62c21b3 100644
--- a/rawler/src/bits.rs
+++ b/rawler/src/bits.rs
@@ -335,6 +335,9 @@ pub(crate) fn extend_binary_floating_point<NARROW: FloatingPointParameters, WIDE
       // +-Zero
       wide_exponent = 0;
       wide_fraction = 0;
+    } else if NARROW::EXPONENT_WIDTH == WIDE::EXPONENT_WIDTH {
+      // Same exponent range, the subnormal stays a subnormal.
+      wide_exponent = 0;
     } else {
       // Subnormal numbers
       // We can represent it as a normalized value in wider type,
-- 
2.43.0


From 2e186d71494c8d547bbab0722780df7d4bbb724f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:16 +0000
Subject: [PATCH 03/68] fix: DNG decoder rejects monochrome images without
 CFAPattern

---
 rawler/src/decoders/dng.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rawler/src/decoders/dng.rs b/rawler/src/decoders/dng.rs
index 0003314..e522bc3 100644
--- a/rawler/src/decoders/dng.rs
+++ b/rawler/src/decoders/dng.rs
@@ -258,8 +258,12 @@ impl<'a> DngDecoder<'a> {
       None
     };
 
-    let linear = fetch_tiff_tag!(raw, TiffCommonTag::PhotometricInt).force_usize(0) == 34892;
-    let cfa = if linear { CFA::default() } else { self.get_cfa(raw)? };
+    let cfa = match fetch_tiff_tag!(raw, TiffCommonTag::PhotometricInt).force_u32(0) {
+      34892 => CFA::default(),
+      // Monochrome images have no CFA
+      1 if !raw.has_entry(TiffCommonTag::CFAPattern) => CFA::default(),
+      _ => self.get_cfa(raw)?,
+    };
     let color_matrix = self.get_color_matrix()?;
     let real_bps = if raw.has_entry(TiffCommonTag::Linearization) {
       // If DNG contains linearization table, output is always 16 bits
-- 
2.43.0


From 0f659f045070bcee6ca5add5d62135cb52f7dbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:07 +0000
Subject: [PATCH 04/68] fix: black/white level scaling of monochrome images
 panics

Converting a monochrome raw without embedded preview (or with fuji
rotation/apply_scaling) ended in todo!().
---
 rawler/src/rawimage.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rawler/src/rawimage.rs b/rawler/src/rawimage.rs
index 510f2e7..3b0f8cd 100644
--- a/rawler/src/rawimage.rs
+++ b/rawler/src/rawimage.rs
@@ -519,7 +519,6 @@ impl RawImage {
   pub fn apply_scaling(&mut self) -> crate::Result<()> {
     let mut pixels = self.data.as_f32();
     match &self.photometric {
-      RawPhotometricInterpretation::BlackIsZero => todo!(),
       RawPhotometricInterpretation::Cfa(_) => {
         correct_blacklevel_cfa(
           pixels.to_mut(),
@@ -530,7 +529,7 @@ impl RawImage {
         );
         self.data = RawImageData::Float(pixels.into_owned());
       }
-      RawPhotometricInterpretation::LinearRaw => {
+      RawPhotometricInterpretation::BlackIsZero | RawPhotometricInterpretation::LinearRaw => {
         correct_blacklevel(pixels.to_mut(), &self.blacklevel.as_vec(), &self.whitelevel.as_vec());
         self.data = RawImageData::Float(pixels.into_owned());
       }
-- 
2.43.0


From ed045363a18cd50949cce8f2cf122989ca9083d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:07 +0000
Subject: [PATCH 05/68] fix: black/white level scaling skips last row/column of
 odd sized CFA images

---
 rawler/src/imgop/raw.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/rawler/src/imgop/raw.rs b/rawler/src/imgop/raw.rs
index bc49b0c..d191d4a 100644
--- a/rawler/src/imgop/raw.rs
+++ b/rawler/src/imgop/raw.rs
@@ -175,17 +175,21 @@ pub fn correct_blacklevel_cfa(raw: &mut [f32], width: usize, _height: usize, bla
   let clip = |v: f32| {
     if v.is_sign_negative() { 0.0 } else { v }
   };
-  // Process two bayer lines at once.
-  raw.par_chunks_exact_mut(width * 2).for_each(|lines| {
-    // It's bayer data, so we have two lines for sure.
-    let (line0, line1) = lines.split_at_mut(width);
-    //line0.array_chunks_mut::<2>().zip(line1.array_chunks_mut::<2>()).for_each(|(a, b)| {
-    line0.chunks_exact_mut(2).zip(line1.chunks_exact_mut(2)).for_each(|(a, b)| {
-      a[0] = clip(a[0] - blacklevel[0]) / max[0];
-      a[1] = clip(a[1] - blacklevel[1]) / max[1];
-      b[0] = clip(b[0] - blacklevel[2]) / max[2];
-      b[1] = clip(b[1] - blacklevel[3]) / max[3];
+  let correct_line = |line: &mut [f32], black: [f32; 2], max: [f32; 2]| {
+    let mut pairs = line.chunks_exact_mut(2);
+    pairs.by_ref().for_each(|a| {
+      a[0] = clip(a[0] - black[0]) / max[0];
+      a[1] = clip(a[1] - black[1]) / max[1];
     });
+    // Last pixel of lines with odd width
+    pairs.into_remainder().iter_mut().for_each(|a| *a = clip(*a - black[0]) / max[0]);
+  };
+  // Process two bayer lines at once.
+  raw.par_chunks_mut(width * 2).for_each(|lines| {
+    // For images with odd height, the last chunk has only one line.
+    let (line0, line1) = lines.split_at_mut(width.min(lines.len()));
+    correct_line(line0, [blacklevel[0], blacklevel[1]], [max[0], max[1]]);
+    correct_line(line1, [blacklevel[2], blacklevel[3]], [max[2], max[3]]);
   });
 }
 
-- 
2.43.0


From cbc20abfc9ed00892b09902fa09725e1006f57db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:07 +0000
Subject: [PATCH 06/68] fix: DNG decoder restores wrong CFA phase for active
 areas of X-Trans sensors

CFAPattern is relative to ActiveArea. Shifting the pattern by the offset again
only restores the (0,0) based pattern when the offset is its own inverse
modulo the pattern size (2x2), not for 6x6 patterns.
---
 rawler/src/decoders/dng.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/decoders/dng.rs b/rawler/src/decoders/dng.rs
index e522bc3..550255c 100644
--- a/rawler/src/decoders/dng.rs
+++ b/rawler/src/decoders/dng.rs
@@ -359,7 +359,7 @@ impl<'a> DngDecoder<'a> {
     if let Some(active_area) = self.get_active_area_borders(raw) {
       let top = active_area[0];
       let left = active_area[1];
-      Ok(cfa.shift(left % cfa.width, top % cfa.height))
+      Ok(cfa.shift(cfa.width - left % cfa.width, cfa.height - top % cfa.height))
     } else {
       Ok(cfa)
     }
-- 
2.43.0


From d234d2e8a5daa5226c63282b54471561dd845f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:07 +0000
Subject: [PATCH 07/68] fix: DNG decoder keeps black level pattern relative to
 ActiveArea

BlackLevel repeats from the ActiveArea origin while RawImage uses (0,0), so an
odd active area offset assigned levels to the wrong photosites, and converting
DNG to DNG shifted the pattern twice.
---
 rawler/src/decoders/dng.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rawler/src/decoders/dng.rs b/rawler/src/decoders/dng.rs
index 550255c..3077fb6 100644
--- a/rawler/src/decoders/dng.rs
+++ b/rawler/src/decoders/dng.rs
@@ -331,7 +331,14 @@ impl<'a> DngDecoder<'a> {
           log::warn!("File has BlackLevelRepeatDim tag but with invalid length: {}", value.len());
         }
       }
-      Ok(Some(BlackLevel::new(&levels, repeat.1, repeat.0, cpp)))
+      let blacklevel = BlackLevel::new(&levels, repeat.1, repeat.0, cpp);
+      // For DNG the repeat pattern is relative to ActiveArea, but we use (0, 0) as starting point.
+      if let Some(active_area) = self.get_active_area_borders(raw) {
+        let (w, h) = (blacklevel.width, blacklevel.height);
+        Ok(Some(blacklevel.shift(w - active_area[1] % w, h - active_area[0] % h)))
+      } else {
+        Ok(Some(blacklevel))
+      }
     } else {
       Ok(None)
     }
-- 
2.43.0


From 4acf54ed9cdd13a83e7bcabcee0bcf443ff672be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:02 +0000
Subject: [PATCH 08/68] fix: color matrix written to ColorMatrix1 depends on
 hash order

Without an illuminant A matrix the first key of a HashMap was used, so the same
input produced different DNG files from run to run.
---
 rawler/src/dng/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/dng/writer.rs b/rawler/src/dng/writer.rs
index 1bbed0f..4911eb6 100644
--- a/rawler/src/dng/writer.rs
+++ b/rawler/src/dng/writer.rs
@@ -156,7 +156,7 @@ where
       self.writer.as_shot_neutral(wbcoeff_to_tiff_value(&rawimage));
       // Add matrix and illumninant
       let mut available_matrices = rawimage.color_matrix.clone();
-      if let Some(first_key) = available_matrices.keys().next().cloned() {
+      if let Some(first_key) = available_matrices.keys().min().cloned() {
         let first_matrix = available_matrices
           .remove_entry(&Illuminant::A)
           .or_else(|| available_matrices.remove_entry(&Illuminant::A))
-- 
2.43.0


From b48be6dea1148b809e45358bb0daed70ae7d3bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:19 +0000
Subject: [PATCH 09/68] fix: sub-IFD order depends on hash order

IFD::sub was a HashMap, so the structure dump of one file and the choice between
several candidate IFDs changed from run to run.
---
 rawler/src/formats/tiff/ifd.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rawler/src/formats/tiff/ifd.rs b/rawler/src/formats/tiff/ifd.rs
index 5b5239a..49ca791 100644
--- a/rawler/src/formats/tiff/ifd.rs
+++ b/rawler/src/formats/tiff/ifd.rs
@@ -16,7 +16,7 @@ use byteorder::{LittleEndian, ReadBytesExt};
 use log::debug;
 use serde::{Deserialize, Serialize};
 use std::{
-  collections::{BTreeMap, HashMap},
+  collections::BTreeMap,
   io::{Read, Seek, SeekFrom},
 };
 
@@ -42,7 +42,7 @@ pub struct IFD {
   pub next_ifd: u32,
   pub entries: BTreeMap<u16, Entry>,
   pub endian: Endian,
-  pub sub: HashMap<u16, Vec<IFD>>,
+  pub sub: BTreeMap<u16, Vec<IFD>>,
   pub chain: Vec<IFD>,
 }
 
@@ -102,7 +102,7 @@ impl IFD {
 
   pub fn new<R: Read + Seek>(reader: &mut R, offset: u32, base: u32, corr: i32, endian: Endian, sub_tags: &[u16]) -> Result<IFD> {
     reader.seek(SeekFrom::Start((base + offset) as u64))?;
-    let mut sub_ifd_offsets = HashMap::new();
+    let mut sub_ifd_offsets = BTreeMap::new();
     let mut reader = EndianReader::new(reader, endian);
     let entry_count = reader.read_u16()?;
 
@@ -115,7 +115,7 @@ impl IFD {
     }
 
     let mut entries = BTreeMap::new();
-    let mut sub = HashMap::new();
+    let mut sub = BTreeMap::new();
     let mut next_pos = reader.position()?;
     debug!("Parse entries");
     let mut consecutive_errors = 0;
@@ -328,7 +328,7 @@ impl IFD {
     }
   }
 
-  pub fn sub_ifds(&self) -> &HashMap<u16, Vec<IFD>> {
+  pub fn sub_ifds(&self) -> &BTreeMap<u16, Vec<IFD>> {
     &self.sub
   }
 
-- 
2.43.0


From c05022571a3253b8fefd4cf8b70a1f2fd1c790e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:17 +0000
Subject: [PATCH 10/68] fix: next IFD pointer is misread after an unparsable
 last entry

---
 rawler/src/formats/tiff/ifd.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rawler/src/formats/tiff/ifd.rs b/rawler/src/formats/tiff/ifd.rs
index 49ca791..dc754c8 100644
--- a/rawler/src/formats/tiff/ifd.rs
+++ b/rawler/src/formats/tiff/ifd.rs
@@ -117,6 +117,7 @@ impl IFD {
     let mut entries = BTreeMap::new();
     let mut sub = BTreeMap::new();
     let mut next_pos = reader.position()?;
+    let end_pos = next_pos.saturating_add(entry_count as u32 * 12);
     debug!("Parse entries");
     let mut consecutive_errors = 0;
 
@@ -189,7 +190,8 @@ impl IFD {
 
     // Some TIFF writers skip the next ifd pointer
     // If we get an I/O error, we fallback to 0, signaling the end of IFD chains.
-    let next_ifd = match reader.read_u32() {
+    // The reader may be anywhere if the last entry was not parsable.
+    let next_ifd = match reader.goto(end_pos).and_then(|_| Ok(reader.read_u32()?)) {
       Ok(ptr) => ptr,
       Err(e) => {
         debug!(
-- 
2.43.0


From 26b661d5fa2d7bcb10e89648f6a0d1e8c4bbb7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:33 +0000
Subject: [PATCH 11/68] fix: TIFF writer truncates offsets beyond 4 GiB

The file position was cast to u32, so an oversized output was reported as
success while its offsets pointed to wrong data.
---
 rawler/src/formats/tiff/writer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rawler/src/formats/tiff/writer.rs b/rawler/src/formats/tiff/writer.rs
index 2d738a7..4af93af 100644
--- a/rawler/src/formats/tiff/writer.rs
+++ b/rawler/src/formats/tiff/writer.rs
@@ -134,7 +134,8 @@ where
   W: Seek,
 {
   pub fn position(&mut self) -> Result<u32> {
-    Ok(self.writer.stream_position().map(|v| v as u32)?) // TODO: try_from?
+    let pos = self.writer.stream_position()?;
+    u32::try_from(pos).map_err(|_| TiffError::Overflow(format!("file position {} exceeds the 4 GiB limit of TIFF", pos)))
   }
 }
 
-- 
2.43.0


From 64c11b1b38949f7ffb5f0e9558165a0a86d4d4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:57 +0000
Subject: [PATCH 12/68] fix: RowsPerStrip of uncompressed raw data must be a
 single value

---
 rawler/src/dng/writer.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/rawler/src/dng/writer.rs b/rawler/src/dng/writer.rs
index 4911eb6..57dbe15 100644
--- a/rawler/src/dng/writer.rs
+++ b/rawler/src/dng/writer.rs
@@ -652,7 +652,6 @@ where
 {
   let mut strip_offsets: Vec<u32> = Vec::new();
   let mut strip_sizes: Vec<u32> = Vec::new();
-  let mut strip_rows: Vec<u32> = Vec::new();
 
   let rows_per_strip = if rawimage.height > rawler_dng_multistrip_threshold().unwrap_or(100) {
     rawler_dng_rows_per_strip().unwrap_or(256)
@@ -666,7 +665,6 @@ where
         let offset = subframe.writer.dng.write_data_u16_le(strip)?;
         strip_offsets.push(offset);
         strip_sizes.push(std::mem::size_of_val(strip) as u32);
-        strip_rows.push((strip.len() / (rawimage.width * rawimage.cpp)) as u32);
       }
       subframe.ifd_mut().add_tag(TiffCommonTag::SampleFormat, &vec![1_u16; rawimage.cpp]); // Unsigned Integer
       subframe.ifd_mut().add_tag(TiffCommonTag::BitsPerSample, &vec![16_u16; rawimage.cpp]);
@@ -676,7 +674,6 @@ where
         let offset = subframe.writer.dng.write_data_f32_le(strip)?;
         strip_offsets.push(offset);
         strip_sizes.push(std::mem::size_of_val(strip) as u32);
-        strip_rows.push((strip.len() / (rawimage.width * rawimage.cpp)) as u32);
       }
       subframe.ifd_mut().add_tag(TiffCommonTag::SampleFormat, &vec![3_u16; rawimage.cpp]); // IEEE Float
       subframe.ifd_mut().add_tag(TiffCommonTag::BitsPerSample, &vec![32_u16; rawimage.cpp]);
@@ -684,7 +681,7 @@ where
   };
   subframe.ifd_mut().add_tag(TiffCommonTag::StripOffsets, &strip_offsets);
   subframe.ifd_mut().add_tag(TiffCommonTag::StripByteCounts, &strip_sizes);
-  subframe.ifd_mut().add_tag(TiffCommonTag::RowsPerStrip, &strip_rows);
+  subframe.ifd_mut().add_tag(TiffCommonTag::RowsPerStrip, rows_per_strip as u32);
 
   Ok(())
 }
-- 
2.43.0


From fe4b9d15fa3c702f23010339d67dd84151b4ee67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:04 +0000
Subject: [PATCH 13/68] fix: DNG decoder drops fourth AsShotNeutral value

---
 rawler/src/decoders/dng.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rawler/src/decoders/dng.rs b/rawler/src/decoders/dng.rs
index 3077fb6..9fff012 100644
--- a/rawler/src/decoders/dng.rs
+++ b/rawler/src/decoders/dng.rs
@@ -294,7 +294,12 @@ impl<'a> DngDecoder<'a> {
 
   fn get_wb(&self, cam: &Camera) -> Result<[f32; 4]> {
     if let Some(levels) = self.tiff.get_entry(DngTag::AsShotNeutral) {
-      Ok([1.0 / levels.force_f32(0), 1.0 / levels.force_f32(1), 1.0 / levels.force_f32(2), f32::NAN])
+      // One value per color plane: 1 (monochrome), 3 or 4
+      let mut coeffs = [f32::NAN; 4];
+      for (i, coeff) in coeffs.iter_mut().enumerate().take(levels.count() as usize) {
+        *coeff = 1.0 / levels.force_f32(i);
+      }
+      Ok(coeffs)
     } else if let Some(levels) = self.tiff.get_entry(DngTag::AsShotWhiteXY) {
       // TODO: improve once AnalogBalance and CC is properly implemented
       if let Some(flat_colormatrix) = cam.color_matrix.get(&Illuminant::D65)
-- 
2.43.0


From eb7c332f4d848fa597ff75da4766dd377604a4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:34 +0000
Subject: [PATCH 14/68] fix: developed TIFF stores Compression and Predictor as
 SLONG

---
 rawler/src/imgop/develop.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rawler/src/imgop/develop.rs b/rawler/src/imgop/develop.rs
index 96d7e44..9dfdefb 100644
--- a/rawler/src/imgop/develop.rs
+++ b/rawler/src/imgop/develop.rs
@@ -357,8 +357,8 @@ impl RawDevelop {
         let (strip_rows, strips) = tiff.write_strips_lzw(&data, 1, pixels.dim(), 0)?;
         let strip_offsets: Vec<u32> = strips.iter().map(|(offset, _)| *offset).collect();
         let strip_bytes: Vec<u32> = strips.iter().map(|(_, bytes)| *bytes).collect();
-        root_ifd.add_tag(TiffCommonTag::Compression, 5);
-        root_ifd.add_tag(TiffCommonTag::Predictor, 1);
+        root_ifd.add_tag(TiffCommonTag::Compression, 5_u16);
+        root_ifd.add_tag(TiffCommonTag::Predictor, 1_u16);
         root_ifd.add_tag(TiffCommonTag::StripOffsets, &strip_offsets);
         root_ifd.add_tag(TiffCommonTag::StripByteCounts, &strip_bytes);
         root_ifd.add_tag(TiffCommonTag::BitsPerSample, [16_u16]);
@@ -373,8 +373,8 @@ impl RawDevelop {
         let (strip_rows, strips) = tiff.write_strips_lzw(&data, 3, pixels.dim(), 0)?;
         let strip_offsets: Vec<u32> = strips.iter().map(|(offset, _)| *offset).collect();
         let strip_bytes: Vec<u32> = strips.iter().map(|(_, bytes)| *bytes).collect();
-        root_ifd.add_tag(TiffCommonTag::Compression, 5);
-        root_ifd.add_tag(TiffCommonTag::Predictor, 1);
+        root_ifd.add_tag(TiffCommonTag::Compression, 5_u16);
+        root_ifd.add_tag(TiffCommonTag::Predictor, 1_u16);
         root_ifd.add_tag(TiffCommonTag::StripOffsets, &strip_offsets);
         root_ifd.add_tag(TiffCommonTag::StripByteCounts, &strip_bytes);
         root_ifd.add_tag(TiffCommonTag::BitsPerSample, [16_u16, 16, 16]);
@@ -389,8 +389,8 @@ impl RawDevelop {
         let (strip_rows, strips) = tiff.write_strips_lzw(&data, 4, pixels.dim(), 0)?;
         let strip_offsets: Vec<u32> = strips.iter().map(|(offset, _)| *offset).collect();
         let strip_bytes: Vec<u32> = strips.iter().map(|(_, bytes)| *bytes).collect();
-        root_ifd.add_tag(TiffCommonTag::Compression, 5);
-        root_ifd.add_tag(TiffCommonTag::Predictor, 1);
+        root_ifd.add_tag(TiffCommonTag::Compression, 5_u16);
+        root_ifd.add_tag(TiffCommonTag::Predictor, 1_u16);
         root_ifd.add_tag(TiffCommonTag::StripOffsets, &strip_offsets);
         root_ifd.add_tag(TiffCommonTag::StripByteCounts, &strip_bytes);
         root_ifd.add_tag(TiffCommonTag::BitsPerSample, [16_u16, 16, 16, 16]); // Extra-channel, even if PhotometricInt is RGB!
-- 
2.43.0


From b38340933e3b4bf18df4f2669e782ae73d8c495a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:42 +0000
Subject: [PATCH 15/68] fix: developed linear and monochrome images are cropped
 at wrong position

---
 rawler/src/imgop/develop.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rawler/src/imgop/develop.rs b/rawler/src/imgop/develop.rs
index 9dfdefb..df91a6d 100644
--- a/rawler/src/imgop/develop.rs
+++ b/rawler/src/imgop/develop.rs
@@ -185,10 +185,14 @@ impl RawDevelop {
       _ => todo!(),
     };
 
+    // Cropping to active area is part of demosaic, so it is only applied to CFA images.
+    let mut active_area_applied = false;
+
     if self.steps.contains(&ProcessingStep::Demosaic) {
       intermediate = match &rawimage.photometric {
         RawPhotometricInterpretation::Cfa(config) => {
           if let Intermediate::Monochrome(pixels) = intermediate {
+            active_area_applied = self.steps.contains(&ProcessingStep::CropActiveArea);
             let roi = if self.steps.contains(&ProcessingStep::CropActiveArea) {
               if rawimage.active_area.is_some() && rawimage.fuji_rotation_width.is_some() {
                 panic!("ActiveArea is not possible when rotation is not normalized");
@@ -290,7 +294,7 @@ impl RawDevelop {
       log::debug!("Crop: {:?}", rawimage.crop_area);
       log::debug!("active_area: {:?}", rawimage.active_area);
       if let Some(mut crop) = rawimage.crop_area.or(rawimage.active_area) {
-        if self.steps.contains(&ProcessingStep::Demosaic) && self.steps.contains(&ProcessingStep::CropActiveArea) {
+        if active_area_applied {
           // If active area crop was already applied during demosaic, we need to
           // adapt default crop to active area crop.
           if let Some(active_area) = &rawimage.active_area {
-- 
2.43.0


From c187a0561052a5c77272cea0670e93419b25e80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:52 +0000
Subject: [PATCH 16/68] fix: decompressing an embedded original reports only
 the size of the last block

---
 rawler/src/dng/original.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/dng/original.rs b/rawler/src/dng/original.rs
index 4e40ee5..c2ecd97 100644
--- a/rawler/src/dng/original.rs
+++ b/rawler/src/dng/original.rs
@@ -68,7 +68,7 @@ impl OriginalCompressed {
     for chunk in self.chunks.iter().map(ForkBlock::decompress) {
       let buf = chunk?;
       stream.write_all(&buf)?;
-      total = buf.len();
+      total += buf.len();
       ctx.consume(&buf);
     }
 
-- 
2.43.0


From 1a0082943695f5aa7c39944cfabd415c68dc269f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:03 +0000
Subject: [PATCH 17/68] fix: TIFF writer corrupts embedded signed and float
 values

SBYTE and SSHORT values were sign-extended over their neighbours and a single
FLOAT was stored as truncated integer instead of its IEEE representation.
---
 rawler/src/formats/tiff/value.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rawler/src/formats/tiff/value.rs b/rawler/src/formats/tiff/value.rs
index ec5e4c4..e39a15c 100644
--- a/rawler/src/formats/tiff/value.rs
+++ b/rawler/src/formats/tiff/value.rs
@@ -861,10 +861,10 @@ impl Value {
         Self::Short(v) => Ok((v[0] as u32) | ((*v.get(1).unwrap_or(&0) as u32) << 16)),
         Self::Long(v) => Ok(v[0]),
         Self::SByte(v) => Ok(
-          (*v.get(0).unwrap_or(&0) as u32)
-            | ((*v.get(1).unwrap_or(&0) as u32) << 8)
-            | ((*v.get(2).unwrap_or(&0) as u32) << 16)
-            | ((*v.get(3).unwrap_or(&0) as u32) << 24),
+          (*v.get(0).unwrap_or(&0) as u8 as u32)
+            | ((*v.get(1).unwrap_or(&0) as u8 as u32) << 8)
+            | ((*v.get(2).unwrap_or(&0) as u8 as u32) << 16)
+            | ((*v.get(3).unwrap_or(&0) as u8 as u32) << 24),
         ),
         Self::Undefined(v) => Ok(
           (*v.get(0).unwrap_or(&0) as u32)
@@ -872,9 +872,9 @@ impl Value {
             | ((*v.get(2).unwrap_or(&0) as u32) << 16)
             | ((*v.get(3).unwrap_or(&0) as u32) << 24),
         ),
-        Self::SShort(v) => Ok((v[0] as u32) | ((*v.get(1).unwrap_or(&0) as u32) << 16)),
+        Self::SShort(v) => Ok((v[0] as u16 as u32) | ((*v.get(1).unwrap_or(&0) as u16 as u32) << 16)),
         Self::SLong(v) => Ok(v[0] as u32),
-        Self::Float(v) => Ok(v[0] as u32),
+        Self::Float(v) => Ok(v[0].to_bits()),
         Self::Unknown(_, v) => Ok(
           (*v.get(0).unwrap_or(&0) as u32)
             | ((*v.get(1).unwrap_or(&0) as u32) << 8)
-- 
2.43.0


From c7e679a132cffeaebb7841ba4ea2549b68ac0b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:03 +0000
Subject: [PATCH 18/68] fix: offset correction is applied twice to chained IFDs

---
 rawler/src/formats/tiff/ifd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/formats/tiff/ifd.rs b/rawler/src/formats/tiff/ifd.rs
index dc754c8..f9cfe95 100644
--- a/rawler/src/formats/tiff/ifd.rs
+++ b/rawler/src/formats/tiff/ifd.rs
@@ -83,8 +83,8 @@ impl IFD {
     }
     next_ifd = root.next_ifd;
 
+    // IFD::next_ifd is already corrected
     while next_ifd != 0 {
-      next_ifd = apply_corr(next_ifd, corr);
       let ifd = IFD::new(reader, next_ifd, base, corr, endian, &multi_sub_tags)?;
       if ifd.entries.is_empty() {
         return Err(TiffError::General("TIFF is invalid, IFD must contain at least one entry".to_string()));
-- 
2.43.0


From ab70400eb1f66347d60a6b57bea43365e19e628c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:12 +0000
Subject: [PATCH 19/68] fix: image dimensions and areas beyond 65535 are
 truncated

ActiveArea, DefaultCrop*, MaskedAreas and the dimensions of developed TIFFs were
cut to 16 bit.
---
 rawler/src/dng/mod.rs       | 10 +++++-----
 rawler/src/dng/writer.rs    | 10 +++++-----
 rawler/src/imgop/develop.rs | 12 ++++++------
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/rawler/src/dng/mod.rs b/rawler/src/dng/mod.rs
index 1a39c83..ac11734 100644
--- a/rawler/src/dng/mod.rs
+++ b/rawler/src/dng/mod.rs
@@ -19,12 +19,12 @@ pub const DNG_VERSION_V1_6: [u8; 4] = [1, 6, 0, 0];
 ///
 /// DNG ActiveArea  is:
 ///  Top, Left, Bottom, Right
-pub fn rect_to_dng_area(area: &Rect) -> [u16; 4] {
+pub fn rect_to_dng_area(area: &Rect) -> [u32; 4] {
   [
-    area.p.y as u16,
-    area.p.x as u16,
-    area.p.y as u16 + area.d.h as u16,
-    area.p.x as u16 + area.d.w as u16,
+    area.p.y as u32,
+    area.p.x as u32,
+    (area.p.y + area.d.h) as u32,
+    (area.p.x + area.d.w) as u32,
   ]
   /*
   [
diff --git a/rawler/src/dng/writer.rs b/rawler/src/dng/writer.rs
index 57dbe15..15c0350 100644
--- a/rawler/src/dng/writer.rs
+++ b/rawler/src/dng/writer.rs
@@ -200,9 +200,9 @@ where
         assert!(crop.p.y >= active_area.p.y);
         self.ifd_mut().add_tag(
           DngTag::DefaultCropOrigin,
-          [(crop.p.x - active_area.p.x) as u16, (crop.p.y - active_area.p.y) as u16],
+          [(crop.p.x - active_area.p.x) as u32, (crop.p.y - active_area.p.y) as u32],
         );
-        self.ifd_mut().add_tag(DngTag::DefaultCropSize, [crop.d.w as u16, crop.d.h as u16]);
+        self.ifd_mut().add_tag(DngTag::DefaultCropSize, [crop.d.w as u32, crop.d.h as u32]);
       }
       CropMode::Best => {
         let crop = rawimage.crop_area.unwrap_or(active_area);
@@ -210,9 +210,9 @@ where
         assert!(crop.p.y >= active_area.p.y);
         self.ifd_mut().add_tag(
           DngTag::DefaultCropOrigin,
-          [(crop.p.x - active_area.p.x) as u16, (crop.p.y - active_area.p.y) as u16],
+          [(crop.p.x - active_area.p.x) as u32, (crop.p.y - active_area.p.y) as u32],
         );
-        self.ifd_mut().add_tag(DngTag::DefaultCropSize, [crop.d.w as u16, crop.d.h as u16]);
+        self.ifd_mut().add_tag(DngTag::DefaultCropSize, [crop.d.w as u32, crop.d.h as u32]);
       }
       CropMode::None => {}
     }
@@ -267,7 +267,7 @@ where
     }
 
     if !rawimage.blackareas.is_empty() {
-      let data: Vec<u16> = rawimage.blackareas.iter().flat_map(rect_to_dng_area).collect();
+      let data: Vec<u32> = rawimage.blackareas.iter().flat_map(rect_to_dng_area).collect();
       self.ifd_mut().add_tag(DngTag::MaskedAreas, &data);
     }
 
diff --git a/rawler/src/imgop/develop.rs b/rawler/src/imgop/develop.rs
index df91a6d..e0a0d89 100644
--- a/rawler/src/imgop/develop.rs
+++ b/rawler/src/imgop/develop.rs
@@ -369,8 +369,8 @@ impl RawDevelop {
         root_ifd.add_tag(TiffCommonTag::SamplesPerPixel, [1_u16]);
         root_ifd.add_tag(TiffCommonTag::PhotometricInt, [1_u16]);
         root_ifd.add_tag(TiffCommonTag::RowsPerStrip, strip_rows);
-        root_ifd.add_tag(TiffCommonTag::ImageWidth, pixels.width as u16);
-        root_ifd.add_tag(TiffCommonTag::ImageLength, pixels.height as u16);
+        root_ifd.add_tag(TiffCommonTag::ImageWidth, pixels.width as u32);
+        root_ifd.add_tag(TiffCommonTag::ImageLength, pixels.height as u32);
       }
       Intermediate::ThreeColor(pixels) => {
         let data = convert_from_f32_scaled_u16(&pixels.flatten(), 0, u16::MAX);
@@ -385,8 +385,8 @@ impl RawDevelop {
         root_ifd.add_tag(TiffCommonTag::SamplesPerPixel, [3_u16]);
         root_ifd.add_tag(TiffCommonTag::PhotometricInt, [2_u16]);
         root_ifd.add_tag(TiffCommonTag::RowsPerStrip, strip_rows);
-        root_ifd.add_tag(TiffCommonTag::ImageWidth, pixels.width as u16);
-        root_ifd.add_tag(TiffCommonTag::ImageLength, pixels.height as u16);
+        root_ifd.add_tag(TiffCommonTag::ImageWidth, pixels.width as u32);
+        root_ifd.add_tag(TiffCommonTag::ImageLength, pixels.height as u32);
       }
       Intermediate::FourColor(pixels) => {
         let data = convert_from_f32_scaled_u16(&pixels.flatten(), 0, u16::MAX);
@@ -401,8 +401,8 @@ impl RawDevelop {
         root_ifd.add_tag(TiffCommonTag::SamplesPerPixel, [4_u16]);
         root_ifd.add_tag(TiffCommonTag::PhotometricInt, [2_u16]);
         root_ifd.add_tag(TiffCommonTag::RowsPerStrip, strip_rows);
-        root_ifd.add_tag(TiffCommonTag::ImageWidth, pixels.width as u16);
-        root_ifd.add_tag(TiffCommonTag::ImageLength, pixels.height as u16);
+        root_ifd.add_tag(TiffCommonTag::ImageWidth, pixels.width as u32);
+        root_ifd.add_tag(TiffCommonTag::ImageLength, pixels.height as u32);
       }
     }
 
-- 
2.43.0


From 43438e4e64e6781b5bd225c956dd5b402ad0e71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:41 +0000
Subject: [PATCH 20/68] fix: jobs overwrite or delete files they must not touch

Without --override, makedng deleted an already existing output file and
process-raw, extract and makedng wrote through dangling symlinks or lost
races with other writers. With --override, process-raw, extract and makedng
truncated their own input (and followed symlinks), convert deleted it.
---
 bin/dnglab/dnglab-lib/src/jobs/extractraw.rs  |  7 +---
 bin/dnglab/dnglab-lib/src/jobs/mod.rs         | 33 ++++++++++++++++
 bin/dnglab/dnglab-lib/src/jobs/process_raw.rs |  7 +---
 bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs     | 18 +--------
 bin/dnglab/dnglab-lib/src/makedng.rs          | 38 +++++++++++--------
 5 files changed, 61 insertions(+), 42 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs b/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
index a4bcccf..66c0ff7 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
@@ -1,7 +1,7 @@
 // SPDX-License-Identifier: LGPL-2.1
 // Copyright 2021 Daniel Vogelbacher <daniel@chaospixel.com>
 
-use super::Job;
+use super::{Job, create_output};
 use crate::{AppError, Result};
 use async_trait::async_trait;
 use log::debug;
@@ -53,9 +53,6 @@ impl Display for JobResult {
 
 impl ExtractRawJob {
   fn internal_exec(&self) -> Result<JobResult> {
-    if self.output.exists() && !self.replace {
-      return Err(AppError::AlreadyExists(self.output.clone()));
-    }
     let dng_file = File::open(&self.input)?;
 
     let mut in_file = BufReader::new(dng_file);
@@ -73,7 +70,7 @@ impl ExtractRawJob {
           .and_then(|data| OriginalDigest::try_from(data).ok());
 
         let original = OriginalCompressed::new(&mut Cursor::new(val), digest)?;
-        let mut stream = BufWriter::new(File::create(&self.output)?);
+        let mut stream = BufWriter::new(create_output(&[&self.input], &self.output, self.replace)?);
         if let Err(err) = original.decompress(&mut stream, !self.skip_checks) {
           drop(original);
           if let Err(err) = remove_file(&self.output) {
diff --git a/bin/dnglab/dnglab-lib/src/jobs/mod.rs b/bin/dnglab/dnglab-lib/src/jobs/mod.rs
index d86a8f4..2e80dd4 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/mod.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/mod.rs
@@ -3,6 +3,10 @@
 
 use async_trait::async_trait;
 use std::fmt::Debug;
+use std::fs::{File, OpenOptions, remove_file};
+use std::path::Path;
+
+use crate::{AppError, Result};
 
 pub mod extractraw;
 pub mod process_raw;
@@ -15,3 +19,32 @@ pub trait Job: Clone + Debug + Send {
   /// Execute the job
   async fn execute(&self) -> Self::Output;
 }
+
+/// Create the output file of a job.
+///
+/// `create_new(true)` (= `O_EXCL`) is the single source of truth for
+/// "don't clobber": an existing output is surfaced as `AlreadyExists`.
+/// It is only removed when `replace` is set and it isn't one of the inputs.
+pub(crate) fn create_output<P: AsRef<Path>>(inputs: &[P], output: &Path, replace: bool) -> Result<File> {
+  if replace {
+    match output.symlink_metadata() {
+      Ok(md) if md.is_dir() => {}
+      Ok(md) => {
+        // Removing a symlink never affects the file it points to.
+        if !md.is_symlink() {
+          let target = output.canonicalize()?;
+          if inputs.iter().any(|input| input.as_ref().canonicalize().is_ok_and(|input| input == target)) {
+            return Err(AppError::General(format!("Output '{}' is an input file, refusing to replace it", output.display())));
+          }
+        }
+        remove_file(output)?;
+      }
+      Err(_) => {}
+    }
+  }
+  match OpenOptions::new().write(true).create_new(true).open(output) {
+    Ok(file) => Ok(file),
+    Err(err) if err.kind() == std::io::ErrorKind::AlreadyExists => Err(AppError::AlreadyExists(output.to_owned())),
+    Err(err) => Err(err.into()),
+  }
+}
diff --git a/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs b/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
index fadcdef..ddbc43b 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
@@ -1,7 +1,7 @@
 // SPDX-License-Identifier: LGPL-2.1
 // Copyright 2026 Daniel Vogelbacher <daniel@chaospixel.com>
 
-use super::Job;
+use super::{Job, create_output};
 use crate::{AppError, Result};
 use async_trait::async_trait;
 use chrono::Local;
@@ -69,9 +69,6 @@ pub(crate) fn copy_mtime_from_rawsource(rawfile: &RawSource, file: &File, fallba
 
 impl Raw2Image {
   fn internal_exec(&self) -> Result<JobResult> {
-    if self.output.exists() && !self.replace {
-      return Err(AppError::AlreadyExists(self.output.clone()));
-    }
     // File name for embedding
     let orig_filename = self
       .input
@@ -81,7 +78,7 @@ impl Raw2Image {
       .to_string_lossy()
       .to_string();
 
-    let mut image_file = BufWriter::new(File::create(&self.output)?);
+    let mut image_file = BufWriter::new(create_output(&[&self.input], &self.output, self.replace)?);
 
     match process_raw_image(&self.input, &mut image_file, &self.params) {
       Ok(_) => {
diff --git a/bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs b/bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs
index 144b7b7..322ad2c 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs
@@ -1,7 +1,7 @@
 // SPDX-License-Identifier: LGPL-2.1
 // Copyright 2021 Daniel Vogelbacher <daniel@chaospixel.com>
 
-use super::Job;
+use super::{Job, create_output};
 use crate::{AppError, Result};
 use async_trait::async_trait;
 use chrono::Local;
@@ -77,21 +77,7 @@ impl Raw2DngJob {
       .to_string_lossy()
       .to_string();
 
-    if self.replace && self.output.exists() {
-      remove_file(&self.output)?;
-    }
-    // `create_new(true)` (= `O_EXCL`) is the single source of truth for
-    // "don't clobber". An `AlreadyExists` error here is the common case
-    // when `--override` is off; surface it as `AppError::AlreadyExists`
-    // rather than letting it surface as a raw `io::Error`. This also
-    // eliminates a redundant pre-flight `stat()` syscall per job.
-    let file = match std::fs::OpenOptions::new().write(true).create_new(true).open(&self.output) {
-      Ok(f) => f,
-      Err(e) if e.kind() == std::io::ErrorKind::AlreadyExists => {
-        return Err(AppError::AlreadyExists(self.output.clone()));
-      }
-      Err(e) => return Err(e.into()),
-    };
+    let file = create_output(&[&self.input], &self.output, self.replace)?;
     if let Err(err) = file.try_lock() {
       return Err(AppError::General(format!("Cannot acquire exclusive lock on {}: {err}", self.output.display())));
     }
diff --git a/bin/dnglab/dnglab-lib/src/makedng.rs b/bin/dnglab/dnglab-lib/src/makedng.rs
index 57ba717..185ac65 100644
--- a/bin/dnglab/dnglab-lib/src/makedng.rs
+++ b/bin/dnglab/dnglab-lib/src/makedng.rs
@@ -20,6 +20,8 @@ use rawler::imgop::xyz::{self, Illuminant};
 use rawler::imgop::{scale_double_to_u16, scale_u8_to_double, scale_u16_to_double};
 use rawler::rawsource::RawSource;
 use rawler::tags::{DngTag, TiffCommonTag};
+
+use crate::jobs::create_output;
 use std::fs::{File, remove_file};
 use std::io::BufWriter;
 use std::num::ParseFloatError;
@@ -41,7 +43,24 @@ pub async fn makedng(options: &ArgMatches) -> crate::Result<()> {
     .get_one("OUTPUT")
     .ok_or_else(|| crate::AppError::InvalidCmdSwitch("Output path is required".into()))?;
 
-  match makedng_internal(options, dest_path).await {
+  let inputs: Vec<&PathBuf> = options
+    .get_many("inputs")
+    .ok_or_else(|| crate::AppError::InvalidCmdSwitch("inputs are required".into()))?
+    .collect();
+  let maps: Vec<&InputSourceUsageMap> = options.get_many("map").unwrap_or_default().collect();
+  let max_used_map_input = maps.iter().map(|x| x.source).max().unwrap_or(0);
+
+  if max_used_map_input >= inputs.len() {
+    return Err(crate::AppError::InvalidCmdSwitch(format!(
+      "--map argument indicies ({}) exceed number of input files ({})",
+      max_used_map_input,
+      inputs.len()
+    )));
+  }
+
+  let file = create_output(&inputs, dest_path, options.get_flag("override"))?;
+
+  match makedng_internal(options, dest_path, file).await {
     Ok(_) => Ok(()),
     Err(err) => {
       if let Err(err) = remove_file(dest_path) {
@@ -53,7 +72,7 @@ pub async fn makedng(options: &ArgMatches) -> crate::Result<()> {
 }
 
 /// Entry point for Clap sub command `makedng`
-pub async fn makedng_internal(options: &ArgMatches, dest_path: &Path) -> crate::Result<()> {
+pub async fn makedng_internal(options: &ArgMatches, dest_path: &Path, file: File) -> crate::Result<()> {
   let _now = Instant::now();
 
   let inputs: Vec<&PathBuf> = options
@@ -61,21 +80,8 @@ pub async fn makedng_internal(options: &ArgMatches, dest_path: &Path) -> crate::
     .ok_or_else(|| crate::AppError::InvalidCmdSwitch("inputs are required".into()))?
     .collect();
   let maps: Vec<&InputSourceUsageMap> = options.get_many("map").unwrap_or_default().collect();
-  let max_used_map_input = maps.iter().map(|x| x.source).max().unwrap_or(0);
-
-  if max_used_map_input >= inputs.len() {
-    return Err(crate::AppError::InvalidCmdSwitch(format!(
-      "--map argument indicies ({}) exceed number of input files ({})",
-      max_used_map_input,
-      inputs.len()
-    )));
-  }
-
-  if dest_path.exists() && !options.get_flag("override") {
-    return Err(crate::AppError::AlreadyExists(dest_path.to_owned()));
-  }
 
-  let mut stream = BufWriter::new(File::create(dest_path)?);
+  let mut stream = BufWriter::new(file);
 
   let backward_version = options
     .get_one::<DngVersion>("dng_backward_version")
-- 
2.43.0


From 2457dee6cd4893b842e21e0ec1a94006fdbb8b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:25 +0000
Subject: [PATCH 21/68] fix: failed jobs leave partial output files behind

Errors after writing started (buffer flush, keep-mtime, locking) and worker
panics left a truncated output file. makedng even reported success if the
final flush failed.
---
 bin/dnglab/dnglab-lib/src/jobs/extractraw.rs  | 19 ++++++++----------
 bin/dnglab/dnglab-lib/src/jobs/mod.rs         | 15 ++++++++++++++
 bin/dnglab/dnglab-lib/src/jobs/process_raw.rs | 20 ++++++++-----------
 bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs     | 17 ++++++----------
 bin/dnglab/dnglab-lib/src/makedng.rs          | 19 ++++++------------
 5 files changed, 43 insertions(+), 47 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs b/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
index 66c0ff7..5f31ab7 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
@@ -1,7 +1,7 @@
 // SPDX-License-Identifier: LGPL-2.1
 // Copyright 2021 Daniel Vogelbacher <daniel@chaospixel.com>
 
-use super::{Job, create_output};
+use super::{Job, create_output, remove_output_on_failure};
 use crate::{AppError, Result};
 use async_trait::async_trait;
 use log::debug;
@@ -12,7 +12,6 @@ use rawler::{
 };
 use std::{
   fmt::Display,
-  fs::remove_file,
   io::{BufReader, BufWriter, Cursor, Write},
 };
 use std::{fs::File, path::PathBuf, time::Instant};
@@ -70,15 +69,13 @@ impl ExtractRawJob {
           .and_then(|data| OriginalDigest::try_from(data).ok());
 
         let original = OriginalCompressed::new(&mut Cursor::new(val), digest)?;
-        let mut stream = BufWriter::new(create_output(&[&self.input], &self.output, self.replace)?);
-        if let Err(err) = original.decompress(&mut stream, !self.skip_checks) {
-          drop(original);
-          if let Err(err) = remove_file(&self.output) {
-            log::error!("Failed to delete original file after decompress error: {:?}", err);
-          }
-          return Err(err.into());
-        }
-        stream.flush()?;
+        let file = create_output(&[&self.input], &self.output, self.replace)?;
+        remove_output_on_failure(&self.output, || {
+          let mut stream = BufWriter::new(file);
+          original.decompress(&mut stream, !self.skip_checks)?;
+          stream.flush()?;
+          Ok(())
+        })?;
         Ok(JobResult {
           job: self.clone(),
           duration: 0.0, // TODO: fixme
diff --git a/bin/dnglab/dnglab-lib/src/jobs/mod.rs b/bin/dnglab/dnglab-lib/src/jobs/mod.rs
index 2e80dd4..73134ba 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/mod.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/mod.rs
@@ -4,6 +4,7 @@
 use async_trait::async_trait;
 use std::fmt::Debug;
 use std::fs::{File, OpenOptions, remove_file};
+use std::panic::{AssertUnwindSafe, catch_unwind};
 use std::path::Path;
 
 use crate::{AppError, Result};
@@ -48,3 +49,17 @@ pub(crate) fn create_output<P: AsRef<Path>>(inputs: &[P], output: &Path, replace
     Err(err) => Err(err.into()),
   }
 }
+
+/// Run `write` and remove the output file again if it fails (or panics).
+pub(crate) fn remove_output_on_failure<T>(output: &Path, write: impl FnOnce() -> Result<T>) -> Result<T> {
+  let result = match catch_unwind(AssertUnwindSafe(write)) {
+    Ok(result) => result,
+    Err(_) => Err(AppError::General("Worker panicked before completing".into())),
+  };
+  if result.is_err() {
+    if let Err(err) = remove_file(output) {
+      log::error!("Failed to delete output file after error: {:?}", err);
+    }
+  }
+  result
+}
diff --git a/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs b/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
index ddbc43b..296444a 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
@@ -1,7 +1,7 @@
 // SPDX-License-Identifier: LGPL-2.1
 // Copyright 2026 Daniel Vogelbacher <daniel@chaospixel.com>
 
-use super::{Job, create_output};
+use super::{Job, create_output, remove_output_on_failure};
 use crate::{AppError, Result};
 use async_trait::async_trait;
 use chrono::Local;
@@ -12,12 +12,7 @@ use rawler::{
   imgop::develop::{RawProcessingParams, process_raw_image},
   rawsource::RawSource,
 };
-use std::{
-  fmt::Display,
-  fs::{File, remove_file},
-  io::BufWriter,
-  time::SystemTime,
-};
+use std::{fmt::Display, fs::File, io::BufWriter, time::SystemTime};
 use std::{path::PathBuf, time::Instant};
 use tokio::task::spawn_blocking;
 
@@ -78,7 +73,12 @@ impl Raw2Image {
       .to_string_lossy()
       .to_string();
 
-    let mut image_file = BufWriter::new(create_output(&[&self.input], &self.output, self.replace)?);
+    let file = create_output(&[&self.input], &self.output, self.replace)?;
+    remove_output_on_failure(&self.output, || self.write_output(file, orig_filename))
+  }
+
+  fn write_output(&self, file: File, orig_filename: String) -> Result<JobResult> {
+    let mut image_file = BufWriter::new(file);
 
     match process_raw_image(&self.input, &mut image_file, &self.params) {
       Ok(_) => {
@@ -110,10 +110,6 @@ impl Raw2Image {
             log::error!("Failed to decode file: {}", msg);
           }
         }
-        drop(image_file);
-        if let Err(err) = remove_file(&self.output) {
-          log::error!("Failed to delete output file after decoder error: {:?}", err);
-        }
         Err(err.into())
       }
     }
diff --git a/bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs b/bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs
index 322ad2c..c81e4c8 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs
@@ -1,7 +1,7 @@
 // SPDX-License-Identifier: LGPL-2.1
 // Copyright 2021 Daniel Vogelbacher <daniel@chaospixel.com>
 
-use super::{Job, create_output};
+use super::{Job, create_output, remove_output_on_failure};
 use crate::{AppError, Result};
 use async_trait::async_trait;
 use chrono::Local;
@@ -12,12 +12,7 @@ use rawler::{
   dng::convert::{ConvertParams, convert_raw_file},
   rawsource::RawSource,
 };
-use std::{
-  fmt::Display,
-  fs::{File, remove_file},
-  io::BufWriter,
-  time::SystemTime,
-};
+use std::{fmt::Display, fs::File, io::BufWriter, time::SystemTime};
 use std::{path::PathBuf, time::Instant};
 
 /// Job for converting RAW to DNG
@@ -78,6 +73,10 @@ impl Raw2DngJob {
       .to_string();
 
     let file = create_output(&[&self.input], &self.output, self.replace)?;
+    remove_output_on_failure(&self.output, || self.write_output(file, orig_filename))
+  }
+
+  fn write_output(&self, file: File, orig_filename: String) -> Result<JobResult> {
     if let Err(err) = file.try_lock() {
       return Err(AppError::General(format!("Cannot acquire exclusive lock on {}: {err}", self.output.display())));
     }
@@ -114,10 +113,6 @@ impl Raw2DngJob {
             log::error!("Failed to decode file: {}", msg);
           }
         }
-        drop(dng);
-        if let Err(err) = remove_file(&self.output) {
-          log::error!("Failed to delete DNG file after decoder error: {:?}", err);
-        }
         Err(err.into())
       }
     }
diff --git a/bin/dnglab/dnglab-lib/src/makedng.rs b/bin/dnglab/dnglab-lib/src/makedng.rs
index 185ac65..cb0fc37 100644
--- a/bin/dnglab/dnglab-lib/src/makedng.rs
+++ b/bin/dnglab/dnglab-lib/src/makedng.rs
@@ -21,9 +21,9 @@ use rawler::imgop::{scale_double_to_u16, scale_u8_to_double, scale_u16_to_double
 use rawler::rawsource::RawSource;
 use rawler::tags::{DngTag, TiffCommonTag};
 
-use crate::jobs::create_output;
-use std::fs::{File, remove_file};
-use std::io::BufWriter;
+use crate::jobs::{create_output, remove_output_on_failure};
+use std::fs::File;
+use std::io::{BufWriter, Write};
 use std::num::ParseFloatError;
 use std::path::{Path, PathBuf};
 
@@ -60,19 +60,11 @@ pub async fn makedng(options: &ArgMatches) -> crate::Result<()> {
 
   let file = create_output(&inputs, dest_path, options.get_flag("override"))?;
 
-  match makedng_internal(options, dest_path, file).await {
-    Ok(_) => Ok(()),
-    Err(err) => {
-      if let Err(err) = remove_file(dest_path) {
-        log::error!("Failed to delete DNG file after decompress error: {:?}", err);
-      }
-      Err(err)
-    }
-  }
+  remove_output_on_failure(dest_path, || makedng_internal(options, dest_path, file))
 }
 
 /// Entry point for Clap sub command `makedng`
-pub async fn makedng_internal(options: &ArgMatches, dest_path: &Path, file: File) -> crate::Result<()> {
+pub fn makedng_internal(options: &ArgMatches, dest_path: &Path, file: File) -> crate::Result<()> {
   let _now = Instant::now();
 
   let inputs: Vec<&PathBuf> = options
@@ -274,6 +266,7 @@ pub async fn makedng_internal(options: &ArgMatches, dest_path: &Path, file: File
   //eprintln!("XYZ: {:?}", xyz);
 
   dng.close()?;
+  stream.flush()?;
 
   println!("File saved to: {}", dest_path.display());
 
-- 
2.43.0


From caeee78d30950c1ff05c2e45964997f3e749186a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:29 +0000
Subject: [PATCH 22/68] fix: process-raw maps several inputs to the same output
 file

FOO.CR3 and FOO.NEF in one directory were both assigned to FOO.tif, one job
failed or (with --override) destroyed the output of the other one. Use the
same disambiguation as convert.
---
 bin/dnglab/dnglab-lib/src/process_raw.rs | 69 +++++++++++++++---------
 1 file changed, 44 insertions(+), 25 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/process_raw.rs b/bin/dnglab/dnglab-lib/src/process_raw.rs
index 2d786b4..5a2b6b7 100644
--- a/bin/dnglab/dnglab-lib/src/process_raw.rs
+++ b/bin/dnglab/dnglab-lib/src/process_raw.rs
@@ -5,6 +5,7 @@ use clap::ArgMatches;
 use futures::future::join_all;
 use rawler::decoders::supported_extensions;
 use rawler::imgop::develop::RawProcessingParams;
+use std::collections::HashSet;
 use std::fs::create_dir_all;
 use std::path::PathBuf;
 
@@ -33,11 +34,15 @@ pub async fn process_raw(options: &ArgMatches) -> crate::Result<()> {
 
   // List of jobs
   let mut jobs: Vec<Raw2Image> = Vec::new();
+  // Output paths already assigned to a job in this run; used to disambiguate
+  // distinct source files that would otherwise produce the same output name
+  // (e.g. FOO.CR3 and FOO.NEF -> FOO.tif / FOO_1.tif).
+  let mut claimed: HashSet<PathBuf> = HashSet::new();
 
   match proc {
     // We have only one input file, so output must be a file, too.
     MapMode::File(sd) => {
-      jobs.append(&mut generate_job(&sd, options)?);
+      jobs.append(&mut generate_job(&sd, options, &mut claimed)?);
     }
     // Input is directory, to process all files
     MapMode::Dir(sd) => {
@@ -49,7 +54,7 @@ pub async fn process_raw(options: &ArgMatches) -> crate::Result<()> {
         }
       })?;
       for entry in list {
-        jobs.append(&mut generate_job(&entry, options)?);
+        jobs.append(&mut generate_job(&entry, options, &mut claimed)?);
       }
     }
   }
@@ -95,7 +100,7 @@ pub async fn process_raw(options: &ArgMatches) -> crate::Result<()> {
 }
 
 /// Convert given raw file to dng file
-fn generate_job(entry: &FileMap, options: &ArgMatches) -> Result<Vec<Raw2Image>> {
+fn generate_job(entry: &FileMap, options: &ArgMatches, claimed: &mut HashSet<PathBuf>) -> Result<Vec<Raw2Image>> {
   let (do_batch, index) = match options.get_one::<String>("index") {
     Some(index) => {
       if index.to_lowercase().eq("all") {
@@ -109,9 +114,43 @@ fn generate_job(entry: &FileMap, options: &ArgMatches) -> Result<Vec<Raw2Image>>
 
   let batch_count = if do_batch { rawler::raw_image_count_file(&entry.src)? } else { 1 };
 
+  let input = PathBuf::from(&entry.src);
+  let mut output = PathBuf::from(&entry.dest);
+
+  // If output is a directry
+  if input.is_file() && output.exists() && output.is_dir() {
+    output.push(entry.src.file_name().ok_or_else(|| anyhow::anyhow!("source path has no file name"))?);
+  }
+
+  output.set_extension("tif");
+
+  let file_stem = String::from(
+    output
+      .file_stem()
+      .ok_or_else(|| anyhow::anyhow!("output path has no file stem"))?
+      .to_string_lossy(),
+  );
+
+  // Pick the lowest disambiguation suffix such that the outputs of all frames
+  // are free, same rules as for `convert`.
+  let mut suffix = 0usize;
+  let outputs = loop {
+    let stem = if suffix == 0 { file_stem.clone() } else { format!("{}_{}", file_stem, suffix) };
+    let candidates: Vec<PathBuf> = if do_batch && batch_count > 1 {
+      (0..batch_count).map(|i| output.with_file_name(format!("{}_{:04}.tif", stem, i))).collect()
+    } else {
+      vec![output.with_file_name(format!("{}.tif", stem))]
+    };
+    if !candidates.iter().any(|path| claimed.contains(path)) {
+      break candidates;
+    }
+    suffix += 1;
+  };
+  claimed.extend(outputs.iter().cloned());
+
   let mut jobs = Vec::new();
 
-  for i in 0..batch_count {
+  for (i, output) in outputs.into_iter().enumerate() {
     // Params for conversion process
     let params = RawProcessingParams {
       crop: *options
@@ -124,26 +163,6 @@ fn generate_job(entry: &FileMap, options: &ArgMatches) -> Result<Vec<Raw2Image>>
       keep_mtime: options.get_flag("keep_mtime"),
     };
 
-    let input = PathBuf::from(&entry.src);
-    let mut output = PathBuf::from(&entry.dest);
-
-    // If output is a directry
-    if input.is_file() && output.exists() && output.is_dir() {
-      output.push(entry.src.file_name().ok_or_else(|| anyhow::anyhow!("source path has no file name"))?);
-    }
-
-    output.set_extension("tif");
-
-    if do_batch && batch_count > 1 {
-      let file_name = String::from(
-        output
-          .file_stem()
-          .ok_or_else(|| anyhow::anyhow!("output path has no file stem"))?
-          .to_string_lossy(),
-      );
-      output.set_file_name(format!("{}_{:04}.tif", file_name, i));
-    }
-
     match output.parent() {
       Some(parent) => {
         if !parent.exists() {
@@ -159,7 +178,7 @@ fn generate_job(entry: &FileMap, options: &ArgMatches) -> Result<Vec<Raw2Image>>
     }
 
     jobs.push(Raw2Image {
-      input,
+      input: input.clone(),
       output,
       replace: options.get_flag("override"),
       params,
-- 
2.43.0


From 89722f4d7fa15d928e6dc15e1f43d142d4361d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:51 +0000
Subject: [PATCH 23/68] fix: --image-index all aborts the whole batch on an
 unreadable file

---
 bin/dnglab/dnglab-lib/src/convert.rs     | 3 ++-
 bin/dnglab/dnglab-lib/src/process_raw.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/convert.rs b/bin/dnglab/dnglab-lib/src/convert.rs
index 6ba0e22..2836594 100644
--- a/bin/dnglab/dnglab-lib/src/convert.rs
+++ b/bin/dnglab/dnglab-lib/src/convert.rs
@@ -113,7 +113,8 @@ fn generate_job(entry: &FileMap, options: &ArgMatches, claimed: &mut HashSet<Pat
     None => (false, 0),
   };
 
-  let batch_count = if do_batch { rawler::raw_image_count_file(&entry.src)? } else { 1 };
+  // An unreadable file must not abort the whole batch, its own job reports the error.
+  let batch_count = if do_batch { rawler::raw_image_count_file(&entry.src).unwrap_or(1) } else { 1 };
   let multi_frame = do_batch && batch_count > 1;
   let replace = options.get_flag("override");
 
diff --git a/bin/dnglab/dnglab-lib/src/process_raw.rs b/bin/dnglab/dnglab-lib/src/process_raw.rs
index 5a2b6b7..90308b6 100644
--- a/bin/dnglab/dnglab-lib/src/process_raw.rs
+++ b/bin/dnglab/dnglab-lib/src/process_raw.rs
@@ -112,7 +112,8 @@ fn generate_job(entry: &FileMap, options: &ArgMatches, claimed: &mut HashSet<Pat
     None => (false, 0),
   };
 
-  let batch_count = if do_batch { rawler::raw_image_count_file(&entry.src)? } else { 1 };
+  // An unreadable file must not abort the whole batch, its own job reports the error.
+  let batch_count = if do_batch { rawler::raw_image_count_file(&entry.src).unwrap_or(1) } else { 1 };
 
   let input = PathBuf::from(&entry.src);
   let mut output = PathBuf::from(&entry.dest);
-- 
2.43.0


From c5fe0a75170123c7244df84b0bca2f5f14482e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:41 +0000
Subject: [PATCH 24/68] fix: extract writes to any path given by
 OriginalRawFileName

The tag is untrusted, with '../x' or an absolute path the output was written
outside of the output directory.
---
 bin/dnglab/dnglab-lib/src/extract.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/extract.rs b/bin/dnglab/dnglab-lib/src/extract.rs
index 2e98566..8be0f56 100644
--- a/bin/dnglab/dnglab-lib/src/extract.rs
+++ b/bin/dnglab/dnglab-lib/src/extract.rs
@@ -9,7 +9,7 @@ use rawler::tags::DngTag;
 use rayon::iter::{IntoParallelRefIterator, ParallelIterator};
 use std::fs::File;
 use std::io::BufReader;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use std::time::Instant;
 
 use crate::filemap::{FileMap, MapMode};
@@ -141,7 +141,9 @@ fn get_original_name(file: &GenericTiffReader) -> Option<String> {
     ..
   }) = file.get_entry(DngTag::OriginalRawFileName)
   {
-    Some(orig_name.strings()[0].clone())
+    // The name is untrusted input, don't let it point to some other directory.
+    let orig_name = orig_name.strings().first()?;
+    Path::new(orig_name).file_name().map(|name| name.to_string_lossy().into_owned())
   } else {
     None
   }
-- 
2.43.0


From 044be280ce784c69911247ec97f9fecf3ec9a8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:44 +0000
Subject: [PATCH 25/68] fix: extract of a directory stops at the first unusable
 DNG

A single DNG without embedded raw file aborted the whole directory before
anything was extracted. With --override, DNGs with the same original file
name silently replaced each other's output.
---
 bin/dnglab/dnglab-lib/src/extract.rs | 33 +++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/extract.rs b/bin/dnglab/dnglab-lib/src/extract.rs
index 8be0f56..ec03389 100644
--- a/bin/dnglab/dnglab-lib/src/extract.rs
+++ b/bin/dnglab/dnglab-lib/src/extract.rs
@@ -7,6 +7,7 @@ use rawler::formats::tiff::reader::TiffReader;
 use rawler::formats::tiff::{Entry, GenericTiffReader, Value};
 use rawler::tags::DngTag;
 use rayon::iter::{IntoParallelRefIterator, ParallelIterator};
+use std::collections::HashSet;
 use std::fs::File;
 use std::io::BufReader;
 use std::path::{Path, PathBuf};
@@ -36,6 +37,7 @@ pub async fn extract(options: &ArgMatches) -> crate::Result<()> {
   let recursive = options.get_flag("recursive");
 
   let mut jobs = Vec::new();
+  let mut results: Vec<JobResult> = Vec::new();
 
   match proc {
     // We have only one input file, so output must be a file, too.
@@ -54,14 +56,25 @@ pub async fn extract(options: &ArgMatches) -> crate::Result<()> {
         }
       })?;
 
-      let tmp: Result<Vec<ExtractRawJob>> = list.par_iter().map(|entry| generate_job(entry, options, true)).collect();
-      jobs.extend(tmp?.into_iter());
+      let mut claimed = HashSet::new();
+      let tmp: Vec<Result<ExtractRawJob>> = list.par_iter().map(|entry| generate_job(entry, options, true)).collect();
+      for (entry, job) in list.iter().zip(tmp) {
+        // A bad file must not prevent the extraction of all others, and two
+        // files with the same original name must not replace each other.
+        match job {
+          Ok(job) if claimed.insert(job.output.clone()) => jobs.push(job),
+          Ok(job) => results.push(failed_job(entry, options, AppError::AlreadyExists(job.output))),
+          Err(err) => results.push(failed_job(entry, options, err)),
+        }
+      }
     }
   }
 
   let verbose = options.get_flag("verbose");
+  if verbose {
+    results.iter().for_each(|res| println!("Status: {}", res));
+  }
 
-  let mut results: Vec<JobResult> = Vec::new();
   for chunks in jobs.chunks(8) {
     let mut temp: Vec<JobResult> = join_all(chunks.iter().map(|j| j.execute()))
       .await
@@ -128,6 +141,20 @@ fn generate_job(entry: &FileMap, options: &ArgMatches, use_orig_filename: bool)
   })
 }
 
+/// Result for a file for which no job can be generated
+fn failed_job(entry: &FileMap, options: &ArgMatches, error: AppError) -> JobResult {
+  JobResult {
+    job: ExtractRawJob {
+      input: PathBuf::from(&entry.src),
+      output: PathBuf::from(&entry.dest),
+      replace: options.get_flag("override"),
+      skip_checks: options.get_flag("skipchecks"),
+    },
+    duration: 0.0,
+    error: Some(error),
+  }
+}
+
 /// Check if file extension is a supported extension
 fn is_ext_supported<T: AsRef<str>>(ext: T) -> bool {
   let uc = ext.as_ref().to_uppercase();
-- 
2.43.0


From 1549adf72d3c807cc47ff519c1bc043e1ae5fd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:17 +0000
Subject: [PATCH 26/68] fix: process-raw --keep-mtime fails on images with
 blank date

Fall back to the mtime of the source file, like convert.
---
 bin/dnglab/dnglab-lib/src/jobs/process_raw.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs b/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
index 296444a..ed22739 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
@@ -54,7 +54,11 @@ pub(crate) fn copy_mtime_from_rawsource(rawfile: &RawSource, file: &File, fallba
   let decoder = rawler::get_decoder(rawfile)?;
   let raw_params = RawDecodeParams { image_index: params.index };
   let metadata = decoder.raw_metadata(rawfile, &raw_params)?;
-  if let Some(ts) = metadata.last_modified()?.or(fallback) {
+  let last_modified = metadata.last_modified().unwrap_or_else(|err| {
+    log::warn!("Failed to get last-modified: {:?}", err);
+    None
+  });
+  if let Some(ts) = last_modified.or(fallback) {
     file.set_modified(ts)?;
     let datetime: chrono::DateTime<Local> = ts.into();
     log::debug!("Set mtime for output file to {}", datetime.format("%d/%m/%Y %T"));
-- 
2.43.0


From 8668909e998d11af901e0a1350339cef51dffd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:19 +0000
Subject: [PATCH 27/68] fix: a dangling symlink aborts processing of a
 directory

---
 bin/dnglab/dnglab-lib/src/filemap.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/bin/dnglab/dnglab-lib/src/filemap.rs b/bin/dnglab/dnglab-lib/src/filemap.rs
index 92786b6..110db75 100644
--- a/bin/dnglab/dnglab-lib/src/filemap.rs
+++ b/bin/dnglab/dnglab-lib/src/filemap.rs
@@ -116,7 +116,18 @@ where
   let dir = read_dir(input)?;
   for entry in dir {
     let entry = entry?;
-    let in_md = fs::metadata(entry.path())?;
+    let in_md = match fs::metadata(entry.path()) {
+      Ok(in_md) => in_md,
+      Err(err) => {
+        // A dangling symlink must not prevent processing of all other files,
+        // if it is a file to process, the job itself reports the error.
+        warn!("Unable to access {}: {}", entry.path().display(), err);
+        if filter(&entry.path()) {
+          result.push(entry.path());
+        }
+        continue;
+      }
+    };
     if in_md.is_file() {
       if filter(&entry.path()) {
         result.push(entry.path());
-- 
2.43.0


From 5924ce0ced45993c883f65780a2eb81bf77a4235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:26 +0000
Subject: [PATCH 28/68] fix: convert deadlocks if all rayon threads wait for
 embedding

Conversion jobs run on rayon's global pool and block there until a separate
thread has compressed the original file, but that thread needs the very same
pool. With as many jobs as threads (--jobs, single CPU) nothing ever proceeds.
---
 rawler/src/dng/original.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/rawler/src/dng/original.rs b/rawler/src/dng/original.rs
index c2ecd97..75c0d60 100644
--- a/rawler/src/dng/original.rs
+++ b/rawler/src/dng/original.rs
@@ -2,6 +2,7 @@
 // Copyright 2021 Daniel Vogelbacher <daniel@chaospixel.com>
 
 use byteorder::{BigEndian, ReadBytesExt};
+use lazy_static::lazy_static;
 use libflate::zlib::{Decoder, EncodeOptions, Encoder};
 use log::debug;
 use rayon::prelude::*;
@@ -14,6 +15,13 @@ use std::{
 // DNG requires this block size
 const COMPRESS_BLOCK_SIZE: u32 = 65536;
 
+lazy_static! {
+  /// The conversion jobs itself may run on threads of the global pool and block
+  /// there until the compression is done. If all threads of the global pool are
+  /// blocked, compression would never finish when using that pool, too.
+  static ref COMPRESS_POOL: Option<rayon::ThreadPool> = rayon::ThreadPoolBuilder::new().build().ok();
+}
+
 pub type OriginalDigest = [u8; 16];
 
 pub struct OriginalCompressed {
@@ -117,7 +125,10 @@ impl OriginalCompressed {
       forks.push(buf);
       //chunks.push(ForkBlock::compress(&buf)?);
     }
-    let chunks = forks.par_iter().flat_map(ForkBlock::compress).collect();
+    let chunks = match COMPRESS_POOL.as_ref() {
+      Some(pool) => pool.install(|| forks.par_iter().flat_map(ForkBlock::compress).collect()),
+      None => forks.iter().flat_map(ForkBlock::compress).collect(),
+    };
     let digest = Some(ctx.finalize().into());
 
     Ok(Self { raw_fork_size, chunks, digest })
-- 
2.43.0


From 8d48bad0a36d8f66990359aec6c20efa0296d087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:48 +0000
Subject: [PATCH 29/68] fix: FTP server leaves its root through symlinks and
 may remove it

STOR followed symlinks out of the server root, DELE removed the target of a
symlink instead of the link and RMD accepted the server root itself.
---
 embedftp/src/client.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index 7144235..b4b396c 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -266,6 +266,17 @@ where
     dir
   }
 
+  /// Complete path of a directory entry, without following the entry itself.
+  ///
+  /// Fails if the parent is outside of the server root or if there is no entry
+  /// name left (server root).
+  async fn complete_entry_path(&self, path: &Path) -> result::Result<PathBuf, io::Error> {
+    match (path.parent(), path.file_name()) {
+      (Some(parent), Some(name)) => Ok(self.complete_path(parent).await?.join(name)),
+      _ => Err(io::ErrorKind::PermissionDenied.into()),
+    }
+  }
+
   async fn mkd(&mut self, path: PathBuf) -> Result<()> {
     let fullpath = self.cwd.join(&path);
     let parent = get_parent(fullpath.clone());
@@ -294,7 +305,7 @@ where
 
   async fn rmd(&mut self, directory: PathBuf) -> Result<()> {
     let path = self.cwd.join(&directory);
-    let res = self.complete_path(&path).await;
+    let res = self.complete_entry_path(&path).await;
     if let Ok(dir) = res {
       if remove_dir_all(dir).await.is_ok() {
         self
@@ -311,7 +322,7 @@ where
 
   async fn dele(&mut self, file: PathBuf) -> Result<()> {
     let path = self.cwd.join(&file);
-    let res = self.complete_path(&path).await;
+    let res = self.complete_entry_path(&path).await;
     if let Ok(f) = res {
       if remove_file(f).await.is_ok() {
         self.send(Answer::new(ResultCode::RequestedFileActionOkay, "File successfully removed")).await?;
@@ -654,7 +665,14 @@ where
 
   /// Put file directly or delegate to a filter
   async fn put_file(&mut self, path: PathBuf, content: Arc<Vec<u8>>) -> Result<()> {
-    let path = PathBuf::from(&self.server_root).join(path.iter().skip(1).collect::<PathBuf>());
+    let mut path = self.complete_entry_path(&path).await?;
+    if tokio::fs::symlink_metadata(&path).await.is_ok() {
+      // The entry may be a symlink, it must not lead out of the server root.
+      path = canonicalize(&path).await?;
+      if !path.starts_with(&self.server_root) {
+        return Err(Error::Io(io::ErrorKind::PermissionDenied.into()));
+      }
+    }
     let handled = self.env.stor_file(&path, content.clone()).await?;
     if !handled {
       tokio::fs::write(&path, content.as_ref()).await?;
-- 
2.43.0


From 389ba9386aa584e5f7d80c2e2b6d36e6f48b1977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:52 +0000
Subject: [PATCH 30/68] fix: FTP server denies all access if its root is a
 relative path

---
 embedftp/src/server.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/embedftp/src/server.rs b/embedftp/src/server.rs
index dea0999..6b672ea 100644
--- a/embedftp/src/server.rs
+++ b/embedftp/src/server.rs
@@ -22,6 +22,8 @@ pub async fn serve<T>(handle: Handle, server_root: PathBuf, config: Config, env:
 where
   T: FtpCallback + Clone + Send + Sync + 'static,
 {
+  // Client paths are checked against the canonical root.
+  let server_root = tokio::fs::canonicalize(server_root).await?;
   let port = config.server_port;
   let addr = SocketAddr::new(config.server_addr, port);
   let listener = TcpListener::bind(&addr).await?;
-- 
2.43.0


From 24faf821877cd2a0e5d18dfcec9a5f2721da27ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:55 +0000
Subject: [PATCH 31/68] fix: FTP server accepts any password if anonymous
 access is enabled

This applies to the anonymous user only, not to all other configured users.
---
 embedftp/src/client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index b4b396c..5d83b43 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -134,7 +134,7 @@ where
     } else if self.name.is_some() && self.waiting_password {
       if let Command::Pass(content) = cmd {
         let mut ok = false;
-        if self.config.anonymous {
+        if self.config.anonymous && self.name.as_deref() == Some("anonymous") {
           ok = true;
         } else {
           for user in &self.config.users {
-- 
2.43.0


From 36500d6269d35bf07fca5183a24decaa95771ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:15 +0000
Subject: [PATCH 32/68] fix: FTP server sends wrong number of replies to data
 transfer commands

Failed RETR, LIST and NLST got an error reply and then 'Transfer done', or kept
the data connection open. STOR with a bad name dropped the session, a failed
active connection was replied twice, EPSV ALL never and PASV with an unused
data connection only by a preliminary reply.
---
 embedftp/src/client.rs | 55 +++++++++++++++++++++++++-----------------
 1 file changed, 33 insertions(+), 22 deletions(-)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index 5d83b43..301899c 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -226,7 +226,8 @@ where
     Ok(())
   }
 
-  async fn initiate_data_connection(&mut self) -> Result<()> {
+  /// Returns false if opening failed, the client is already informed then.
+  async fn initiate_data_connection(&mut self) -> Result<bool> {
     // only open when we are in active mode
     if let Some(port) = self.active_data_port {
       let mut addr = self.remote_addr;
@@ -236,14 +237,14 @@ where
         Err(e) => {
           error!("Connection failed to {}, {}", addr, e);
           self.send(Answer::new(ResultCode::CantOpenDataConnection, "Unable to connect")).await?;
-          return Ok(());
+          return Ok(false);
         }
       };
       let (r, w) = stream.into_split();
       self.data_writer = Some(w);
       self.data_reader = Some(r);
     }
-    Ok(())
+    Ok(true)
   }
 
   fn close_data_connection(&mut self) {
@@ -363,7 +364,9 @@ where
   }
 
   async fn list(&mut self, path: Option<PathBuf>) -> Result<()> {
-    self.initiate_data_connection().await?;
+    if !self.initiate_data_connection().await? {
+      return Ok(());
+    }
     if self.data_writer.is_some() {
       let path = self.cwd.join(path.unwrap_or_default());
       let directory = PathBuf::from(&path);
@@ -382,6 +385,7 @@ where
               }
             }
             Err(_) => {
+              self.close_data_connection();
               self
                 .send(Answer::new(ResultCode::InvalidParameterOrArgument, "No such file or directory"))
                 .await?;
@@ -394,6 +398,7 @@ where
         self.send_data(out).await?;
       } else {
         warn!("No such file or directory");
+        self.close_data_connection();
         self
           .send(Answer::new(ResultCode::InvalidParameterOrArgument, "No such file or directory"))
           .await?;
@@ -410,7 +415,9 @@ where
   }
 
   async fn nlst(&mut self, path: Option<PathBuf>) -> Result<()> {
-    self.initiate_data_connection().await?;
+    if !self.initiate_data_connection().await? {
+      return Ok(());
+    }
     if self.data_writer.is_some() {
       let cwd = self.cwd.clone();
       let res = self.complete_path(&cwd).await;
@@ -419,10 +426,10 @@ where
 
         let pattern = if let Some(p) = path {
           if p.is_absolute() {
+            self.close_data_connection();
             self
               .send(Answer::new(ResultCode::InvalidParameterOrArgument, "No such file or directory"))
               .await?;
-            self.close_data_connection();
             return Ok(());
           }
           cwd.join(p)
@@ -433,6 +440,7 @@ where
         let matches = match pattern.to_str().map(|s| glob(s).map_err(|_| Error::from("Invalid glob pattern"))) {
           Some(Ok(matches)) => matches,
           _ => {
+            self.close_data_connection();
             self
               .send(Answer::new(ResultCode::InvalidParameterOrArgument, "Invalid pattern specified"))
               .await?;
@@ -466,6 +474,7 @@ where
 
         self.send_data(out).await?;
       } else {
+        self.close_data_connection();
         self.send(Answer::new(ResultCode::FileNotFound, "No such file or directory")).await?;
       }
     } else {
@@ -479,10 +488,7 @@ where
   }
 
   async fn pasv(&mut self) -> Result<()> {
-    if self.data_writer.is_some() {
-      self.send(Answer::new(ResultCode::DataConnectionAlreadyOpen, "Already listening...")).await?;
-      return Ok(());
-    }
+    self.close_data_connection(); // A new one replaces an unused data connection
     self.active_data_port = None;
     let port = 0; // auto configure port
     let mut addr = self.local_addr;
@@ -531,15 +537,12 @@ where
 
     if let Some(proto) = proto {
       if proto.to_uppercase().eq("ALL") {
-        self.data_writer = None;
-        return Ok(());
+        self.close_data_connection();
+        return self.send(Answer::new(ResultCode::Ok, "EPSV ALL command successful")).await;
       }
     }
 
-    if self.data_writer.is_some() {
-      self.send(Answer::new(ResultCode::DataConnectionAlreadyOpen, "Already listening...")).await?;
-      return Ok(());
-    }
+    self.close_data_connection(); // A new one replaces an unused data connection
 
     self.active_data_port = None;
 
@@ -576,7 +579,9 @@ where
   }
 
   async fn retr(&mut self, path: PathBuf) -> Result<()> {
-    self.initiate_data_connection().await?;
+    if !self.initiate_data_connection().await? {
+      return Ok(());
+    }
     // TODO: check if multiple data connection can be opened at the same time.
     if self.data_writer.is_some() {
       let path = self.cwd.join(path);
@@ -584,13 +589,11 @@ where
       if let Ok(path) = res {
         let is_file = metadata(&path).await.map(|m| m.is_file()).unwrap_or(false);
         if is_file {
-          self
-            .send(Answer::new(ResultCode::DataConnectionAlreadyOpen, "Starting to send file..."))
-            .await?;
           let mut file = match File::open(&path).await {
             Ok(file) => file,
             Err(e) => {
               error!("Failed to open file {:?}, {}", path, e);
+              self.close_data_connection();
               self
                 .send(Answer::new(
                   ResultCode::LocalErrorInProcessing,
@@ -600,6 +603,9 @@ where
               return Ok(());
             }
           };
+          self
+            .send(Answer::new(ResultCode::DataConnectionAlreadyOpen, "Starting to send file..."))
+            .await?;
           if let Some(writer) = &mut self.data_writer {
             tokio::io::copy(&mut file, writer).await?;
           } else {
@@ -607,6 +613,7 @@ where
           }
         } else {
           warn!("No path, not exist");
+          self.close_data_connection();
           self
             .send(Answer::new(
               ResultCode::LocalErrorInProcessing,
@@ -616,6 +623,7 @@ where
         }
       } else {
         warn!("No path");
+        self.close_data_connection();
         self
           .send(Answer::new(
             ResultCode::LocalErrorInProcessing,
@@ -635,10 +643,13 @@ where
   }
 
   async fn stor(&mut self, path: PathBuf) -> Result<()> {
-    self.initiate_data_connection().await?;
+    if !self.initiate_data_connection().await? {
+      return Ok(());
+    }
     if self.data_reader.is_some() {
       if invalid_path(&path) {
-        return Err(Error::Io(io::ErrorKind::PermissionDenied.into()));
+        self.close_data_connection();
+        return self.send(Answer::new(ResultCode::FileNameNotAllowed, "File name not allowed")).await;
       }
       let path = self.cwd.join(path);
       self
-- 
2.43.0


From 8ea4415ccf7dcea52825b19e044b11daae40873d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:37 +0000
Subject: [PATCH 33/68] fix: FTP session is dropped on invalid commands and
 broken transfers

Both terminated the control connection without any reply.
---
 embedftp/src/client.rs | 24 ++++++++++++++++++++----
 embedftp/src/codec.rs  |  4 ++--
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index 301899c..a7e50fd 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -252,6 +252,13 @@ where
     self.data_writer = None;
   }
 
+  /// A broken data connection only terminates the transfer, not the session.
+  async fn transfer_aborted(&mut self, err: impl std::fmt::Display) -> Result<()> {
+    error!("Transfer aborted: {}", err);
+    self.close_data_connection();
+    self.send(Answer::new(ResultCode::ConnectionClosed, "Transfer aborted")).await
+  }
+
   async fn complete_path(&self, path: &Path) -> result::Result<PathBuf, io::Error> {
     let directory = self.server_root.join(if path.has_root() {
       path.iter().skip(1).clone().collect()
@@ -395,7 +402,9 @@ where
         } else {
           add_file_info(path, &mut out).await;
         }
-        self.send_data(out).await?;
+        if let Err(e) = self.send_data(out).await {
+          return self.transfer_aborted(e).await;
+        }
       } else {
         warn!("No such file or directory");
         self.close_data_connection();
@@ -472,7 +481,9 @@ where
           }
         }
 
-        self.send_data(out).await?;
+        if let Err(e) = self.send_data(out).await {
+          return self.transfer_aborted(e).await;
+        }
       } else {
         self.close_data_connection();
         self.send(Answer::new(ResultCode::FileNotFound, "No such file or directory")).await?;
@@ -607,7 +618,9 @@ where
             .send(Answer::new(ResultCode::DataConnectionAlreadyOpen, "Starting to send file..."))
             .await?;
           if let Some(writer) = &mut self.data_writer {
-            tokio::io::copy(&mut file, writer).await?;
+            if let Err(e) = tokio::io::copy(&mut file, writer).await {
+              return self.transfer_aborted(e).await;
+            }
           } else {
             return Err(Error::from("Trying to send data but no data connection is open."));
           }
@@ -655,7 +668,10 @@ where
       self
         .send(Answer::new(ResultCode::DataConnectionAlreadyOpen, "Starting to send file..."))
         .await?;
-      let data = self.receive_data().await?;
+      let data = match self.receive_data().await {
+        Ok(data) => data,
+        Err(e) => return self.transfer_aborted(e).await,
+      };
       info!("Received file: {:?}, {} bytes", path, data.len());
       self.close_data_connection();
       match self.put_file(path, Arc::new(data)).await {
diff --git a/embedftp/src/codec.rs b/embedftp/src/codec.rs
index d173308..58c8061 100644
--- a/embedftp/src/codec.rs
+++ b/embedftp/src/codec.rs
@@ -3,7 +3,6 @@
 // Copyright 2021 Daniel Vogelbacher <daniel@chaospixel.com>
 
 use crate::command::Command;
-use crate::error::Error;
 use crate::ftp::Answer;
 use bytes::BytesMut;
 use std::io::{self, Write};
@@ -20,7 +19,8 @@ impl Decoder for FtpCodec {
     if let Some(index) = find_crlf(buf) {
       let line = buf.split_to(index);
       let _ = buf.split_to(2); // Remove \r\n.
-      Command::new(line.to_vec()).map(Some).map_err(Error::to_io_error)
+      // An invalid command must not terminate the session, let the client know.
+      Ok(Some(Command::new(line.to_vec()).unwrap_or_else(|err| Command::Unknown(err.to_string()))))
     } else {
       Ok(None)
     }
-- 
2.43.0


From 5120eb487055f1295b1451c4aa08211794955c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:41 +0000
Subject: [PATCH 34/68] fix: FTP NLST lists nothing in directories with glob
 characters

---
 embedftp/src/client.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index a7e50fd..94bfde9 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -432,6 +432,8 @@ where
       let res = self.complete_path(&cwd).await;
       if let Ok(cwd) = res {
         let mut out = vec![];
+        // Only the client's part of the path is a pattern
+        let cwd = PathBuf::from(glob::Pattern::escape(&cwd.to_string_lossy()));
 
         let pattern = if let Some(p) = path {
           if p.is_absolute() {
-- 
2.43.0


From 0f38df1fb0fb2d8d9dc3ba32700aada8fc2a808e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:54 +0000
Subject: [PATCH 35/68] fix: FTP auto-convert leaves truncated DNG files behind

A failed conversion left a partial DNG, write errors of the last block were
ignored. An existing symlink is replaced and not followed.
---
 bin/dnglab/dnglab-lib/src/ftpconv.rs | 30 +++++++++++++---------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/ftpconv.rs b/bin/dnglab/dnglab-lib/src/ftpconv.rs
index 57e8864..8e8e8ad 100644
--- a/bin/dnglab/dnglab-lib/src/ftpconv.rs
+++ b/bin/dnglab/dnglab-lib/src/ftpconv.rs
@@ -7,7 +7,6 @@ use embedftp::server::serve;
 use rawler::decoders::supported_extensions;
 use rawler::rawsource::RawSource;
 use std::ffi::OsStr;
-use std::fs::File;
 use std::io::BufWriter;
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
@@ -15,7 +14,8 @@ use std::sync::Arc;
 use tokio::runtime::Handle;
 
 use crate::jobs::raw2dng::copy_mtime_from_rawsource;
-use crate::{PKG_NAME, PKG_VERSION};
+use crate::jobs::{create_output, remove_output_on_failure};
+use crate::{AppError, PKG_NAME, PKG_VERSION};
 use rawler::dng::convert::{ConvertParams, convert_raw_source};
 
 #[derive(Clone)]
@@ -38,21 +38,19 @@ impl FtpCallback for FtpState {
       let original_filename = path.file_name().and_then(OsStr::to_str).unwrap_or_default();
       let rawfile = RawSource::new_from_shared_vec(data).with_path(original_filename);
       let out_path = path.with_extension("dng");
-      let mut dng = BufWriter::new(File::create(out_path)?);
-      let _info =
-        convert_raw_source(&rawfile, &mut dng, original_filename, &state.params).map_err(|err| std::io::Error::new(std::io::ErrorKind::Other, err))?;
-      if state.params.keep_mtime {
-        if let Err(err) = copy_mtime_from_rawsource(
-          &rawfile,
-          &dng
-            .into_inner()
-            .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, format!("Can't access inner file: {e}")))?,
-          None,
-          &state.params,
-        ) {
-          log::warn!("Failed to set mtime, continue anyway: {}", err);
+      let file = create_output::<PathBuf>(&[], &out_path, true).map_err(std::io::Error::other)?;
+      remove_output_on_failure(&out_path, || {
+        let mut dng = BufWriter::new(file);
+        let _info = convert_raw_source(&rawfile, &mut dng, original_filename, &state.params)?;
+        let file = dng.into_inner().map_err(|e| AppError::General(format!("Can't access inner file: {e}")))?;
+        if state.params.keep_mtime {
+          if let Err(err) = copy_mtime_from_rawsource(&rawfile, &file, None, &state.params) {
+            log::warn!("Failed to set mtime, continue anyway: {}", err);
+          }
         }
-      }
+        Ok(())
+      })
+      .map_err(std::io::Error::other)?;
       Ok(!state.keep_orig)
     })
     .await
-- 
2.43.0


From 2fd4e299364ec5dce2f34de3802389cb88673e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:26 +0000
Subject: [PATCH 36/68] fix: extract fails if the mirrored sub directory does
 not exist

---
 bin/dnglab/dnglab-lib/src/extract.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bin/dnglab/dnglab-lib/src/extract.rs b/bin/dnglab/dnglab-lib/src/extract.rs
index ec03389..433aa0f 100644
--- a/bin/dnglab/dnglab-lib/src/extract.rs
+++ b/bin/dnglab/dnglab-lib/src/extract.rs
@@ -8,7 +8,7 @@ use rawler::formats::tiff::{Entry, GenericTiffReader, Value};
 use rawler::tags::DngTag;
 use rayon::iter::{IntoParallelRefIterator, ParallelIterator};
 use std::collections::HashSet;
-use std::fs::File;
+use std::fs::{File, create_dir_all};
 use std::io::BufReader;
 use std::path::{Path, PathBuf};
 use std::time::Instant;
@@ -133,6 +133,12 @@ fn generate_job(entry: &FileMap, options: &ArgMatches, use_orig_filename: bool)
     PathBuf::from(&entry.dest)
   };
 
+  if let Some(parent) = output.parent() {
+    if !parent.exists() {
+      create_dir_all(parent)?;
+    }
+  }
+
   Ok(ExtractRawJob {
     input: PathBuf::from(&entry.src),
     output,
-- 
2.43.0


From 0400d0b237f6e053867e950579f44e03909685a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:26 +0000
Subject: [PATCH 37/68] fix: FTP CWD into a regular file succeeds

---
 embedftp/src/client.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index 94bfde9..6fa9743 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -352,8 +352,9 @@ where
     let path = self.cwd.join(&directory);
     let res = self.complete_path(&path).await;
     if let Ok(dir) = res {
+      let is_dir = metadata(&dir).await.map(|m| m.is_dir()).unwrap_or(false);
       let res = self.strip_prefix(dir);
-      if let Ok(prefix) = res {
+      if let (true, Ok(prefix)) = (is_dir, res) {
         self.cwd = prefix.to_path_buf();
         prefix_slash(&mut self.cwd);
         self
-- 
2.43.0


From 0668200d8e6932b94c9a6cc2ced348750157236a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:49 +0000
Subject: [PATCH 38/68] fix: makedng: round matrix and white balance values to
 the nearest rational

The values were truncated towards zero, so e.g. 0.7 was stored as 6999/10000.
---
 bin/dnglab/dnglab-lib/src/makedng.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/makedng.rs b/bin/dnglab/dnglab-lib/src/makedng.rs
index cb0fc37..15be773 100644
--- a/bin/dnglab/dnglab-lib/src/makedng.rs
+++ b/bin/dnglab/dnglab-lib/src/makedng.rs
@@ -290,7 +290,7 @@ impl FromStr for WhiteBalanceInput {
 
 impl WhiteBalanceInput {
   fn as_tiff_value(&self) -> tiff::Value {
-    tiff::Value::Rational(self.values.iter().map(|x| Rational::new((x * 10_000.0) as u32, 10_000)).collect_vec())
+    tiff::Value::Rational(self.values.iter().map(|x| Rational::new((x * 10_000.0).round() as u32, 10_000)).collect_vec())
   }
 }
 
@@ -503,8 +503,8 @@ pub struct WhitePointArg {
 impl WhitePointArg {
   fn as_tiff_value(&self) -> tiff::Value {
     tiff::Value::Rational(vec![
-      Rational::new((self.x * 10_000.0) as u32, 10_000),
-      Rational::new((self.y * 10_000.0) as u32, 10_000),
+      Rational::new((self.x * 10_000.0).round() as u32, 10_000),
+      Rational::new((self.y * 10_000.0).round() as u32, 10_000),
     ])
   }
 }
@@ -572,7 +572,7 @@ pub struct ColorMatrixArg {
 
 impl ColorMatrixArg {
   fn as_tiff_value(&self) -> tiff::Value {
-    tiff::Value::SRational(self.matrix.iter().map(|x| SRational::new((x * 10_000.0) as i32, 10_000)).collect_vec())
+    tiff::Value::SRational(self.matrix.iter().map(|x| SRational::new((x * 10_000.0).round() as i32, 10_000)).collect_vec())
   }
 }
 
-- 
2.43.0


From 439b8923b796e266a43a06847c333498df084e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:49 +0000
Subject: [PATCH 39/68] fix: makedng: let explicit tag options win over the
 EXIF input

load_metadata() replaced e.g. the Artist given by --artist with the one from
the EXIF input file.
---
 bin/dnglab/dnglab-lib/src/makedng.rs | 41 ++++++++++++++--------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/makedng.rs b/bin/dnglab/dnglab-lib/src/makedng.rs
index 15be773..b2067c9 100644
--- a/bin/dnglab/dnglab-lib/src/makedng.rs
+++ b/bin/dnglab/dnglab-lib/src/makedng.rs
@@ -82,26 +82,6 @@ pub fn makedng_internal(options: &ArgMatches, dest_path: &Path, file: File) -> c
 
   let mut dng = DngWriter::new(&mut stream, backward_version)?;
 
-  if let Some(artist) = options.get_one::<String>("artist") {
-    dng.root_ifd_mut().add_tag(TiffCommonTag::Artist, artist);
-  }
-
-  if let Some(make) = options.get_one::<String>("make") {
-    dng.root_ifd_mut().add_tag(TiffCommonTag::Make, make);
-  }
-
-  if let Some(model) = options.get_one::<String>("model") {
-    dng.root_ifd_mut().add_tag(TiffCommonTag::Model, model);
-  }
-
-  if let Some(unique_camera_model) = options.get_one::<String>("unique_camera_model") {
-    dng.root_ifd_mut().add_tag(DngTag::UniqueCameraModel, unique_camera_model);
-  }
-
-  if let Some(colorimetric_reference) = options.get_one::<DngColorimetricReference>("colorimetric_reference") {
-    dng.root_ifd_mut().add_tag(DngTag::ColorimetricReference, colorimetric_reference.as_dng_value());
-  }
-
   if let Ok(raw_input) = get_input_path(&inputs, &maps, InputUsage::Raw) {
     let rawfile = RawSource::new(raw_input)?;
     if let Ok(decoder) = get_decoder(&rawfile) {
@@ -208,6 +188,27 @@ pub fn makedng_internal(options: &ArgMatches, dest_path: &Path, file: File) -> c
     eprintln!("No EXIF input file found");
   }
 
+  // Explicit options take precedence over the values from the EXIF input.
+  if let Some(artist) = options.get_one::<String>("artist") {
+    dng.root_ifd_mut().add_tag(TiffCommonTag::Artist, artist);
+  }
+
+  if let Some(make) = options.get_one::<String>("make") {
+    dng.root_ifd_mut().add_tag(TiffCommonTag::Make, make);
+  }
+
+  if let Some(model) = options.get_one::<String>("model") {
+    dng.root_ifd_mut().add_tag(TiffCommonTag::Model, model);
+  }
+
+  if let Some(unique_camera_model) = options.get_one::<String>("unique_camera_model") {
+    dng.root_ifd_mut().add_tag(DngTag::UniqueCameraModel, unique_camera_model);
+  }
+
+  if let Some(colorimetric_reference) = options.get_one::<DngColorimetricReference>("colorimetric_reference") {
+    dng.root_ifd_mut().add_tag(DngTag::ColorimetricReference, colorimetric_reference.as_dng_value());
+  }
+
   if let Ok(xmp_input) = get_input_path(&inputs, &maps, InputUsage::Xmp) {
     let rawfile = RawSource::new(xmp_input)?;
 
-- 
2.43.0


From addf0a67d0e511b8a08b5847945957abf7fb45f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:43 +0000
Subject: [PATCH 40/68] fix: jfif: skip segments which can't be parsed

A JFXX extension failed the whole file, an unreadable Exif segment was never
skipped (and looped forever at the end of the file), the size of an embedded
thumbnail overflowed and a fill byte in front of a marker hid the marker.
---
 rawler/src/formats/jfif.rs | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/rawler/src/formats/jfif.rs b/rawler/src/formats/jfif.rs
index 05f8964..0171838 100644
--- a/rawler/src/formats/jfif.rs
+++ b/rawler/src/formats/jfif.rs
@@ -43,7 +43,7 @@ pub struct App0 {
 
 impl<R: Read + Seek> ReadSegment<&mut R> for App0 {
   fn read_segment(reader: &mut R, _symbol: u16) -> Result<Self> {
-    //let pos = reader.stream_position()?;
+    let pos = reader.stream_position()?;
     let len: u64 = reader.read_u16::<BigEndian>()? as u64;
 
     const APP1_JFIF_MARKER: [u8; 5] = [b'J', b'F', b'I', b'F', b'\0'];
@@ -58,13 +58,14 @@ impl<R: Read + Seek> ReadSegment<&mut R> for App0 {
         let ydensity = reader.read_u16::<BigEndian>()?;
         let xthumbnail = reader.read_u8()?;
         let ythumbnail = reader.read_u8()?;
-        let thumbnail = if xthumbnail * ythumbnail > 0 {
-          let mut data = vec![0; (3 * xthumbnail * ythumbnail) as usize];
+        let thumbnail = if xthumbnail > 0 && ythumbnail > 0 {
+          let mut data = vec![0; 3 * xthumbnail as usize * ythumbnail as usize];
           reader.read_exact(&mut data)?;
           Some(data)
         } else {
           None
         };
+        reader.seek(SeekFrom::Start(pos + len))?;
         Ok(Self {
           len,
           version,
@@ -105,8 +106,7 @@ impl<R: Read + Seek> ReadSegment<&mut R> for SOS {
     loop {
       let v = reader.read_u8()?;
       if prev == 0xFF && v == 0xFF {
-        prev = 0;
-        continue;
+        continue; // Fill byte, the next byte may be a marker
       }
       if prev == 0xFF && (v & !0x7) == 0xD0 {
         prev = 0;
@@ -174,7 +174,7 @@ impl<R: Read + Seek> ReadSegment<&mut R> for App1 {
     }
 
     const APP1_XMP_MARKER: &str = concat!("http://ns.adobe.com/xap/1.0/", '\0');
-    if len as usize >= APP1_XMP_MARKER.len() {
+    if len as usize >= APP1_XMP_MARKER.len() + 2 {
       let mut xmp_str = [0; APP1_XMP_MARKER.len()];
       reader.read_exact(&mut xmp_str)?;
       if xmp_str == APP1_XMP_MARKER.as_bytes() {
@@ -224,15 +224,21 @@ impl Jfif {
       let segment = match symbol {
         0xFFD8 => Segment::SOI { offset: pos },
         0xFFD9 => Segment::EOI,
-        0xFFE0 => Segment::APP0 {
-          offset: pos,
-          app0: App0::read_segment(&mut reader, symbol)?,
+        0xFFE0 => match App0::read_segment(&mut reader, symbol) {
+          Ok(app0) => Segment::APP0 { offset: pos, app0 },
+          Err(err) => {
+            // Not all APP0 segments are JFIF, for example there are JFXX extensions.
+            log::warn!("Failed to read APP0 segment: {:?}", err);
+            Self::skip_segment(&mut reader, pos)?;
+            Segment::Unknown { offset: pos, marker: symbol }
+          }
         },
         0xFFE1 => match App1::read_segment(&mut reader, symbol) {
           Ok(app1) => Segment::APP1 { offset: pos, app1 },
           Err(err) => {
             log::warn!("Failed to read APP1 (EXIF) segement, maybe corrupt: {:?}", err);
-            continue;
+            Self::skip_segment(&mut reader, pos)?;
+            Segment::Unknown { offset: pos, marker: symbol }
           }
         },
         0xFFDA => Segment::SOS {
@@ -265,6 +271,14 @@ impl Jfif {
     }
   }
 
+  /// Seek to the end of the segment whose marker is located at `pos`.
+  fn skip_segment<R: Read + Seek>(reader: &mut R, pos: u64) -> Result<()> {
+    reader.seek(SeekFrom::Start(pos + 2))?;
+    let len: u64 = reader.read_u16::<BigEndian>()? as u64;
+    reader.seek(SeekFrom::Start(pos + 2 + len))?;
+    Ok(())
+  }
+
   pub fn new(file: &RawSource) -> Result<Self> {
     Self::parse(&mut file.reader())
   }
-- 
2.43.0


From 5f1ab45cf657f37d3cbaa063905dee51833dd643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:43 +0000
Subject: [PATCH 41/68] fix: ljpeg: accept all sample precisions of lossless
 JPEG

The encoder is used for 8 bit images as well, but the decoder refused to read
less than 10 bits, so DNGs from 8 bit sources can't be read back.
---
 rawler/src/decompressors/ljpeg/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/decompressors/ljpeg/mod.rs b/rawler/src/decompressors/ljpeg/mod.rs
index c1b9178..ee24283 100644
--- a/rawler/src/decompressors/ljpeg/mod.rs
+++ b/rawler/src/decompressors/ljpeg/mod.rs
@@ -194,7 +194,7 @@ impl<'a> LjpegDecompressor<'a> {
       if marker == m(Marker::SOF3) {
         // Start of the frame, giving us the basic info
         sof.parse_sof(&mut input)?;
-        if sof.precision > 16 || sof.precision < 10 {
+        if sof.precision > 16 || sof.precision < 2 {
           return Err(format!("ljpeg: sof.precision {}", sof.precision));
         }
       } else if marker == m(Marker::DHT) {
-- 
2.43.0


From 8e6ed9cfaa710bfb6e1eb1dbbe003c93b2f2d595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:43 +0000
Subject: [PATCH 42/68] fix: process-raw: respect --artist and --crop

Both parameters were accepted but never used for the developed image.
---
 rawler/src/imgop/develop.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/rawler/src/imgop/develop.rs b/rawler/src/imgop/develop.rs
index e0a0d89..9a03941 100644
--- a/rawler/src/imgop/develop.rs
+++ b/rawler/src/imgop/develop.rs
@@ -57,9 +57,19 @@ pub fn process_raw_image<W: Write + Seek + Send>(raw: &Path, image_file: &mut W,
   let rawfile = RawSource::new(raw)?;
   let decoder = crate::get_decoder(&rawfile)?;
   let raw_params = RawDecodeParams { image_index: params.index };
-  let rawimage = decoder.raw_image(&rawfile, &raw_params, false)?;
-  let metadata = decoder.raw_metadata(&rawfile, &raw_params)?;
-  let develop = RawDevelop::default();
+  let mut rawimage = decoder.raw_image(&rawfile, &raw_params, false)?;
+  let mut metadata = decoder.raw_metadata(&rawfile, &raw_params)?;
+  let mut develop = RawDevelop::default();
+  if let Some(artist) = &params.artist {
+    metadata.exif.artist = Some(artist.clone());
+  }
+  match params.crop {
+    CropMode::Best => {}
+    CropMode::ActiveArea => rawimage.crop_area = None,
+    CropMode::None => develop
+      .steps
+      .retain(|step| !matches!(step, ProcessingStep::CropActiveArea | ProcessingStep::CropDefault)),
+  }
   develop.develop(&rawimage, &metadata, image_file)?;
   Ok(())
 }
-- 
2.43.0


From e5d98d0b7930163ccf6ee66aa56a22bc057a4dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:43 +0000
Subject: [PATCH 43/68] fix: apply row and column black level patterns to bayer
 images

Only the first level of a 1x2 or 2x1 BlackLevel pattern was used.
---
 rawler/src/rawimage.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rawler/src/rawimage.rs b/rawler/src/rawimage.rs
index 3b0f8cd..7230700 100644
--- a/rawler/src/rawimage.rs
+++ b/rawler/src/rawimage.rs
@@ -129,12 +129,12 @@ impl BlackLevel {
         self.levels[3].as_f32(),
       ]
     } else {
-      [
-        self.levels[0].as_f32(),
-        self.levels[0].as_f32(),
-        self.levels[0].as_f32(),
-        self.levels[0].as_f32(),
-      ]
+      // Repeat patterns like 1x2 or 2x1 over the bayer block
+      let level = |x: usize, y: usize| {
+        let idx = ((y % self.height) * self.width + x % self.width) * self.cpp;
+        self.levels.get(idx).unwrap_or(&self.levels[0]).as_f32()
+      };
+      [level(0, 0), level(1, 0), level(0, 1), level(1, 1)]
     }
   }
 
-- 
2.43.0


From 2be1af0bb79ece04f385b60ac7c6b77c299c9710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:58 +0000
Subject: [PATCH 44/68] fix: lossless DNGs from 8 bit monochrome sources can't
 be read

Compression 7 with 8 bit BlackIsZero is defined as baseline DCT JPEG, readers
(including rawler) refuse the lossless JPEG data.
---
 rawler/src/dng/writer.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/rawler/src/dng/writer.rs b/rawler/src/dng/writer.rs
index 15c0350..cb5c09a 100644
--- a/rawler/src/dng/writer.rs
+++ b/rawler/src/dng/writer.rs
@@ -573,6 +573,13 @@ where
   let tile_w = 256 & !0b111; // ensure div 16
   let tile_h = 256 & !0b111;
 
+  // With 8 bits, DNG readers expect baseline DCT JPEG for BlackIsZero images,
+  // so store these samples with a precision of 16 bit.
+  let bps = match rawimage.photometric {
+    RawPhotometricInterpretation::BlackIsZero if rawimage.bps == 8 => 16,
+    _ => rawimage.bps,
+  };
+
   let lj92_data = match rawimage.data {
     RawImageData::Integer(ref data) => {
       // Only merge two lines into one for higher predictors, if image is CFA
@@ -596,7 +603,7 @@ where
         }
       };
 
-      debug!("LJPEG compression: bit depth: {}", rawimage.bps);
+      debug!("LJPEG compression: bit depth: {}", bps);
 
       // Build and compress each tile in one parallel pass: tile materialization
       // overlaps with LJPEG encoding instead of pre-collecting `Vec<Vec<u16>>`
@@ -604,12 +611,11 @@ where
       // staging to roughly O(threads × tile).
       let tiler = ImageTiler::new(data, rawimage.width, rawimage.height, rawimage.cpp, tile_w, tile_h);
       let n_tiles = tiler.tile_count();
-      let bps = rawimage.bps as u8;
       let tiles_compr: Vec<Vec<u8>> = (0..n_tiles)
         .into_par_iter()
         .map(|idx| {
           let tile = tiler.build_tile(idx);
-          let state = LjpegCompressor::new(&tile, j_width * realign, j_height / realign, components, bps, predictor, 0, 0)
+          let state = LjpegCompressor::new(&tile, j_width * realign, j_height / realign, components, bps as u8, predictor, 0, 0)
             .map_err(|e| DngError::General(format!("LJPEG compressor init failed: {}", e)))?;
           state.encode().map_err(|e| DngError::General(format!("LJPEG encoding failed: {}", e)))
         })
@@ -632,7 +638,7 @@ where
 
   subframe
     .ifd_mut()
-    .add_tag(TiffCommonTag::BitsPerSample, &vec![rawimage.bps as u16; rawimage.cpp]);
+    .add_tag(TiffCommonTag::BitsPerSample, &vec![bps as u16; rawimage.cpp]);
   subframe.ifd_mut().add_tag(TiffCommonTag::SampleFormat, &vec![1_u16; rawimage.cpp]);
   subframe.ifd_mut().add_tag(TiffCommonTag::TileOffsets, &tile_offsets);
   subframe.ifd_mut().add_tag(TiffCommonTag::TileByteCounts, &tile_sizes);
-- 
2.43.0


From 7d56ccd2bc9e71191c0e4d813ee9f3cbba55de65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:11 +0000
Subject: [PATCH 45/68] fix: place CRX tile rows at multiples of the tile
 height

---
 rawler/src/decompressors/crx/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/decompressors/crx/decoder.rs b/rawler/src/decompressors/crx/decoder.rs
index b67d98d..f0248f2 100644
--- a/rawler/src/decompressors/crx/decoder.rs
+++ b/rawler/src/decompressors/crx/decoder.rs
@@ -732,7 +732,7 @@ fn integrate_cfa(codec: &CodecParams, tiles: &[Tile], cfa_buf: &mut [u16], tile_
   let tile_col_idx = tile_id % codec.tile_cols; // round down
 
   // Offset from top
-  let row_offset = tile_row_idx * codec.tile_width;
+  let row_offset = tile_row_idx * codec.tile_height;
   // Offset from left
   let col_offset = tile_col_idx * codec.tile_width;
   let (row_shift, col_shift) = match plane_id {
-- 
2.43.0


From ed76d63939f965357384d3a1409ee0bfd2cf9b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:12 +0000
Subject: [PATCH 46/68] fix: predict CRX lines from unscaled coefficients

---
 rawler/src/decompressors/crx/iquant.rs | 14 +++++++++-----
 rawler/src/decompressors/crx/mod.rs    |  6 ------
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/rawler/src/decompressors/crx/iquant.rs b/rawler/src/decompressors/crx/iquant.rs
index 8087051..9fc84ef 100644
--- a/rawler/src/decompressors/crx/iquant.rs
+++ b/rawler/src/decompressors/crx/iquant.rs
@@ -72,6 +72,10 @@ impl CodecParams {
     // Entropy decode the current line, then apply inverse quantization
     self.decode_line(param)?;
 
+    // The line buffer must keep the unscaled values, they are the reference for
+    // the prediction of the next line.
+    let mut line = Vec::from(param.decoded_buf());
+
     match q_step {
       Some(q_step) => {
         // new version
@@ -79,21 +83,21 @@ impl CodecParams {
 
         for i in 0..band.col_start_addon {
           let quant_val = band.q_step_base + ((q_step_tbl_ptr[0] * band.q_step_multi as u32) >> 3) as i32;
-          param.decoded_buf_mut()[i] *= constrain(quant_val, 1, 0x168000);
+          line[i] *= constrain(quant_val, 1, 0x168000);
         }
 
         for i in band.col_start_addon..(band.width - band.col_end_addon) {
           let idx = (i - band.col_start_addon) >> band.level_shift;
           let quant_val = band.q_step_base + ((q_step_tbl_ptr[idx] * band.q_step_multi as u32) >> 3) as i32;
           //eprintln!("{}", quant_val);
-          param.decoded_buf_mut()[i] *= constrain(quant_val, 1, 0x168000);
+          line[i] *= constrain(quant_val, 1, 0x168000);
         }
 
         let last_idx = (band.width - band.col_end_addon - band.col_start_addon - 1) >> band.level_shift;
 
         for i in (band.width - band.col_end_addon)..band.width {
           let quant_val = band.q_step_base + ((q_step_tbl_ptr[last_idx] * band.q_step_multi as u32) >> 3) as i32;
-          param.decoded_buf_mut()[i] *= constrain(quant_val, 1, 0x168000);
+          line[i] *= constrain(quant_val, 1, 0x168000);
         }
       }
       None => {
@@ -108,12 +112,12 @@ impl CodecParams {
         if q_scale != 1 {
           //println!("scale width: {}", band.width);
           for i in 0..band.width {
-            param.decoded_buf_mut()[i] *= q_scale as i32;
+            line[i] *= q_scale as i32;
           }
         }
       }
     }
-    Ok(Vec::from(param.decoded_buf()))
+    Ok(line)
   }
 }
 
diff --git a/rawler/src/decompressors/crx/mod.rs b/rawler/src/decompressors/crx/mod.rs
index b873748..c9a0456 100644
--- a/rawler/src/decompressors/crx/mod.rs
+++ b/rawler/src/decompressors/crx/mod.rs
@@ -407,12 +407,6 @@ impl<'mdat> BandParam<'mdat> {
     // Skip first and last extra pixel
     &self.line_buf[1][1..1 + self.subband_width]
   }
-
-  /// Get decoded buffer
-  fn decoded_buf_mut(&mut self) -> &mut [i32] {
-    // Skip first and last extra pixel
-    &mut self.line_buf[1][1..1 + self.subband_width]
-  }
 }
 
 /// Decompress a MDAT image buffer by given CMP1 box parameters
-- 
2.43.0


From c382612623357b7fae2df538570cfd8538467c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:12 +0000
Subject: [PATCH 47/68] fix: treat CRX subbands without data as zero

---
 rawler/src/decompressors/crx/iquant.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rawler/src/decompressors/crx/iquant.rs b/rawler/src/decompressors/crx/iquant.rs
index 9fc84ef..8fbbae7 100644
--- a/rawler/src/decompressors/crx/iquant.rs
+++ b/rawler/src/decompressors/crx/iquant.rs
@@ -59,7 +59,8 @@ impl CodecParams {
   /// Decode line with inverse quantization
   pub(super) fn decode_line_with_iquantization(&self, band: &Subband, param: &mut BandParam, q_step: Option<&QStep>) -> super::Result<Vec<i32>> {
     if band.data_size == 0 {
-      return Ok(Vec::new());
+      // Band without data, all coefficents are zero
+      return Ok(vec![0; band.width]);
     }
 
     // only LL bands has support_partial, but quantization is not applied to
-- 
2.43.0


From 7a178529a24888ed490c5b656f61f63739326374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:12 +0000
Subject: [PATCH 48/68] fix: shift overflow for CRX Q parameters above 35

---
 rawler/src/decompressors/crx/iquant.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/decompressors/crx/iquant.rs b/rawler/src/decompressors/crx/iquant.rs
index 8fbbae7..bc1bbbd 100644
--- a/rawler/src/decompressors/crx/iquant.rs
+++ b/rawler/src/decompressors/crx/iquant.rs
@@ -105,7 +105,7 @@ impl CodecParams {
         //eprintln!("q-param: {}", param.q_param);
         // prev. version
         let q_scale = if param.q_param / 6 >= 6 {
-          Q_STEP_TBL[param.q_param as usize % 6] * (1 << (param.q_param / 6 + 26))
+          Q_STEP_TBL[param.q_param as usize % 6].wrapping_shl(param.q_param / 6 + 26)
         } else {
           Q_STEP_TBL[param.q_param as usize % 6] >> (6 - param.q_param / 6)
         };
-- 
2.43.0


From 5615fe195690c226c0cbad2b0fe5ddc9c5a5a7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:12 +0000
Subject: [PATCH 49/68] fix: map CRX subband rows of tiled images to the right
 quantization row

---
 rawler/src/decompressors/crx/mdat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/decompressors/crx/mdat.rs b/rawler/src/decompressors/crx/mdat.rs
index 67ae8b1..d785caa 100644
--- a/rawler/src/decompressors/crx/mdat.rs
+++ b/rawler/src/decompressors/crx/mdat.rs
@@ -331,7 +331,7 @@ impl Subband {
     if row < self.row_start_addon {
       0
     } else if row < self.height - self.row_end_addon {
-      row - self.row_end_addon
+      row - self.row_start_addon
     } else {
       self.height - self.row_end_addon - self.row_start_addon - 1
     }
-- 
2.43.0


From 11ce355bf04c026159676f2d6715229f489e82aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:12 +0000
Subject: [PATCH 50/68] fix: wavelet start of CRX tiles below the first tile
 row

---
 rawler/src/decompressors/crx/idwt.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rawler/src/decompressors/crx/idwt.rs b/rawler/src/decompressors/crx/idwt.rs
index a2ac6fb..82834d1 100644
--- a/rawler/src/decompressors/crx/idwt.rs
+++ b/rawler/src/decompressors/crx/idwt.rs
@@ -267,6 +267,7 @@ impl CodecParams {
           self.idwt_53_horizontal(tile, l0, 1, wvlt);
           wvlt.band3_buf = self.decode_line_with_iquantization(&plane.subbands[cur_band + 3], &mut params[cur_band + 3], q_step_level)?;
           wvlt.band2_buf = self.decode_line_with_iquantization(&plane.subbands[cur_band + 2], &mut params[cur_band + 2], q_step_level)?;
+          wvlt.reset_bufs();
 
           // process L band
           if wvlt.width <= 1 {
@@ -282,8 +283,8 @@ impl CodecParams {
 
             for _i in (0..wvlt.width - 3).step_by(2) {
               let delta = wvlt.band2(0) - ((wvlt.band3(0) + wvlt.band3(1) + 2) >> 2);
-              wvlt.line_buf[l2][1] = wvlt.band3(0) + ((wvlt.line_buf[l2][l2_pos] + delta) >> 1);
-              wvlt.line_buf[l2][2] = delta;
+              wvlt.line_buf[l2][l2_pos + 1] = wvlt.band3(0) + ((wvlt.line_buf[l2][l2_pos] + delta) >> 1);
+              wvlt.line_buf[l2][l2_pos + 2] = delta;
               wvlt.band2_pos += 1;
               wvlt.band3_pos += 1;
               l2_pos += 2;
@@ -293,7 +294,7 @@ impl CodecParams {
               let delta = wvlt.band2(0) - ((wvlt.band3(0) + wvlt.band3(1) + 2) >> 2);
               wvlt.line_buf[l2][l2_pos + 1] = wvlt.band3(0) + ((wvlt.line_buf[l2][l2_pos + 0] + delta) >> 1);
               if wvlt.width & 1 == 1 {
-                wvlt.line_buf[l2][l2_pos + 1] = delta;
+                wvlt.line_buf[l2][l2_pos + 2] = delta;
               }
             } else if wvlt.width & 1 == 1 {
               let delta = wvlt.band2(0) - ((wvlt.band3(0) + 1) >> 1);
@@ -313,9 +314,9 @@ impl CodecParams {
           for i in 0..wvlt.width {
             wvlt.line_buf[h0][i] = wvlt.line_buf[l0][i] - ((wvlt.line_buf[l2][i] + 1) >> 1);
           }
-          self.idwt_53_filter_decode(tile, plane, params, iwt_transforms, cur_level)?;
-          self.idwt_53_filter_transform(tile, plane, params, iwt_transforms, cur_level)?;
         }
+        self.idwt_53_filter_decode(tile, plane, params, iwt_transforms, cur_level)?;
+        self.idwt_53_filter_transform(tile, plane, params, iwt_transforms, cur_level)?;
       } else {
         // This is unused in real world
 
-- 
2.43.0


From c6e83dd28ddf82859f2d818ad26786dbf9772eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:28 +0000
Subject: [PATCH 51/68] fix: last lines of CRX tiles above another tile row

---
 rawler/src/decompressors/crx/idwt.rs | 150 +++++++++++++--------------
 1 file changed, 74 insertions(+), 76 deletions(-)

diff --git a/rawler/src/decompressors/crx/idwt.rs b/rawler/src/decompressors/crx/idwt.rs
index 82834d1..da9cbc1 100644
--- a/rawler/src/decompressors/crx/idwt.rs
+++ b/rawler/src/decompressors/crx/idwt.rs
@@ -378,94 +378,92 @@ impl CodecParams {
     if iwt_transforms[level].cur_h > 0 {
       return Ok(());
     }
-    if iwt_transforms[level].cur_line >= iwt_transforms[level].height - 3 {
-      if !tile.tiles_bottom {
-        if iwt_transforms[level].height & 1 == 1 {
-          if level > 0 {
-            if iwt_transforms[level - 1].cur_h == 0 {
-              self.idwt_53_filter_transform(tile, plane, params, iwt_transforms, level - 1)?;
-            }
-            iwt_transforms[level].band0_buf = iwt_transforms[level - 1].getline().clone();
+    if iwt_transforms[level].cur_line >= iwt_transforms[level].height - 3 && !tile.tiles_bottom {
+      if iwt_transforms[level].height & 1 == 1 {
+        if level > 0 {
+          if iwt_transforms[level - 1].cur_h == 0 {
+            self.idwt_53_filter_transform(tile, plane, params, iwt_transforms, level - 1)?;
           }
-          let wvlt = &mut iwt_transforms[level];
-          wvlt.reset_bufs();
-          let h0 = wvlt.flt_tap_h + 3;
-          let h1 = (wvlt.flt_tap_h + 1) % 5 + 3;
-          let h2 = (wvlt.flt_tap_h + 2) % 5 + 3;
-          let l0 = 0;
-          let l1 = 1;
-          let mut l0_pos = 0;
-          //let mut l1_pos = 0;
-
-          // process L bands
-          if wvlt.width <= 1 {
-            wvlt.line_buf[l0][0] = wvlt.band0(0);
+          iwt_transforms[level].band0_buf = iwt_transforms[level - 1].getline().clone();
+        }
+        let wvlt = &mut iwt_transforms[level];
+        wvlt.reset_bufs();
+        let h0 = wvlt.flt_tap_h + 3;
+        let h1 = (wvlt.flt_tap_h + 1) % 5 + 3;
+        let h2 = (wvlt.flt_tap_h + 2) % 5 + 3;
+        let l0 = 0;
+        let l1 = 1;
+        let mut l0_pos = 0;
+        //let mut l1_pos = 0;
+
+        // process L bands
+        if wvlt.width <= 1 {
+          wvlt.line_buf[l0][0] = wvlt.band0(0);
+        } else {
+          if tile.tiles_left {
+            // untested
+            wvlt.line_buf[l0][l0_pos] = wvlt.band0(0) - ((wvlt.band1(0) + wvlt.band1(1) + 2) >> 2);
+            wvlt.band1_pos += 1;
           } else {
-            if tile.tiles_left {
-              // untested
-              wvlt.line_buf[l0][l0_pos] = wvlt.band0(0) - ((wvlt.band1(0) + wvlt.band1(1) + 2) >> 2);
-              wvlt.band1_pos += 1;
-            } else {
-              wvlt.line_buf[l0][l0_pos] = wvlt.band0(0) - ((wvlt.band1(0) + 1) >> 1);
-            }
+            wvlt.line_buf[l0][l0_pos] = wvlt.band0(0) - ((wvlt.band1(0) + 1) >> 1);
+          }
+          wvlt.band0_pos += 1;
+          for _i in (0..(wvlt.width - 3)).step_by(2) {
+            let delta = wvlt.band0(0) - ((wvlt.band1(0) + wvlt.band1(1) + 2) >> 2);
+            wvlt.line_buf[l0][l0_pos + 1] = wvlt.band1(0) + ((wvlt.line_buf[l0][l0_pos + 0] + delta) >> 1);
+            wvlt.line_buf[l0][l0_pos + 2] = delta;
             wvlt.band0_pos += 1;
-            for _i in (0..(wvlt.width - 3)).step_by(2) {
-              let delta = wvlt.band0(0) - ((wvlt.band1(0) + wvlt.band1(1) + 2) >> 2);
-              wvlt.line_buf[l0][l0_pos + 1] = wvlt.band1(0) + ((wvlt.line_buf[l0][l0_pos + 0] + delta) >> 1);
-              wvlt.line_buf[l0][l0_pos + 2] = delta;
-              wvlt.band0_pos += 1;
-              wvlt.band1_pos += 1;
-              l0_pos += 2;
-            }
-            if tile.tiles_right {
-              // untested
-              let delta = wvlt.band0(0) - ((wvlt.band1(0) + wvlt.band1(1) + 2) >> 2);
-              wvlt.line_buf[l0][l0_pos + 1] = wvlt.band1(0) + ((wvlt.line_buf[l0][l0_pos + 0] + delta) >> 1);
-              if wvlt.width & 1 == 1 {
-                wvlt.line_buf[l0][l0_pos + 2] = delta;
-              }
-            } else if wvlt.width & 1 == 1 {
-              let delta = wvlt.band0(0) - ((wvlt.band1(0) + 1) >> 1);
-              wvlt.line_buf[l0][l0_pos + 1] = wvlt.band1(0) + ((wvlt.line_buf[l0][l0_pos + 0] + delta) >> 1);
+            wvlt.band1_pos += 1;
+            l0_pos += 2;
+          }
+          if tile.tiles_right {
+            // untested
+            let delta = wvlt.band0(0) - ((wvlt.band1(0) + wvlt.band1(1) + 2) >> 2);
+            wvlt.line_buf[l0][l0_pos + 1] = wvlt.band1(0) + ((wvlt.line_buf[l0][l0_pos + 0] + delta) >> 1);
+            if wvlt.width & 1 == 1 {
               wvlt.line_buf[l0][l0_pos + 2] = delta;
-            } else {
-              wvlt.line_buf[l0][l0_pos + 1] = wvlt.band1(0) + wvlt.line_buf[l0][l0_pos + 0];
             }
+          } else if wvlt.width & 1 == 1 {
+            let delta = wvlt.band0(0) - ((wvlt.band1(0) + 1) >> 1);
+            wvlt.line_buf[l0][l0_pos + 1] = wvlt.band1(0) + ((wvlt.line_buf[l0][l0_pos + 0] + delta) >> 1);
+            wvlt.line_buf[l0][l0_pos + 2] = delta;
+          } else {
+            wvlt.line_buf[l0][l0_pos + 1] = wvlt.band1(0) + wvlt.line_buf[l0][l0_pos + 0];
           }
+        }
 
-          // process H bands
-          //wvlt.reset_bufs();
+        // process H bands
+        //wvlt.reset_bufs();
 
-          wvlt.line_buf.swap(1, 2);
+        wvlt.line_buf.swap(1, 2);
 
-          for i in 0..wvlt.width {
-            let delta = wvlt.line_buf[l0][i] - ((wvlt.line_buf[l1][i] + 1) >> 1);
-            wvlt.line_buf[h1][i] = wvlt.line_buf[l1][i] + ((delta + wvlt.line_buf[h0][i]) >> 1);
-            wvlt.line_buf[h2][i] = delta;
-          }
-          wvlt.cur_h += 3;
-          wvlt.cur_line += 3;
-          wvlt.flt_tap_h = (wvlt.flt_tap_h + 3) % 5;
-        } else {
-          let wvlt = &mut iwt_transforms[level];
-          let l2 = 2;
-          let h0 = wvlt.flt_tap_h + 3;
-          let h1 = (wvlt.flt_tap_h + 1) % 5 + 3;
+        for i in 0..wvlt.width {
+          let delta = wvlt.line_buf[l0][i] - ((wvlt.line_buf[l1][i] + 1) >> 1);
+          wvlt.line_buf[h1][i] = wvlt.line_buf[l1][i] + ((delta + wvlt.line_buf[h0][i]) >> 1);
+          wvlt.line_buf[h2][i] = delta;
+        }
+        wvlt.cur_h += 3;
+        wvlt.cur_line += 3;
+        wvlt.flt_tap_h = (wvlt.flt_tap_h + 3) % 5;
+      } else {
+        let wvlt = &mut iwt_transforms[level];
+        let l2 = 2;
+        let h0 = wvlt.flt_tap_h + 3;
+        let h1 = (wvlt.flt_tap_h + 1) % 5 + 3;
 
-          for i in 0..wvlt.width {
-            wvlt.line_buf[h1][i] = wvlt.line_buf[h0][i] + wvlt.line_buf[l2][i];
-          }
+        for i in 0..wvlt.width {
+          wvlt.line_buf[h1][i] = wvlt.line_buf[h0][i] + wvlt.line_buf[l2][i];
+        }
 
-          // The original libraw CRX decoder copies the pointer from line_buf[2] to [1].
-          // But it doesn't makes sense, so we swap the buffers as we do on other locations.
-          wvlt.line_buf.swap(1, 2);
-          //wvlt.line_buf[1] = wvlt.line_buf[2].clone();
+        // The original libraw CRX decoder copies the pointer from line_buf[2] to [1].
+        // But it doesn't makes sense, so we swap the buffers as we do on other locations.
+        wvlt.line_buf.swap(1, 2);
+        //wvlt.line_buf[1] = wvlt.line_buf[2].clone();
 
-          wvlt.cur_h += 2;
-          wvlt.cur_line += 2;
-          wvlt.flt_tap_h = (wvlt.flt_tap_h + 2) % 5;
-        }
-      } // end if !tile.tiles_bottom
+        wvlt.cur_h += 2;
+        wvlt.cur_line += 2;
+        wvlt.flt_tap_h = (wvlt.flt_tap_h + 2) % 5;
+      }
     } else {
       if level > 0 {
         if iwt_transforms[level - 1].cur_h == 0 {
-- 
2.43.0


From 0f301fa2a0fdcc50a191ea34d5ec88a37c838b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:02 +0000
Subject: [PATCH 52/68] fix: read CFAPlaneColor of DNG files

---
 rawler/src/decoders/dng.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/rawler/src/decoders/dng.rs b/rawler/src/decoders/dng.rs
index 9fff012..2a23589 100644
--- a/rawler/src/decoders/dng.rs
+++ b/rawler/src/decoders/dng.rs
@@ -264,6 +264,7 @@ impl<'a> DngDecoder<'a> {
       1 if !raw.has_entry(TiffCommonTag::CFAPattern) => CFA::default(),
       _ => self.get_cfa(raw)?,
     };
+    let plane_color = self.get_plane_color(raw).unwrap_or_default();
     let color_matrix = self.get_color_matrix()?;
     let real_bps = if raw.has_entry(TiffCommonTag::Linearization) {
       // If DNG contains linearization table, output is always 16 bits
@@ -285,6 +286,7 @@ impl<'a> DngDecoder<'a> {
       xyz_to_cam: Default::default(),
       color_matrix,
       cfa,
+      plane_color,
       active_area,
       crop_area,
       real_bps,
@@ -377,6 +379,15 @@ impl<'a> DngDecoder<'a> {
     }
   }
 
+  /// Order of the color planes (only given for CFA images, default is RGB)
+  fn get_plane_color(&self, raw: &IFD) -> Option<PlaneColor> {
+    let planes = raw.get_entry(DngTag::CFAPlaneColor)?;
+    let colors: Option<Vec<CFAColor>> = (0..planes.count() as usize)
+      .map(|i| CFAColor::try_from(planes.force_u16(i) as u8).ok())
+      .collect();
+    colors.filter(|colors| colors.len() >= 3).map(PlaneColor::from)
+  }
+
   fn get_active_area_borders(&self, raw: &IFD) -> Option<[usize; 4]> {
     if let Some(crops) = raw.get_entry(DngTag::ActiveArea) {
       let rect = [crops.force_usize(0), crops.force_usize(1), crops.force_usize(2), crops.force_usize(3)];
-- 
2.43.0


From 04fbbd99d775f098ee4c928d01338bce32a2c1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:02 +0000
Subject: [PATCH 53/68] fix: adapt color matrices from D65 to their illuminant,
 not the other way

---
 rawler/src/imgop/develop.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rawler/src/imgop/develop.rs b/rawler/src/imgop/develop.rs
index 9a03941..f5130f2 100644
--- a/rawler/src/imgop/develop.rs
+++ b/rawler/src/imgop/develop.rs
@@ -265,7 +265,8 @@ impl RawDevelop {
       } else {
         log::warn!("Image has no D65 illuminant matrix, alternative for Bradford adaption: {:?}", illu);
         d65_matrix = match matrix.len() {
-          9 => adapt_bradford(&illu, &Illuminant::D65, &transform_1d::<3, 3>(&matrix).expect("Transformation failed"))
+          // The matrix expects XYZ colors under its own illuminant
+          9 => adapt_bradford(&Illuminant::D65, &illu, &transform_1d::<3, 3>(&matrix).expect("Transformation failed"))
             .as_flattened()
             .to_vec(),
           _ => unimplemented!(),
-- 
2.43.0


From 020b9b7bd1ecead6b09a84795c6c1b6866b1a8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:29 +0000
Subject: [PATCH 54/68] fix: scale images with black level patterns beyond the
 bayer block

---
 rawler/src/imgop/raw.rs | 22 ++++++++++++++++++++++
 rawler/src/rawimage.rs  | 12 +++++++++++-
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/rawler/src/imgop/raw.rs b/rawler/src/imgop/raw.rs
index d191d4a..dd89632 100644
--- a/rawler/src/imgop/raw.rs
+++ b/rawler/src/imgop/raw.rs
@@ -193,6 +193,28 @@ pub fn correct_blacklevel_cfa(raw: &mut [f32], width: usize, _height: usize, bla
   });
 }
 
+/// Correct data by whitelevel and a blacklevel pattern of any size.
+///
+/// The pattern starts at the image origin. The output is between 0.0 .. 1.0.
+pub fn correct_blacklevel_pattern(raw: &mut [f32], width: usize, cpp: usize, blacklevel: &BlackLevel, whitelevel: &WhiteLevel) {
+  let black = blacklevel.as_vec();
+  let bayer_white = whitelevel.as_bayer_array();
+  raw.par_chunks_mut(width * cpp).enumerate().for_each(|(row, line)| {
+    for (i, p) in line.iter_mut().enumerate() {
+      let (col, ch) = (i / cpp, i % cpp);
+      let idx = ((row % blacklevel.height) * blacklevel.width + col % blacklevel.width) * blacklevel.cpp + ch.min(blacklevel.cpp - 1);
+      let black = black.get(idx).copied().unwrap_or(black[0]);
+      let white = if cpp == 1 {
+        bayer_white[(row % 2) * 2 + col % 2]
+      } else {
+        whitelevel.0.get(ch).map(|x| *x as f32).unwrap_or(bayer_white[0])
+      };
+      let v = *p - black;
+      *p = if v.is_sign_negative() { 0.0 } else { v } / (white - black);
+    }
+  });
+}
+
 #[multiversion(targets("x86_64+avx+avx2", "x86+sse", "aarch64+neon"))]
 pub(crate) fn map_3ch_to_rgb(src: &Color2D<f32, 3>, wb_coeff: &[f32; 4], xyz2cam: [[f32; 3]; 4]) -> RgbF32 {
   let rgb2cam = normalize(multiply(&xyz2cam, &SRGB_TO_XYZ_D65));
diff --git a/rawler/src/rawimage.rs b/rawler/src/rawimage.rs
index 7230700..2e9fd54 100644
--- a/rawler/src/rawimage.rs
+++ b/rawler/src/rawimage.rs
@@ -9,7 +9,7 @@ use serde::{Deserialize, Serialize};
 
 use crate::Result;
 use crate::cfa::PlaneColor;
-use crate::imgop::raw::{correct_blacklevel, correct_blacklevel_cfa};
+use crate::imgop::raw::{correct_blacklevel, correct_blacklevel_cfa, correct_blacklevel_pattern};
 use crate::imgop::sensor::SensorType;
 use crate::imgop::{convert_from_f32_scaled_u16, convert_to_f32_unscaled};
 use crate::pixarray::SubPixel;
@@ -518,7 +518,17 @@ impl RawImage {
   /// Internal blacklevel and whitelevel is reset to 0.0 and 1.0 to match image data.
   pub fn apply_scaling(&mut self) -> crate::Result<()> {
     let mut pixels = self.data.as_f32();
+    let black = &self.blacklevel;
     match &self.photometric {
+      // Patterns that are not a part of the bayer block
+      RawPhotometricInterpretation::Cfa(_) if black.width > 2 || black.height > 2 => {
+        correct_blacklevel_pattern(pixels.to_mut(), self.width, self.cpp, black, &self.whitelevel);
+        self.data = RawImageData::Float(pixels.into_owned());
+      }
+      RawPhotometricInterpretation::BlackIsZero | RawPhotometricInterpretation::LinearRaw if black.width > 1 || black.height > 1 => {
+        correct_blacklevel_pattern(pixels.to_mut(), self.width, self.cpp, black, &self.whitelevel);
+        self.data = RawImageData::Float(pixels.into_owned());
+      }
       RawPhotometricInterpretation::Cfa(_) => {
         correct_blacklevel_cfa(
           pixels.to_mut(),
-- 
2.43.0


From 3be8749a9d22e6df421dd7b0621a67f61893fbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:36 +0000
Subject: [PATCH 55/68] fix: LjpegCompressor rejects a width of zero instead of
 reading out of bounds

---
 rawler/src/ljpeg92.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rawler/src/ljpeg92.rs b/rawler/src/ljpeg92.rs
index f052d92..e394a3a 100644
--- a/rawler/src/ljpeg92.rs
+++ b/rawler/src/ljpeg92.rs
@@ -574,6 +574,9 @@ impl<'a> LjpegCompressor<'a> {
     if !(1..=7).contains(&predictor) {
       return Err(CompressorError::Overflow(format!("Unsupported predictor: {}", predictor)));
     }
+    if width == 0 {
+      return Err(CompressorError::Overflow("Unsupported width: 0".to_string()));
+    }
     if image.len() < height * ((width + padding) * components) {
       return Err(CompressorError::Overflow(
         "Image input buffer is not large enough for given dimensions".to_string(),
-- 
2.43.0


From b74fea76d873bc651debea957b6900386c354130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:36 +0000
Subject: [PATCH 56/68] fix: X-Trans demosaicing checks that the ROI lies
 inside the image

---
 rawler/src/imgop/sensor/xtrans/bilinear.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rawler/src/imgop/sensor/xtrans/bilinear.rs b/rawler/src/imgop/sensor/xtrans/bilinear.rs
index d47f5bd..da84e61 100644
--- a/rawler/src/imgop/sensor/xtrans/bilinear.rs
+++ b/rawler/src/imgop/sensor/xtrans/bilinear.rs
@@ -50,6 +50,9 @@ impl Demosaic<f32, 3> for XTransBilinearDemosaic {
     if !cfa.is_rgb() {
       panic!("CFA pattern '{}' is not a RGB pattern, can not demosaic", cfa);
     }
+    let dim = pixels.dim();
+    assert!(roi.p.x <= dim.w && roi.d.w <= dim.w - roi.p.x, "ROI exceeds image width");
+    assert!(roi.p.y <= dim.h && roi.d.h <= dim.h - roi.p.y, "ROI exceeds image height");
     let now = Instant::now();
     let rgb = interpolate_bilinear(pixels, cfa, roi);
     log::debug!("X-Trans bilinear demosaic total time: {:.5}s", now.elapsed().as_secs_f32());
-- 
2.43.0


From e1e2a21a9b1a86669e4622c38e4c26ea7c61c21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:36 +0000
Subject: [PATCH 57/68] fix: 4-channel bilinear debayer rejects images smaller
 than 2x2 instead of accessing out of bounds memory

---
 rawler/src/imgop/sensor/bayer/bilinear.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rawler/src/imgop/sensor/bayer/bilinear.rs b/rawler/src/imgop/sensor/bayer/bilinear.rs
index 27ffdf9..bd73d99 100644
--- a/rawler/src/imgop/sensor/bayer/bilinear.rs
+++ b/rawler/src/imgop/sensor/bayer/bilinear.rs
@@ -40,6 +40,7 @@ impl Bilinear4Channel {
 
     let pixels = pixels.crop(roi);
     let dim = pixels.dim();
+    assert!(dim.w >= 2 && dim.h >= 2, "Bilinear debayer requires at least 2x2 pixels");
     let mut out = Color2D::new(pixels.dim().w, pixels.dim().h);
 
     // Process edges
-- 
2.43.0


From d264d5e1759ffcb86b9b5e2b54c7fe4f07033238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:23 +0000
Subject: [PATCH 58/68] fix: TIFF reader supports the IFD field type for
 pointers to sub-IFDs

---
 rawler/src/formats/tiff/entry.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rawler/src/formats/tiff/entry.rs b/rawler/src/formats/tiff/entry.rs
index 6d32e95..dc24e65 100644
--- a/rawler/src/formats/tiff/entry.rs
+++ b/rawler/src/formats/tiff/entry.rs
@@ -25,6 +25,7 @@ const TYPE_SLONG: u16 = 9;
 const TYPE_SRATIONAL: u16 = 10;
 const TYPE_FLOAT: u16 = 11;
 const TYPE_DOUBLE: u16 = 12;
+const TYPE_IFD: u16 = 13;
 
 #[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
 pub struct Entry {
@@ -85,7 +86,7 @@ impl Entry {
     let count = reader.read_u32()?;
 
     // If we don't know the type assume byte data (undefined)
-    let compat_typ = if typ == 0 || typ > 12 { 7 } else { typ };
+    let compat_typ = if typ == 0 || typ > 13 { 7 } else { typ };
 
     let bytesize: usize = (count as usize) << DATASHIFTS[compat_typ as usize];
     let offset: u32 = if bytesize <= 4 {
@@ -134,7 +135,8 @@ impl Entry {
           embedded: Some(offset),
         }
       }
-      TYPE_LONG => {
+      // TIFF tech note 1: IFD is identical to LONG, but points to another IFD
+      TYPE_LONG | TYPE_IFD => {
         let mut v = vec![0; count as usize];
         reader.read_u32_into(&mut v)?;
         Entry {
-- 
2.43.0


From 6e7dcfb96124b833597ede63f3dec7e95bad07d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:30 +0000
Subject: [PATCH 59/68] fix: strip and tile tables of type SHORT are accepted

---
 rawler/src/formats/tiff/ifd.rs | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/rawler/src/formats/tiff/ifd.rs b/rawler/src/formats/tiff/ifd.rs
index f9cfe95..783e40f 100644
--- a/rawler/src/formats/tiff/ifd.rs
+++ b/rawler/src/formats/tiff/ifd.rs
@@ -503,6 +503,16 @@ impl IFD {
     Ok(rawsource.subview((self.base + offset) as u64, len as u64)?)
   }
 
+  /// Return the offsets or byte counts for strips or tiles.
+  /// TIFF allows type SHORT and LONG for these tags.
+  fn chunk_table(&self, tag: TiffCommonTag) -> Result<Vec<u32>> {
+    match self.get_entry(tag).map(|entry| &entry.value) {
+      Some(Value::Long(data)) => Ok(data.clone()),
+      Some(Value::Short(data)) => Ok(data.iter().copied().map(u32::from).collect()),
+      _ => Err(TiffError::General(format!("Invalid datatype for {:?}", tag))),
+    }
+  }
+
   /// Return byte slices to strip data.
   /// If there exists a single strip only or if all strips are continous,
   /// the second return value contains the whole strip data in a single slice.
@@ -510,16 +520,8 @@ impl IFD {
     if !self.has_entry(TiffCommonTag::StripOffsets) {
       return Err(TiffError::General("IFD contains no strip data".into()));
     }
-    let offsets = if let Some(Entry { value: Value::Long(data), .. }) = self.get_entry(TiffCommonTag::StripOffsets) {
-      data
-    } else {
-      return Err(TiffError::General("Invalid datatype for StripOffsets".to_string()));
-    };
-    let sizes = if let Some(Entry { value: Value::Long(data), .. }) = self.get_entry(TiffCommonTag::StripByteCounts) {
-      data
-    } else {
-      return Err(TiffError::General("Invalid datatype for StripByteCounts".to_string()));
-    };
+    let offsets = self.chunk_table(TiffCommonTag::StripOffsets)?;
+    let sizes = self.chunk_table(TiffCommonTag::StripByteCounts)?;
 
     if offsets.len() != sizes.len() {
       return Err(TiffError::General(format!(
@@ -553,17 +555,9 @@ impl IFD {
   }
 
   pub fn tile_data<'a>(&self, rawsource: &'a RawSource) -> Result<Vec<&'a [u8]>> {
-    let offsets = if let Some(Entry { value: Value::Long(data), .. }) = self.get_entry(TiffCommonTag::TileOffsets) {
-      data
-    } else {
-      return Err(TiffError::General("Invalid datatype for TileOffsets".to_string()));
-    };
+    let offsets = self.chunk_table(TiffCommonTag::TileOffsets)?;
 
-    let byte_counts = if let Some(Entry { value: Value::Long(data), .. }) = self.get_entry(TiffCommonTag::TileByteCounts) {
-      data
-    } else {
-      return Err(TiffError::General("Invalid datatype for TileByteCounts".to_string()));
-    };
+    let byte_counts = self.chunk_table(TiffCommonTag::TileByteCounts)?;
 
     let mut tile_slices = Vec::with_capacity(offsets.len());
     offsets.iter().zip(byte_counts.iter()).for_each(|(offset, size)| {
-- 
2.43.0


From 104bee3629decc8d33fa0cbf94c89ae725ea0e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:17 +0000
Subject: [PATCH 60/68] fix: first sample of a sample-to-chunk entry is derived
 from its first chunk

---
 rawler/src/formats/bmff/stsc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/formats/bmff/stsc.rs b/rawler/src/formats/bmff/stsc.rs
index 47a66fc..28dbfd6 100644
--- a/rawler/src/formats/bmff/stsc.rs
+++ b/rawler/src/formats/bmff/stsc.rs
@@ -62,7 +62,7 @@ impl<R: Read + Seek> ReadBox<&mut R> for StscBox {
       for _ in 1..entry_count {
         let mut entry = read_entry()?;
         // Now we know the chunk count to calc the amount of samples in holdback
-        entry.first_sample = holdback.first_sample + ((entry.first_chunk - holdback.first_sample) * holdback.samples_per_chunk);
+        entry.first_sample = holdback.first_sample + ((entry.first_chunk - holdback.first_chunk) * holdback.samples_per_chunk);
         entries.push(holdback);
         holdback = entry;
       }
-- 
2.43.0


From bd303d98e4f7d263794eeb9fd569ec059709e1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:18 +0000
Subject: [PATCH 61/68] fix: unknown uuid boxes inside moov are skipped

---
 rawler/src/formats/bmff/moov.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rawler/src/formats/bmff/moov.rs b/rawler/src/formats/bmff/moov.rs
index 1c3e248..6fd660d 100644
--- a/rawler/src/formats/bmff/moov.rs
+++ b/rawler/src/formats/bmff/moov.rs
@@ -54,10 +54,8 @@ impl<R: Read + Seek> ReadBox<&mut R> for MoovBox {
         }
 
         _ => {
-          if let Some(uuid) = header.uuid {
-            if uuid == Uuid::from_bytes(Cr3DescBox::UUID) {
-              cr3desc = Some(Cr3DescBox::read_box(&mut reader, header)?);
-            }
+          if header.uuid == Some(Uuid::from_bytes(Cr3DescBox::UUID)) {
+            cr3desc = Some(Cr3DescBox::read_box(&mut reader, header)?);
           } else {
             debug!("Vendor box found in moov: {:?}", header.typ);
             let vendor = VendorBox::read_box(&mut reader, header)?;
-- 
2.43.0


From 305f12d31de6e3b30ebf7d97f2fea725ec60b901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:51 +0000
Subject: [PATCH 62/68] fix: MRW files keep their Exif and GPS directories

---
 rawler/src/decoders/mrw.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rawler/src/decoders/mrw.rs b/rawler/src/decoders/mrw.rs
index 263d7b3..f193b8f 100644
--- a/rawler/src/decoders/mrw.rs
+++ b/rawler/src/decoders/mrw.rs
@@ -16,6 +16,7 @@ use crate::formats::jfif::Segment;
 use crate::formats::jfif::is_exif;
 use crate::formats::tiff::IFD;
 use crate::rawsource::RawSource;
+use crate::tags::ExifTag;
 use crate::tags::TiffCommonTag;
 use std::io::Cursor;
 
@@ -186,7 +187,14 @@ impl<'a> MrwDecoder<'a> {
     }
 
     let tiff_data = file.subview_until_eof(tiffpos as u64)?;
-    let tiff = IFD::new(&mut Cursor::new(tiff_data), 8, 0, 0, crate::bits::Endian::Big, &[])?;
+    let tiff = IFD::new(
+      &mut Cursor::new(tiff_data),
+      8,
+      0,
+      0,
+      crate::bits::Endian::Big,
+      &[ExifTag::ExifOffset.into(), ExifTag::GPSInfo.into()],
+    )?;
 
     let camera = rawloader.check_supported(&tiff)?;
 
-- 
2.43.0


From e6ef4da1218e3a7f0ae63dafcbe57e93d429620e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:11 +0000
Subject: [PATCH 63/68] fix: the GPS directory of Exif blocks inside other
 containers is read

---
 rawler/src/formats/tiff/ifd.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rawler/src/formats/tiff/ifd.rs b/rawler/src/formats/tiff/ifd.rs
index 783e40f..1794120 100644
--- a/rawler/src/formats/tiff/ifd.rs
+++ b/rawler/src/formats/tiff/ifd.rs
@@ -50,7 +50,14 @@ pub struct IFD {
 impl IFD {
   /// Construct new IFD from reader at specific base
   pub fn new_root<R: Read + Seek>(reader: &mut R, base: u32) -> Result<IFD> {
-    Self::new_root_with_correction(reader, 0, base, 0, 10, &[TiffCommonTag::SubIFDs.into(), TiffCommonTag::ExifIFDPointer.into()])
+    Self::new_root_with_correction(
+      reader,
+      0,
+      base,
+      0,
+      10,
+      &[TiffCommonTag::SubIFDs.into(), TiffCommonTag::ExifIFDPointer.into(), ExifTag::GPSInfo.into()],
+    )
   }
 
   pub fn new_root_with_correction<R: Read + Seek>(reader: &mut R, offset: u32, base: u32, corr: i32, max_chain: usize, sub_tags: &[u16]) -> Result<IFD> {
-- 
2.43.0


From 5072e429f80bc04358ca0ebdb6ba770c9bd24ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:11 +0000
Subject: [PATCH 64/68] fix: PEF previews at an absolute offset near the end of
 the file are found

---
 rawler/src/decoders/pef.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rawler/src/decoders/pef.rs b/rawler/src/decoders/pef.rs
index f40eef6..ed3c865 100644
--- a/rawler/src/decoders/pef.rs
+++ b/rawler/src/decoders/pef.rs
@@ -149,10 +149,13 @@ impl<'a> Decoder for PefDecoder<'a> {
         let len = length.force_u32(0);
         let offset = start.force_u32(0);
         if len > 0 && offset > 0 {
-          let buf = file.subview((self.makernote_offset + offset) as u64, len as u64)?;
-          match image::load_from_memory_with_format(buf, image::ImageFormat::Jpeg) {
-            Ok(img) => Some(img),
-            Err(_) => {
+          let corrected = file
+            .subview((self.makernote_offset + offset) as u64, len as u64)
+            .ok()
+            .and_then(|buf| image::load_from_memory_with_format(buf, image::ImageFormat::Jpeg).ok());
+          match corrected {
+            Some(img) => Some(img),
+            None => {
               // Test offset without correction
               let buf = file.subview(offset as u64, len as u64)?;
               let img = image::load_from_memory_with_format(buf, image::ImageFormat::Jpeg)
-- 
2.43.0


From 4829d0c2e9d700d80c4f779c0a08004dffa08c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:41 +0000
Subject: [PATCH 65/68] fix: Panasonic format 7 reads 12 bit samples at 12 bit

---
 rawler/src/decoders/rw2/v7decompressor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/decoders/rw2/v7decompressor.rs b/rawler/src/decoders/rw2/v7decompressor.rs
index 0ec7d9f..d42774f 100644
--- a/rawler/src/decoders/rw2/v7decompressor.rs
+++ b/rawler/src/decoders/rw2/v7decompressor.rs
@@ -30,7 +30,7 @@ pub(crate) fn decode_panasonic_v7(buf: &[u8], width: usize, height: usize, bps:
         let start = block_id * pixels_per_block;
         let out = &mut out[start..start + pixels_per_block];
         let mut pump = BitPumpLSB::new(block);
-        out.iter_mut().for_each(|pixel| *pixel = pump.get_bits(14) as u16);
+        out.iter_mut().for_each(|pixel| *pixel = pump.get_bits(bps) as u16);
       }
       Ok(())
     }),
-- 
2.43.0


From f05a84941c8a77eb9c331595f6f5dbf2ce62c0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:41 +0000
Subject: [PATCH 66/68] fix: Panasonic format 6 samples below the offset are
 black, not white

---
 rawler/src/decoders/rw2/v6decompressor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rawler/src/decoders/rw2/v6decompressor.rs b/rawler/src/decoders/rw2/v6decompressor.rs
index 5396b38..e602081 100644
--- a/rawler/src/decoders/rw2/v6decompressor.rs
+++ b/rawler/src/decoders/rw2/v6decompressor.rs
@@ -137,7 +137,8 @@ pub(crate) fn decode_panasonic_v6(buf: &[u8], width: usize, height: usize, bps:
               epixel = nonzero[pix % 2];
             }
           }
-          let spix = (epixel as i32).wrapping_sub(0xf);
+          // Unsigned, values below the offset take the other branch and become black
+          let spix = (epixel as u32).wrapping_sub(0xf);
           if spix <= spix_compare {
             out[pix] = (spix & spix_compare) as u16;
           } else {
-- 
2.43.0


From 42a30146695ffcbc9c318c7ad43f383be63ae857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:41 +0000
Subject: [PATCH 67/68] fix: black levels from large masked areas are averaged
 in double precision

---
 rawler/src/rawimage.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rawler/src/rawimage.rs b/rawler/src/rawimage.rs
index 2e9fd54..5af79b7 100644
--- a/rawler/src/rawimage.rs
+++ b/rawler/src/rawimage.rs
@@ -288,7 +288,7 @@ impl RawImage {
 
     #[derive(Clone, Copy)]
     struct Sample {
-      avg: f32,
+      avg: f64, // a sum of many samples exceeds the precision of f32
       count: usize,
     }
 
@@ -300,13 +300,13 @@ impl RawImage {
           for col in area.p.x..area.p.x + area.d.w {
             //let color = cfa.color_at(row, col);
             let color = (row % cfa.height) * cfa.width + (col % cfa.width);
-            samples[color].avg += image[row * width + col].as_f32();
+            samples[color].avg += f64::from(image[row * width + col].as_f32());
             samples[color].count += 1;
           }
         }
       }
 
-      let blacklevels: Vec<f32> = samples.into_iter().map(|s| s.avg / s.count as f32).collect();
+      let blacklevels: Vec<f32> = samples.into_iter().map(|s| (s.avg / s.count as f64) as f32).collect();
 
       debug!("Calculated blacklevels: {:?}", blacklevels);
       // TODO: support other then RGGB levels
-- 
2.43.0


From f9b2768ee2891f2674a790e7ba024821ab6787d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:37 +0000
Subject: [PATCH 68/68] fix: Panasonic split blocks wrap within the block when
 a value spans two bytes

---
 rawler/src/decoders/rw2/v4decompressor.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rawler/src/decoders/rw2/v4decompressor.rs b/rawler/src/decoders/rw2/v4decompressor.rs
index 2d2e205..69bd91e 100644
--- a/rawler/src/decoders/rw2/v4decompressor.rs
+++ b/rawler/src/decoders/rw2/v4decompressor.rs
@@ -1,4 +1,4 @@
-use crate::{bits::LEu16, decoders::*, decompressors::decompress_strips_fn, pumps::BitPump};
+use crate::{decoders::*, decompressors::decompress_strips_fn, pumps::BitPump};
 
 pub(crate) fn decode_panasonic_v4(buf: &[u8], width: usize, height: usize, split: bool, dummy: bool) -> PixU16 {
   decompress_strips_fn(
@@ -76,7 +76,9 @@ impl<'a> BitPump for BitPumpPanasonic<'a> {
     if self.split {
       byte = (byte + 0x4000 - 0x2008) % 0x4000;
     }
-    let bits = LEu16(self.buffer, byte as usize + self.pos - 0x4000) as u32;
+    // A value may span two bytes, the second one wraps around in split blocks.
+    let block = &self.buffer[self.pos - 0x4000..];
+    let bits = u16::from_le_bytes([block[byte as usize], block[(byte as usize + 1) % 0x4000]]) as u32;
     (bits >> ((self.nbits - num) & 7)) & (0x0ffffffffu32 >> (32 - num))
   }
 
-- 
2.43.0

