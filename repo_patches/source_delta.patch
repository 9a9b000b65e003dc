From 0da2f38dc64a376e914f7c1ca1e987afafe92af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 01/16] fix: report undecodable VobSub run-length data as an
 error instead of panicking

---
 src/vobsub/decoder.rs | 18 +++++++++---------
 src/vobsub/img.rs     | 12 +++++++-----
 src/vobsub/sub.rs     |  2 +-
 3 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/vobsub/decoder.rs b/src/vobsub/decoder.rs
index 6357300..618ca84 100644
--- a/src/vobsub/decoder.rs
+++ b/src/vobsub/decoder.rs
@@ -1,4 +1,4 @@
-use super::{img::VobSubRleImage, VobSubIndexedImage};
+use super::{img::VobSubRleImage, VobSubError, VobSubIndexedImage};
 use crate::time::{TimePoint, TimeSpan};
 
 /// The default length of a subtitle if no end time is provided and no
@@ -17,7 +17,7 @@ pub trait VobSubDecoder<'a> {
         end_time: Option<f64>,
         force: bool,
         image: VobSubRleImage<'a>,
-    ) -> Self::Output;
+    ) -> Result<Self::Output, VobSubError>;
 }
 
 /// Implement creation of a tuple of [`TimeSpan`] and [`VobSubIndexedImage`] from parsing.
@@ -29,14 +29,14 @@ impl<'a> VobSubDecoder<'a> for (TimeSpan, VobSubIndexedImage) {
         end_time: Option<f64>,
         _force: bool,
         rle_image: VobSubRleImage<'a>,
-    ) -> Self::Output {
-        (
+    ) -> Result<Self::Output, VobSubError> {
+        Ok((
             TimeSpan::new(
                 TimePoint::from_secs(start_time),
                 TimePoint::from_secs(end_time.unwrap_or(DEFAULT_SUBTITLE_LENGTH)),
             ),
-            VobSubIndexedImage::from(rle_image),
-        )
+            VobSubIndexedImage::try_from(rle_image)?,
+        ))
     }
 }
 
@@ -49,10 +49,10 @@ impl<'a> VobSubDecoder<'a> for TimeSpan {
         end_time: Option<f64>,
         _force: bool,
         _rle_image: VobSubRleImage<'a>,
-    ) -> Self::Output {
-        Self::new(
+    ) -> Result<Self::Output, VobSubError> {
+        Ok(Self::new(
             TimePoint::from_secs(start_time),
             TimePoint::from_secs(end_time.unwrap_or(DEFAULT_SUBTITLE_LENGTH)),
-        )
+        ))
     }
 }
diff --git a/src/vobsub/img.rs b/src/vobsub/img.rs
index 28615cc..5fbf85f 100644
--- a/src/vobsub/img.rs
+++ b/src/vobsub/img.rs
@@ -270,15 +270,17 @@ impl ImageArea for VobSubIndexedImage {
     }
 }
 
-impl From<VobSubRleImage<'_>> for VobSubIndexedImage {
-    fn from(rle_image: VobSubRleImage) -> Self {
-        let decompressed_image = decompress(rle_image.size(), rle_image.raw_data()).unwrap();
-        Self::new(
+impl TryFrom<VobSubRleImage<'_>> for VobSubIndexedImage {
+    type Error = Error;
+
+    fn try_from(rle_image: VobSubRleImage) -> Result<Self, Self::Error> {
+        let decompressed_image = decompress(rle_image.size(), rle_image.raw_data())?;
+        Ok(Self::new(
             rle_image.area(),
             *rle_image.palette(),
             *rle_image.alpha(),
             decompressed_image,
-        )
+        ))
     }
 }
 
diff --git a/src/vobsub/sub.rs b/src/vobsub/sub.rs
index bc7f414..762928d 100644
--- a/src/vobsub/sub.rs
+++ b/src/vobsub/sub.rs
@@ -395,7 +395,7 @@ where
     let rle_image = VobSubRleImage::new(area, palette, alpha, image_data);
 
     // Return our parsed subtitle.
-    let result = D::from_data(start_time, end_time, force, rle_image);
+    let result = D::from_data(start_time, end_time, force, rle_image)?;
     trace!("Parsed subtitle: {:?}", &result);
     Ok(result)
 }
-- 
2.43.0


From 384babeff9894e17363c81c878e85a81a97ca1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 02/16] fix: count the default VobSub subtitle length from its
 start time

---
 src/vobsub/decoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vobsub/decoder.rs b/src/vobsub/decoder.rs
index 618ca84..1d7de2b 100644
--- a/src/vobsub/decoder.rs
+++ b/src/vobsub/decoder.rs
@@ -33,7 +33,7 @@ impl<'a> VobSubDecoder<'a> for (TimeSpan, VobSubIndexedImage) {
         Ok((
             TimeSpan::new(
                 TimePoint::from_secs(start_time),
-                TimePoint::from_secs(end_time.unwrap_or(DEFAULT_SUBTITLE_LENGTH)),
+                TimePoint::from_secs(end_time.unwrap_or(start_time + DEFAULT_SUBTITLE_LENGTH)),
             ),
             VobSubIndexedImage::try_from(rle_image)?,
         ))
@@ -52,7 +52,7 @@ impl<'a> VobSubDecoder<'a> for TimeSpan {
     ) -> Result<Self::Output, VobSubError> {
         Ok(Self::new(
             TimePoint::from_secs(start_time),
-            TimePoint::from_secs(end_time.unwrap_or(DEFAULT_SUBTITLE_LENGTH)),
+            TimePoint::from_secs(end_time.unwrap_or(start_time + DEFAULT_SUBTITLE_LENGTH)),
         ))
     }
 }
-- 
2.43.0


From 39bef2f45b9c370a976dc39d47e0ae2367c5ec29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:19 +0000
Subject: [PATCH 03/16] fix: accept the MPEG-2 prefixes of a PTS followed by a
 DTS

---
 src/vobsub/mpeg2/pes.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vobsub/mpeg2/pes.rs b/src/vobsub/mpeg2/pes.rs
index 488ed18..fcaa81e 100644
--- a/src/vobsub/mpeg2/pes.rs
+++ b/src/vobsub/mpeg2/pes.rs
@@ -70,9 +70,10 @@ fn pts_only(input: &[u8]) -> IResult<&[u8], PtsDts> {
 /// Helper for `pts_dts`.  Parses the `PTS` and `DTS` case.
 fn pts_and_dts(input: &[u8]) -> IResult<&[u8], PtsDts> {
     bits(|input| {
-        let parse_tag = tag_bits(0b0010, 4u8);
+        let pts_tag = tag_bits(0b0011, 4u8);
+        let dts_tag = tag_bits(0b0001, 4u8);
         let (input, (_, pts, _, dts)): ((&[u8], usize), (_, _, _, _)) =
-            (&parse_tag, clock, &parse_tag, clock).parse(input)?;
+            (pts_tag, clock, dts_tag, clock).parse(input)?;
         Ok((
             input,
             PtsDts {
-- 
2.43.0


From bfea446ef416064cf7e29bd7fdbf8b403f2b55d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:31 +0000
Subject: [PATCH 04/16] fix: avoid overflow of Area width and height at the u16
 limits

---
 src/content/area.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/content/area.rs b/src/content/area.rs
index dbfb8d3..a508abf 100644
--- a/src/content/area.rs
+++ b/src/content/area.rs
@@ -33,13 +33,13 @@ impl Area {
     /// The width of the subtitle.
     #[must_use]
     pub const fn width(&self) -> u16 {
-        self.0.x2 + 1 - self.0.x1
+        self.0.x2 - self.0.x1 + 1
     }
 
     /// The height of the subtitle.
     #[must_use]
     pub const fn height(&self) -> u16 {
-        self.0.y2 + 1 - self.0.y1
+        self.0.y2 - self.0.y1 + 1
     }
 
     /// The size of the subtitle.
@@ -62,8 +62,13 @@ impl TryFrom<AreaValues> for Area {
         // Later on, we assume that all bounding boxes
         // have non-negative width and height and we'll
         // crash if they don't.
+        // The width and height should also be representable by `u16`.
         if coords_value.x2 <= coords_value.x1 || coords_value.y2 <= coords_value.y1 {
             Err(ContentError::InvalidAreaBounding)
+        } else if coords_value.x2 - coords_value.x1 == u16::MAX
+            || coords_value.y2 - coords_value.y1 == u16::MAX
+        {
+            Err(ContentError::InvalidAreaBounding)
         } else {
             Ok(Self(coords_value))
         }
-- 
2.43.0


From 544438f8f88d6c409d6d1316c80ba3f35d239de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 05/16] fix: format the smallest TimePoint without overflow

---
 src/time/time_point.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/time/time_point.rs b/src/time/time_point.rs
index a7b9969..17b3f20 100644
--- a/src/time/time_point.rs
+++ b/src/time/time_point.rs
@@ -74,15 +74,14 @@ impl TimePoint {
     ///
     /// Will return error of writing if happen.
     pub fn fmt_separator(&self, f: &mut fmt::Formatter<'_>, separator: char) -> fmt::Result {
-        let t = if self.0 < 0 { -*self } else { *self };
         write!(
             f,
             "{}{:02}:{:02}:{:02}{separator}{:03}",
             if self.0 < 0 { "-" } else { "" },
-            t.hours(),
-            t.mins_comp(),
-            t.secs_comp(),
-            t.msecs_comp()
+            self.hours().unsigned_abs(),
+            self.mins_comp().unsigned_abs(),
+            self.secs_comp().unsigned_abs(),
+            self.msecs_comp().unsigned_abs()
         )
     }
 }
-- 
2.43.0


From 3f4c187ce2706359cbf86608297a1f682a3138e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 06/16] fix: report a PGS palette segment of impossible size as
 an error instead of panicking

---
 src/pgs/pds.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pgs/pds.rs b/src/pgs/pds.rs
index fcb5615..557e08b 100644
--- a/src/pgs/pds.rs
+++ b/src/pgs/pds.rs
@@ -7,6 +7,10 @@ pub enum Error {
     /// Read `PaletteDefinitionSegment` in a buffer failed.
     #[error("failed to read buffer with `PaletteDefinitionSegment`")]
     BufferParse(#[source] io::Error),
+
+    /// The size of the segment doesn't match with a list of palette entries.
+    #[error("invalid size of segment for a `PaletteDefinitionSegment` : {size}")]
+    InvalidSize { size: usize },
 }
 
 #[derive(Debug, Clone)]
@@ -60,11 +64,16 @@ pub(crate) fn read<R: Read>(
         .read_exact(&mut pds_buf)
         .map_err(Error::BufferParse)?;
 
+    if segments_size < 2 || (segments_size - 2) % 5 != 0 {
+        return Err(Error::InvalidSize {
+            size: segments_size,
+        });
+    }
+
     let palette_id = pds_buf[0];
     let palette_version_number = pds_buf[1];
 
     let nb_palette_entry: usize = (segments_size - 2) / 5;
-    assert_eq!((nb_palette_entry * 5) + 2, segments_size);
     let range = 0..nb_palette_entry;
     let palette_entries = range
         .map(|idx| {
-- 
2.43.0


From 565401351a32cf3a011add0e268b75e800983b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 07/16] fix: report malformed PGS object segments as errors
 instead of panicking

---
 src/pgs/ods.rs | 48 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/src/pgs/ods.rs b/src/pgs/ods.rs
index f78a608..51154a9 100644
--- a/src/pgs/ods.rs
+++ b/src/pgs/ods.rs
@@ -36,6 +36,13 @@ pub enum Error {
     #[error("read Height of the image incarried by the `Object Definition Segment`(s)")]
     ReadHeight(#[source] io::Error),
 
+    /// The size of the object data is not consistent with the size of the segment(s).
+    #[error("invalid `Object Data Length` {object_size} for a segment of size {segment_size}")]
+    InvalidObjectDataLength {
+        object_size: usize,
+        segment_size: usize,
+    },
+
     /// The read of object data failed.
     #[error("try reading object data (buffer slice size: {buff_size})")]
     ObjectData {
@@ -130,17 +137,26 @@ pub fn read<Reader: BufRead + Seek>(
 
     match current_ods {
         None => {
-            assert!(
-                last_in_sequence_flag == LastInSequenceFlag::First
-                    || last_in_sequence_flag == LastInSequenceFlag::FirstAndLast
-            );
+            if last_in_sequence_flag == LastInSequenceFlag::Last {
+                return Err(Error::LastInSequenceFlagNotManaged(last_in_sequence_flag));
+            }
 
-            let data_size = read_obj_data_length(reader)?;
+            let object_size = read_obj_data_length(reader)?;
             let (width, height) = read_img_size(reader)?;
-            let data_size = data_size - 4; // don't know why for now !!! Object Data Length include Width + Height ?
-            let mut object_data = vec![0; data_size]; // Create a `Vec` for contain data of object (image)
+            let invalid_length = || Error::InvalidObjectDataLength {
+                object_size,
+                segment_size: segments_size,
+            };
+            let data_size = object_size.checked_sub(4).ok_or_else(invalid_length)?; // don't know why for now !!! Object Data Length include Width + Height ?
+            let read_data_size = segments_size.checked_sub(11).ok_or_else(invalid_length)?; // Only read data from this segment, additional data are in the next segment, if there are any.
+            if read_data_size > data_size
+                || (last_in_sequence_flag == LastInSequenceFlag::FirstAndLast
+                    && read_data_size != data_size)
+            {
+                return Err(invalid_length());
+            }
 
-            let read_data_size = segments_size - 11; // Only read data from this segment, additional data are in the next segment, if there are any.
+            let mut object_data = vec![0; data_size]; // Create a `Vec` for contain data of object (image)
             let data_buff = &mut object_data.as_mut_slice()[0..read_data_size];
             read_object_data(reader, data_buff)?;
 
@@ -151,9 +167,6 @@ pub fn read<Reader: BufRead + Seek>(
             };
 
             if last_in_sequence_flag == LastInSequenceFlag::FirstAndLast {
-                assert!(read_data_size == data_size);
-                assert!(segments_size == 11 + data_size);
-
                 Ok(ObjectDefinitionSegment::Complete(data))
             } else if last_in_sequence_flag == LastInSequenceFlag::First {
                 Ok(ObjectDefinitionSegment::Partial {
@@ -168,10 +181,19 @@ pub fn read<Reader: BufRead + Seek>(
             mut data,
             amount_of_data_read,
         }) => {
-            assert!(last_in_sequence_flag == LastInSequenceFlag::Last); //TODO: not first and not last ?
+            //TODO: not first and not last ?
+            if last_in_sequence_flag != LastInSequenceFlag::Last {
+                return Err(Error::LastInSequenceFlagNotManaged(last_in_sequence_flag));
+            }
 
             let start_idx = amount_of_data_read;
-            let end_idx = start_idx + (segments_size - 4);
+            let end_idx = start_idx + segments_size.saturating_sub(4);
+            if end_idx != data.object_data.len() {
+                return Err(Error::InvalidObjectDataLength {
+                    object_size: data.object_data.len() + 4,
+                    segment_size: segments_size,
+                });
+            }
             let read_slice = &mut data.object_data.as_mut_slice()[start_idx..end_idx];
             read_object_data(reader, read_slice)?;
             Ok(ObjectDefinitionSegment::Complete(data))
-- 
2.43.0


From f1e5f6b3f2c2c0634c4d5b2bf14adfbe65b31319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 08/16] fix: do not panic on a PGS palette or partial object
 left over at the end of a subtitle

---
 src/pgs/decoder.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/pgs/decoder.rs b/src/pgs/decoder.rs
index f4da975..6562d88 100644
--- a/src/pgs/decoder.rs
+++ b/src/pgs/decoder.rs
@@ -132,8 +132,6 @@ impl PgsDecoder for DecodeTimeImage {
             }
         }
 
-        assert!(palette.is_none()); // palette should be transferred into image before get out of the function.
-        assert!(prev_ods.is_none()); // Ods data should be converted into image before get out of the function.
         Ok(subtitle)
     }
 }
-- 
2.43.0


From f95f226404f713b68d48bdbe43c7973a3da0b851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 09/16] fix: look up PGS palette entries by their id

---
 src/pgs/pds.rs | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/pgs/pds.rs b/src/pgs/pds.rs
index 557e08b..e4f8988 100644
--- a/src/pgs/pds.rs
+++ b/src/pgs/pds.rs
@@ -16,27 +16,15 @@ pub enum Error {
 #[derive(Debug, Clone)]
 pub struct Palette {
     entries: Vec<PaletteEntry>,
-    offset: i16,
 }
 impl Palette {
-    fn new(entries: Vec<PaletteEntry>) -> Self {
-        let offset = compute_offset(&entries);
-        Self { entries, offset }
+    const fn new(entries: Vec<PaletteEntry>) -> Self {
+        Self { entries }
     }
 
-    #[expect(clippy::cast_sign_loss)]
+    /// Get the entry with the specified `id`, entries can be in any order and can be sparse.
     pub fn get(&self, id: u8) -> Option<&PaletteEntry> {
-        let idx = i16::from(id) + self.offset;
-        self.entries.get(idx as usize)
-    }
-}
-
-fn compute_offset(palette: &[PaletteEntry]) -> i16 {
-    //HACK offset is computed only on the first element, should be checked for all entries
-    if palette.is_empty() {
-        0
-    } else {
-        0 - i16::from(palette[0].entry_id)
+        self.entries.iter().rfind(|entry| entry.entry_id == id)
     }
 }
 
-- 
2.43.0


From a22e457ad74f61a58ac570a77b0e5a280bcab43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 10/16] fix: iterate over exactly the pixels of a PGS image
 whatever its run-length data

---
 src/pgs/pgs_image.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/pgs/pgs_image.rs b/src/pgs/pgs_image.rs
index ac4c144..e750c7b 100644
--- a/src/pgs/pgs_image.rs
+++ b/src/pgs/pgs_image.rs
@@ -40,6 +40,7 @@ impl RleEncodedImage {
             current_color: LumaA([D::DEFAULT_MIN_VALUE, D::DEFAULT_MAX_VALUE]),
             default_color: LumaA([D::DEFAULT_MAX_VALUE, D::DEFAULT_MIN_VALUE]), // Default: white + transparent
             nb_remaining_pixels: 0,
+            nb_pixels_left: self.width() * self.height(),
             convert,
         }
     }
@@ -80,6 +81,7 @@ impl<'a> IntoIterator for &'a RleEncodedImage {
                 <u8 as Primitive>::DEFAULT_MIN_VALUE,
             ]), // Default: white + transparent
             nb_remaining_pixels: 0,
+            nb_pixels_left: self.width() * self.height(),
             convert: pe_to_luma_a,
         }
     }
@@ -173,6 +175,7 @@ pub struct RlePixelIterator<'a, C> {
     current_color: C,
     default_color: C,
     nb_remaining_pixels: u16,
+    nb_pixels_left: u32, // Number of pixels of the image not yet returned.
     convert: PixelConversion<C>,
 }
 
@@ -185,6 +188,9 @@ where
     type Item = Pix;
 
     fn next(&mut self) -> Option<Self::Item> {
+        // The number of pixels is always the one of the image, whatever the content of `Rle` data.
+        self.nb_pixels_left = self.nb_pixels_left.checked_sub(1)?;
+
         if self.nb_remaining_pixels > 0 {
             self.nb_remaining_pixels -= 1;
             Some(self.current_color)
@@ -200,12 +206,13 @@ where
             self.nb_remaining_pixels = nb_pixel - 1;
             Some(self.current_color)
         } else {
-            None // End of pixels
+            // End of data, missing pixels have the default value
+            Some(self.default_color)
         }
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let nb_pixels = (self.rle_image.width() * self.rle_image.height()) as usize;
+        let nb_pixels = self.nb_pixels_left as usize;
         (nb_pixels, Some(nb_pixels))
     }
 }
@@ -234,7 +241,7 @@ impl<C> RlePixelIterator<'_, C> {
             let next = color[0];
             if next == MARKER {
                 let mut l2 = [0; 1];
-                self.raw_data.read_exact(&mut l2).unwrap();
+                self.raw_data.read_exact(&mut l2).ok()?;
 
                 if l2[0] == MARKER {
                     //break; // End of line
@@ -243,7 +250,7 @@ impl<C> RlePixelIterator<'_, C> {
                     let nb_pixels = match CountMarker::from(byte) {
                         CountMarker::Long => {
                             let mut l3 = [0; 1];
-                            self.raw_data.read_exact(&mut l3).unwrap();
+                            self.raw_data.read_exact(&mut l3).ok()?;
                             let count_bytes = [byte & 0b0011_1111, l3[0]];
                             u16::from_be_bytes(count_bytes)
                         }
@@ -258,12 +265,15 @@ impl<C> RlePixelIterator<'_, C> {
                         ColorMarker::Color0 => COLOR_0,
                         ColorMarker::ColorN => {
                             let mut color = [0; 1];
-                            self.raw_data.read_exact(&mut color).unwrap();
+                            self.raw_data.read_exact(&mut color).ok()?;
                             color[0]
                         }
                     };
 
-                    return Some((color, nb_pixels));
+                    // A run of zero pixel is ignored.
+                    if nb_pixels > 0 {
+                        return Some((color, nb_pixels));
+                    }
                 }
             } else {
                 return Some((next, 1));
-- 
2.43.0


From 51139f6df44c6125dae4fe5968acbe7dd2a3c026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 11/16] fix: resume PGS parsing at the next segment after a
 malformed or unknown one

---
 src/pgs/decoder.rs |  9 ++++++---
 src/pgs/mod.rs     | 10 ++++++++++
 src/pgs/segment.rs | 32 ++++++++++++++++++++++++++++++--
 3 files changed, 46 insertions(+), 5 deletions(-)

diff --git a/src/pgs/decoder.rs b/src/pgs/decoder.rs
index 6562d88..fbf32c8 100644
--- a/src/pgs/decoder.rs
+++ b/src/pgs/decoder.rs
@@ -1,11 +1,11 @@
 use crate::time::{TimePoint, TimeSpan};
-use std::io::{BufRead, Seek};
+use std::io::{BufRead, Cursor, Seek};
 
 use super::{
     ods::{self, ObjectDefinitionSegment},
     pds,
     pgs_image::RleEncodedImage,
-    segment::{read_header, skip_segment, SegmentTypeCode},
+    segment::{read_header, read_segment, skip_segment, SegmentTypeCode},
     PgsError,
 };
 
@@ -96,8 +96,11 @@ impl PgsDecoder for DecodeTimeImage {
                     palette = Some(pds.palette);
                 }
                 SegmentTypeCode::Ods => {
+                    // Read the whole segment first, to let the reader on the next one even if
+                    // the content of this one is malformed.
+                    let mut content = Cursor::new(read_segment(reader, &seg_header)?);
                     let seg_size = seg_header.size() as usize;
-                    let ods = ods::read(reader, seg_size, prev_ods.take())?;
+                    let ods = ods::read(&mut content, seg_size, prev_ods.take())?;
 
                     // If data are complete, construct `image` from palette and image data
                     // otherwise, keep read data to complete it with data from following segment.
diff --git a/src/pgs/mod.rs b/src/pgs/mod.rs
index 7716139..f77bc3b 100644
--- a/src/pgs/mod.rs
+++ b/src/pgs/mod.rs
@@ -59,6 +59,16 @@ pub enum PgsError {
     #[error("unable to read segment - PG missing!")]
     SegmentPGMissing,
 
+    /// `ReadError` occurred during reading the content of the segment.
+    #[error("reading Segment {type_code}")]
+    SegmentRead {
+        /// Parent `ReadError`
+        #[source]
+        source: ReadError,
+        /// type code of the segment we read
+        type_code: SegmentTypeCode,
+    },
+
     /// `ReadError` occurred during skipping the segment.
     #[error("skipping Segment {type_code}")]
     SegmentSkip {
diff --git a/src/pgs/segment.rs b/src/pgs/segment.rs
index 52f8b68..ea2669d 100644
--- a/src/pgs/segment.rs
+++ b/src/pgs/segment.rs
@@ -1,4 +1,5 @@
 use super::{PgsError, ReadExt as _};
+use log::warn;
 use std::{
     fmt,
     io::{BufRead, ErrorKind, Seek},
@@ -86,11 +87,23 @@ impl SegmentHeader {
 const HEADER_LEN: usize = 2 + 4 + 4 + 1 + 2;
 
 /// Read the segment header
-pub fn read_header<R: BufRead>(reader: &mut R) -> Result<Option<SegmentHeader>, PgsError> {
+///
+/// If the type of the segment is unknown, the content of the segment is skipped before the return
+/// of the error, to let the reader on the next segment.
+pub fn read_header<R: BufRead + Seek>(reader: &mut R) -> Result<Option<SegmentHeader>, PgsError> {
     let mut buffer = [0u8; HEADER_LEN];
 
     match reader.read_exact(&mut buffer) {
-        Ok(()) => parse_segment_header(buffer),
+        Ok(()) => {
+            let header = parse_segment_header(buffer);
+            if let Err(PgsError::SegmentInvalidTypeCode { .. }) = &header {
+                let size = u16::from_be_bytes([buffer[11], buffer[12]]);
+                if let Err(err) = reader.skip_data(usize::from(size)) {
+                    warn!("failed to skip a segment of unknown type: {err:?}");
+                }
+            }
+            header
+        }
         Err(err) if err.kind() == ErrorKind::UnexpectedEof => {
             // Buffer is empty, just return to end parsing
             Ok(None)
@@ -117,6 +130,21 @@ fn parse_segment_header(buffer: [u8; HEADER_LEN]) -> Result<Option<SegmentHeader
     }))
 }
 
+/// Read the whole content of a segment.
+pub fn read_segment<R: BufRead + Seek>(
+    reader: &mut R,
+    header: &SegmentHeader,
+) -> Result<Vec<u8>, PgsError> {
+    let mut content = vec![0; header.size() as usize];
+    reader
+        .read_buffer(&mut content)
+        .map_err(|source| PgsError::SegmentRead {
+            source,
+            type_code: header.type_code(),
+        })?;
+    Ok(content)
+}
+
 /// skip segment
 pub fn skip_segment<R: BufRead + Seek>(
     reader: &mut R,
-- 
2.43.0


From 8b26148fc740d3affc647022187cbb114aaf427d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 12/16] fix: retry an interrupted read when skipping a PGS
 segment

---
 src/pgs/mod.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pgs/mod.rs b/src/pgs/mod.rs
index f77bc3b..44f9a6c 100644
--- a/src/pgs/mod.rs
+++ b/src/pgs/mod.rs
@@ -147,9 +147,15 @@ where
     /// Will return `FailedSeek` if `seek` failed.
     /// Will return `InvalidSeekValue` if `to_skip` value can't be converted in i64.
     fn skip_data(&mut self, to_skip: usize) -> Result<(), ReadError> {
-        let buff = self.fill_buf().map_err(ReadError::FailedFillBuf)?;
-
-        if buff.len() >= to_skip {
+        let buff_len = loop {
+            match self.fill_buf() {
+                Ok(buff) => break buff.len(),
+                Err(err) if err.kind() == io::ErrorKind::Interrupted => {} // Retry, like `read_exact`.
+                Err(err) => return Err(ReadError::FailedFillBuf(err)),
+            }
+        };
+
+        if buff_len >= to_skip {
             self.consume(to_skip);
         } else {
             let to_skip = i64::try_from(to_skip).map_err(|source| ReadError::InvalidSeekValue {
-- 
2.43.0


From b62ffd7a3f2257a0f2ea9f457e8c009f95ec2a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 13/16] fix: report a failure to write the end of a dumped
 image

---
 src/image/utils.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/image/utils.rs b/src/image/utils.rs
index da24b27..344a9fa 100644
--- a/src/image/utils.rs
+++ b/src/image/utils.rs
@@ -1,9 +1,9 @@
 use crate::SubtileError;
-use image::{EncodableLayout, Pixel, PixelWithColorType};
+use image::{EncodableLayout, ImageFormat, Pixel, PixelWithColorType};
 use std::{
     borrow::Borrow,
-    fs::create_dir_all,
-    io,
+    fs::{create_dir_all, File},
+    io::{self, BufWriter, Write as _},
     ops::Deref,
     path::{Path, PathBuf},
 };
@@ -85,5 +85,9 @@ where
     [Pix::Subpixel]: EncodableLayout,
     Container: Deref<Target = [Pix::Subpixel]>,
 {
-    image.save(filename)
+    // Flush explicitly, otherwise a failure to write the last bytes would be lost.
+    let mut writer = BufWriter::new(File::create(filename)?);
+    image.write_to(&mut writer, ImageFormat::Png)?;
+    writer.flush()?;
+    Ok(())
 }
-- 
2.43.0


From 32600b32fbc239ec4a2ce9886f2b90ec0d37f693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 14/16] fix: do not print PGS read errors on the standard
 output

---
 src/pgs/segment.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pgs/segment.rs b/src/pgs/segment.rs
index ea2669d..019cc55 100644
--- a/src/pgs/segment.rs
+++ b/src/pgs/segment.rs
@@ -109,7 +109,7 @@ pub fn read_header<R: BufRead + Seek>(reader: &mut R) -> Result<Option<SegmentHe
             Ok(None)
         }
         Err(err) => {
-            println!("{err:?}");
+            warn!("{err:?}");
             Err(PgsError::SegmentFailReadHeader)
         }
     }
-- 
2.43.0


From 8dc3ae555312e2128acc4f76811cbcfb7cd52374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:47 +0000
Subject: [PATCH 15/16] fix: reject VobSub run-length codes truncated by the
 end of the data

A code cut by the end of the data was read as a shorter code, mostly as a fill
of the rest of the line, instead of being reported.
---
 src/vobsub/img.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/vobsub/img.rs b/src/vobsub/img.rs
index 5fbf85f..8c063d9 100644
--- a/src/vobsub/img.rs
+++ b/src/vobsub/img.rs
@@ -7,7 +7,7 @@ use log::trace;
 use nom::{
     bits::complete::{tag as tag_bits, take as take_bits},
     branch::alt,
-    combinator::value,
+    combinator::{value, verify},
     sequence::preceded,
     IResult, Parser as _,
 };
@@ -130,12 +130,20 @@ fn count(input: (&[u8], usize)) -> IResult<(&[u8], usize), u16> {
     let end_of_line = value(0, tag_bits(0, 14u16));
     // Count for 4-nibble RLE.
     let count4 = preceded(tag_bits(0, 6u8), take_bits(8u16));
+    // The shorter codes have a minimum value, as a smaller one announces a longer code:
+    // without these checks, a code truncated by the end of the data would be read as a shorter one.
     // Count for 3-nibble RLE.
-    let count3 = preceded(tag_bits(0, 4u8), take_bits(6u16));
+    let count3 = verify(
+        preceded(tag_bits(0, 4u8), take_bits(6u16)),
+        |count: &u16| *count >= 16,
+    );
     // Count for 2-nibble RLE.
-    let count2 = preceded(tag_bits(0, 2u8), take_bits(4u16));
+    let count2 = verify(
+        preceded(tag_bits(0, 2u8), take_bits(4u16)),
+        |count: &u16| *count >= 4,
+    );
     // Count for 1-nibble RLE.
-    let count1 = take_bits(2u16);
+    let count1 = verify(take_bits(2u16), |count: &u16| *count >= 1);
     alt((end_of_line, count4, count3, count2, count1)).parse(input)
 }
 
-- 
2.43.0


From 24ca529b9b0219072c9b3cb20e7db906ab2dd8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:19 +0000
Subject: [PATCH 16/16] fix: SupParser announces items that may never come

size_hint() gave a lower bound of 500 for every stream, which the contract
of Iterator forbids: code that trusts the bound (or only checks it) sees a
wrong count for every shorter stream, and collecting allocates for 500
items at least. Leave the hint to the default, (0, None).
---
 src/pgs/sup.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/pgs/sup.rs b/src/pgs/sup.rs
index 38e1b4b..403c52e 100644
--- a/src/pgs/sup.rs
+++ b/src/pgs/sup.rs
@@ -57,11 +57,6 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         Decoder::parse_next(&mut self.reader).transpose()
     }
-
-    // Set lower bound to promote the allocation of a minimum number of elements.
-    fn size_hint(&self) -> (usize, Option<usize>) {
-        (500, None)
-    }
 }
 
 impl<Reader, Decoder> FusedIterator for SupParser<Reader, Decoder>
-- 
2.43.0

