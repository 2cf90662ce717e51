From 8f97e2a62339dc1379683966bd1732f85e88d52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:36 +0000
Subject: [PATCH 01/15] fix: TokioReader reads the requested range instead of
 zero bytes

The buffer handed to AsyncReadExt::read had a length of zero, so every
non-empty request failed with EndOfFile; a short read would also have been
reported as end of file.
---
 src/reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 3ac1317..5ca5124 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -113,8 +113,8 @@ impl<T: tokio::io::AsyncRead + tokio::io::AsyncSeek + Unpin + Send + Debug> Toki
         file.seek(SeekFrom::Start(range.start)).await?;
 
         let to_read = range.end - range.start;
-        let mut buffer = Vec::with_capacity(to_read as usize);
-        let read = file.read(&mut buffer).await? as u64;
+        let mut buffer = Vec::new();
+        let read = (&mut *file).take(to_read).read_to_end(&mut buffer).await? as u64;
         if read != to_read {
             return Err(AsyncTiffError::EndOfFile(to_read, read));
         }
-- 
2.43.0


From 699bf84312aaa5303c67d950f53d775db072baed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:36 +0000
Subject: [PATCH 02/15] fix: ReqwestReader does not underflow on an empty range

Sparse tiles have offset 0 and byte count 0, for which range.end - 1
underflowed.
---
 src/reader.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 5ca5124..28d294f 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -200,6 +200,11 @@ impl ReqwestReader {
     }
 
     async fn make_range_request(&self, range: Range<u64>) -> AsyncTiffResult<Bytes> {
+        // An empty range can't be expressed as an (inclusive) HTTP range
+        if range.is_empty() {
+            return Ok(Bytes::new());
+        }
+
         let url = self.url.clone();
         let client = self.client.clone();
         // HTTP range is inclusive, so we need to subtract 1 from the end
-- 
2.43.0


From 8da570c4507540702e12d7a84c69091b756134a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:49 +0000
Subject: [PATCH 03/15] fix: reverse the predictor per band for planar tiles

Bands of a planar tile are encoded independently with one sample per pixel,
but the predictor was reversed with the image's samples per pixel, giving
wrong pixels for every planar tile with more than one band.
---
 src/tile.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/tile.rs b/src/tile.rs
index 5b586b2..61bda58 100644
--- a/src/tile.rs
+++ b/src/tile.rs
@@ -122,6 +122,12 @@ impl Tile {
             }
         };
 
+        // In planar format each band is encoded on its own, with a single sample per pixel.
+        let predictor_samples = match &self.compressed_bytes {
+            CompressedBytes::Chunky(_) => samples,
+            CompressedBytes::Planar(_) => 1,
+        };
+
         // Apply predictor on the full encoded tile width, then crop afterward.
         let decoded = match self.predictor {
             Predictor::None => {
@@ -131,12 +137,12 @@ impl Tile {
             Predictor::Horizontal => unpredict_hdiff(
                 decoded_tile,
                 self.endianness,
-                samples,
+                predictor_samples,
                 bits_per_sample,
                 tile_width,
             ),
             Predictor::FloatingPoint => {
-                unpredict_float(decoded_tile, samples, bits_per_sample, tile_width)?
+                unpredict_float(decoded_tile, predictor_samples, bits_per_sample, tile_width)?
             }
         };
 
-- 
2.43.0


From e30426b37e307cef875b9cda555a7c0a44621c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:49 +0000
Subject: [PATCH 04/15] fix: return an error for corrupt LZW data and truncated
 JPEG tables

Both panicked on malformed input.
---
 src/decoder.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 0266d5d..5aad26c 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -240,7 +240,9 @@ impl Decoder for LZWDecoder {
     ) -> AsyncTiffResult<Vec<u8>> {
         // https://github.com/image-rs/image-tiff/blob/90ae5b8e54356a35e266fb24e969aafbcb26e990/src/decoder/stream.rs#L147
         let mut decoder = weezl::decode::Decoder::with_tiff_size_switch(weezl::BitOrder::Msb, 8);
-        let decoded = decoder.decode(&buffer).expect("failed to decode LZW data");
+        let decoded = decoder
+            .decode(&buffer)
+            .map_err(|e| AsyncTiffError::General(format!("LZW decode failed: {e}")))?;
         Ok(decoded)
     }
 }
@@ -379,8 +381,10 @@ fn decode_modern_jpeg(
             let mut reader = reader;
             reader.read_exact(&mut [0; 2])?;
 
-            Box::new(Cursor::new(&jpeg_tables[..jpeg_tables.len() - 2]).chain(reader))
-                as Box<dyn Read>
+            let tables_len = jpeg_tables.len().checked_sub(2).ok_or_else(|| {
+                AsyncTiffError::General("JPEGTables is shorter than its EOI marker".to_string())
+            })?;
+            Box::new(Cursor::new(&jpeg_tables[..tables_len]).chain(reader)) as Box<dyn Read>
         }
         None => Box::new(reader),
     };
-- 
2.43.0


From 39d07444b6a9834c368f5f6bbb6a603e122edaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:01 +0000
Subject: [PATCH 05/15] fix: decode 16-bit JPEG2000 tiles

bytemuck::cast_vec panics when the element alignments differ, so every
16-bit JPEG2000 tile panicked.
---
 src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 5aad26c..d78bc5b 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -276,7 +276,7 @@ impl Decoder for JPEG2kDecoder {
             jpeg2k::ImagePixelData::L16(items)
             | jpeg2k::ImagePixelData::La16(items)
             | jpeg2k::ImagePixelData::Rgb16(items)
-            | jpeg2k::ImagePixelData::Rgba16(items) => Ok(bytemuck::cast_vec(items)),
+            | jpeg2k::ImagePixelData::Rgba16(items) => Ok(bytemuck::cast_slice(&items).to_vec()),
         }
     }
 }
-- 
2.43.0


From fa9a619873c42594cdf1b13a6fa4b0b2511405eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:35 +0000
Subject: [PATCH 06/15] fix: do not panic on planar tiles whose decoded size is
 unexpected

The capacity computation could overflow or abort for absurd tile dimensions,
and the debug assertion fired for 1-bit planar tiles and short bands. A wrong
length is already reported as an error by Array::try_new, whose own size
computation could overflow too.
---
 src/array.rs | 7 ++++++-
 src/tile.rs  | 6 +-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/array.rs b/src/array.rs
index 2acfea0..ae592c5 100644
--- a/src/array.rs
+++ b/src/array.rs
@@ -29,7 +29,12 @@ impl Array {
         shape: [usize; 3],
         data_type: Option<DataType>,
     ) -> AsyncTiffResult<Self> {
-        let expected_len = shape[0] * shape[1] * shape[2];
+        let expected_len = shape[0]
+            .checked_mul(shape[1])
+            .and_then(|len| len.checked_mul(shape[2]))
+            .ok_or_else(|| {
+                AsyncTiffError::General(format!("Array shape {shape:?} is too large"))
+            })?;
 
         let typed_data = if data_type == Some(DataType::Bool) {
             let required_bytes = expected_len.div_ceil(8);
diff --git a/src/tile.rs b/src/tile.rs
index 61bda58..54bf272 100644
--- a/src/tile.rs
+++ b/src/tile.rs
@@ -100,10 +100,7 @@ impl Tile {
                 self.lerc_parameters.as_deref(),
             )?,
             CompressedBytes::Planar(band_bytes) => {
-                let bytes_per_sample = (bits_per_sample as usize).div_ceil(8);
-                let total_size =
-                    band_bytes.len() * tile_width * (self.height as usize) * bytes_per_sample;
-                let mut result = Vec::with_capacity(total_size);
+                let mut result = Vec::new();
 
                 for band_data in band_bytes {
                     let decoded_band = decoder.decode_tile(
@@ -117,7 +114,6 @@ impl Tile {
                     result.extend_from_slice(&decoded_band);
                 }
 
-                debug_assert_eq!(result.len(), total_size);
                 result
             }
         };
-- 
2.43.0


From 944651d042952027be63d33ebc84bbf9eb69f7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:04 +0000
Subject: [PATCH 07/15] fix: return an error when a predictor cannot be
 reversed

Zero-width tiles, truncated tiles of multi-byte samples and more than 64 bits
per sample panicked.
---
 src/predictor.rs | 26 ++++++++++++++++++++++++--
 src/tile.rs      |  2 +-
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/predictor.rs b/src/predictor.rs
index c272ab4..552c694 100644
--- a/src/predictor.rs
+++ b/src/predictor.rs
@@ -57,9 +57,26 @@ pub(crate) fn unpredict_hdiff(
     samples: usize,
     bits_per_sample: u16,
     tile_width: usize,
-) -> Vec<u8> {
+) -> AsyncTiffResult<Vec<u8>> {
     let bytes_per_sample = (bits_per_sample as usize).div_ceil(8);
     let row_stride = tile_width * samples * bytes_per_sample;
+    let word_size = match bits_per_sample {
+        0..=8 => 1,
+        9..=16 => 2,
+        17..=32 => 4,
+        33..=64 => 8,
+        _ => {
+            return Err(AsyncTiffError::General(format!(
+                "Horizontal predictor not supported for {bits_per_sample}-bit samples"
+            )))
+        }
+    };
+    if row_stride == 0 || row_stride % word_size != 0 || buffer.len() % word_size != 0 {
+        return Err(AsyncTiffError::General(format!(
+            "Horizontal predictor: {} decoded bytes do not form rows of {row_stride} bytes",
+            buffer.len()
+        )));
+    }
 
     fix_endianness(&mut buffer, endianness, bits_per_sample);
 
@@ -67,7 +84,7 @@ pub(crate) fn unpredict_hdiff(
         rev_hpredict_row(row, bits_per_sample, samples);
     }
 
-    buffer
+    Ok(buffer)
 }
 
 /// Reverse one row of horizontal differencing, dispatched by bit depth.
@@ -120,6 +137,11 @@ pub(crate) fn unpredict_float(
 ) -> AsyncTiffResult<Vec<u8>> {
     let bytes_per_sample = (bits_per_sample as usize) / 8;
     let row_stride = tile_width * samples * bytes_per_sample;
+    if row_stride == 0 {
+        return Err(AsyncTiffError::General(format!(
+            "Floating-point predictor: empty rows of {bits_per_sample}-bit samples"
+        )));
+    }
     let mut out = vec![0u8; buffer.len()];
 
     for (in_row, out_row) in buffer
diff --git a/src/tile.rs b/src/tile.rs
index 54bf272..f7e64e4 100644
--- a/src/tile.rs
+++ b/src/tile.rs
@@ -136,7 +136,7 @@ impl Tile {
                 predictor_samples,
                 bits_per_sample,
                 tile_width,
-            ),
+            )?,
             Predictor::FloatingPoint => {
                 unpredict_float(decoded_tile, predictor_samples, bits_per_sample, tile_width)?
             }
-- 
2.43.0


From 0dc79bbacf9d940b2364b5ce7752e26439225257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:19 +0000
Subject: [PATCH 08/15] fix: do not byte-swap samples that the codec already
 returns in host order

JPEG, JPEG2000 and LERC decoders return multi-byte samples in host byte
order; in a big-endian file they were swapped a second time.
---
 src/tile.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/tile.rs b/src/tile.rs
index f7e64e4..aa93ff9 100644
--- a/src/tile.rs
+++ b/src/tile.rs
@@ -118,6 +118,19 @@ impl Tile {
             }
         };
 
+        // JPEG, JPEG2000 and LERC store samples in a byte order of their own, and their decoders
+        // return them in the byte order of the host, whatever the byte order of the file.
+        let endianness = match self.compression_method {
+            Compression::ModernJPEG | Compression::JPEG2k | Compression::LERC => {
+                if cfg!(target_endian = "little") {
+                    Endianness::LittleEndian
+                } else {
+                    Endianness::BigEndian
+                }
+            }
+            _ => self.endianness,
+        };
+
         // In planar format each band is encoded on its own, with a single sample per pixel.
         let predictor_samples = match &self.compressed_bytes {
             CompressedBytes::Chunky(_) => samples,
@@ -127,12 +140,12 @@ impl Tile {
         // Apply predictor on the full encoded tile width, then crop afterward.
         let decoded = match self.predictor {
             Predictor::None => {
-                fix_endianness(&mut decoded_tile, self.endianness, bits_per_sample);
+                fix_endianness(&mut decoded_tile, endianness, bits_per_sample);
                 decoded_tile
             }
             Predictor::Horizontal => unpredict_hdiff(
                 decoded_tile,
-                self.endianness,
+                endianness,
                 predictor_samples,
                 bits_per_sample,
                 tile_width,
-- 
2.43.0


From f3cca7ab309bb5a63845b330834fa9760271909f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:20 +0000
Subject: [PATCH 09/15] fix: out-of-range tile indices are reported instead of
 panicking or aliasing

A column index past the end of a row silently selected a tile of the next
row, and a row index past the end a tile of the next band; other indices,
inconsistent tile tables, zero tile dimensions and overflowing byte ranges
panicked.
---
 src/ifd.rs | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/ifd.rs b/src/ifd.rs
index 4303248..b076afa 100644
--- a/src/ifd.rs
+++ b/src/ifd.rs
@@ -739,9 +739,9 @@ impl ImageFileDirectory {
         y: usize,
         reader: &dyn AsyncFileReader,
     ) -> AsyncTiffResult<Tile> {
-        let byte_ranges = self
-            .tile_byte_range(x, y)
-            .ok_or(AsyncTiffError::General("Not a tiled TIFF".to_string()))?;
+        let byte_ranges = self.tile_byte_range(x, y).ok_or(AsyncTiffError::General(
+            "Not a tiled TIFF, or tile index out of range".to_string(),
+        ))?;
         let compressed_bytes = byte_ranges.into_fetch(reader).await?;
         Ok(compressed_bytes.into_tile(x, y, self))
     }
@@ -752,9 +752,9 @@ impl ImageFileDirectory {
         xy: &[(usize, usize)],
         reader: &dyn AsyncFileReader,
     ) -> AsyncTiffResult<Vec<Tile>> {
-        let byte_ranges = self
-            .tiles_byte_ranges(xy)
-            .ok_or(AsyncTiffError::General("Not a tiled TIFF".to_string()))?;
+        let byte_ranges = self.tiles_byte_ranges(xy).ok_or(AsyncTiffError::General(
+            "Not a tiled TIFF, or tile index out of range".to_string(),
+        ))?;
         let compressed_bytes = byte_ranges.into_fetch(reader).await?;
         Ok(compressed_bytes
             .into_iter()
@@ -766,6 +766,9 @@ impl ImageFileDirectory {
     /// Return the number of x/y tiles in the IFD
     /// Returns `None` if this is not a tiled TIFF
     pub fn tile_count(&self) -> Option<(usize, usize)> {
+        if self.tile_width == Some(0) || self.tile_height == Some(0) {
+            return None;
+        }
         let x_count = (self.image_width as f64 / self.tile_width? as f64).ceil();
         let y_count = (self.image_height as f64 / self.tile_height? as f64).ceil();
         Some((x_count as usize, y_count as usize))
@@ -796,24 +799,29 @@ impl TileByteRange {
         let tile_offsets = ifd.tile_offsets.as_deref()?;
         let tile_byte_counts = ifd.tile_byte_counts.as_deref()?;
         let (tiles_per_row, tiles_per_col) = ifd.tile_count()?;
+        if x >= tiles_per_row || y >= tiles_per_col {
+            return None;
+        }
         match ifd.planar_configuration {
             PlanarConfiguration::Chunky => {
                 let idx = (y * tiles_per_row) + x;
-                let offset = tile_offsets[idx];
-                let byte_count = tile_byte_counts[idx];
-                Some(TileByteRange::Chunky(offset..(offset + byte_count)))
+                let offset = *tile_offsets.get(idx)?;
+                let byte_count = *tile_byte_counts.get(idx)?;
+                let end = offset.checked_add(byte_count)?;
+                Some(TileByteRange::Chunky(offset..end))
             }
             PlanarConfiguration::Planar => {
                 let tiles_per_band = tiles_per_row * tiles_per_col;
                 let num_bands = ifd.samples_per_pixel as usize;
                 let band_ranges = (0..num_bands)
                     .map(|band| {
-                        let band_idx = (band * tiles_per_band) + (y * tiles_per_row) + x;
-                        let offset = tile_offsets[band_idx];
-                        let byte_count = tile_byte_counts[band_idx];
-                        offset..(offset + byte_count)
+                        let band_idx = (band.checked_mul(tiles_per_band)?)
+                            .checked_add(y * tiles_per_row + x)?;
+                        let offset = *tile_offsets.get(band_idx)?;
+                        let byte_count = *tile_byte_counts.get(band_idx)?;
+                        Some(offset..offset.checked_add(byte_count)?)
                     })
-                    .collect::<Vec<_>>();
+                    .collect::<Option<Vec<_>>>()?;
                 Some(TileByteRange::Planar(band_ranges))
             }
         }
-- 
2.43.0


From 030b05fb65fb85d14d17602d6fcae3b08be1778e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:54 +0000
Subject: [PATCH 10/15] fix: missing or mistyped IFD tags are errors instead of
 panics

---
 src/ifd.rs | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/ifd.rs b/src/ifd.rs
index b076afa..2adc593 100644
--- a/src/ifd.rs
+++ b/src/ifd.rs
@@ -17,6 +17,10 @@ use crate::{DataType, Tile};
 
 const DOCUMENT_NAME: u16 = 269;
 
+fn required_tag_not_found(tag: Tag) -> TiffError {
+    TiffError::FormatError(TiffFormatError::RequiredTagNotFound(tag))
+}
+
 /// An ImageFileDirectory representing Image content
 // The ordering of these tags matches the sorted order in TIFF spec Appendix A
 #[allow(dead_code)]
@@ -224,11 +228,19 @@ impl ImageFileDirectory {
                 Tag::MaxSampleValue => max_sample_value = Some(value.into_u16_vec()?),
                 Tag::XResolution => match value {
                     TagValue::Rational(n, d) => x_resolution = Some(n as f64 / d as f64),
-                    _ => unreachable!("Expected rational type for XResolution."),
+                    _ => {
+                        return Err(TiffError::FormatError(
+                            TiffFormatError::InvalidTagValueType(tag),
+                        ))
+                    }
                 },
                 Tag::YResolution => match value {
                     TagValue::Rational(n, d) => y_resolution = Some(n as f64 / d as f64),
-                    _ => unreachable!("Expected rational type for YResolution."),
+                    _ => {
+                        return Err(TiffError::FormatError(
+                            TiffFormatError::InvalidTagValueType(tag),
+                        ))
+                    }
                 },
                 Tag::PlanarConfiguration => {
                     planar_configuration = PlanarConfiguration::from_u16(value.into_u16()?)
@@ -372,7 +384,15 @@ impl ImageFileDirectory {
             geo_key_directory = Some(GeoKeyDirectory::from_tags(tags)?);
         }
 
-        let samples_per_pixel = samples_per_pixel.expect("samples_per_pixel not found");
+        let samples_per_pixel =
+            samples_per_pixel.ok_or(required_tag_not_found(Tag::SamplesPerPixel))?;
+        let bits_per_sample = bits_per_sample.ok_or(required_tag_not_found(Tag::BitsPerSample))?;
+        if bits_per_sample.is_empty() {
+            return Err(TiffError::FormatError(TiffFormatError::RequiredTagEmpty(
+                Tag::BitsPerSample,
+            ))
+            .into());
+        }
         let planar_configuration = if let Some(planar_configuration) = planar_configuration {
             planar_configuration
         } else if samples_per_pixel == 1 {
@@ -385,14 +405,14 @@ impl ImageFileDirectory {
         Ok(Self {
             endianness,
             new_subfile_type,
-            image_width: image_width.expect("image_width not found"),
-            image_height: image_height.expect("image_height not found"),
-            bits_per_sample: bits_per_sample.expect("bits per sample not found"),
+            image_width: image_width.ok_or(required_tag_not_found(Tag::ImageWidth))?,
+            image_height: image_height.ok_or(required_tag_not_found(Tag::ImageLength))?,
+            bits_per_sample,
             // Defaults to no compression
             // https://web.archive.org/web/20240329145331/https://www.awaresystems.be/imaging/tiff/tifftags/compression.html
             compression: compression.unwrap_or(Compression::None),
             photometric_interpretation: photometric_interpretation
-                .expect("photometric interpretation not found"),
+                .ok_or(required_tag_not_found(Tag::PhotometricInterpretation))?,
             document_name,
             image_description,
             strip_offsets,
-- 
2.43.0


From 7a666d161f1cdc495a3fb74866b5263ad226d1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:55 +0000
Subject: [PATCH 11/15] fix: a malformed GeoKeyDirectory is an error instead of
 a panic

---
 src/ifd.rs | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/ifd.rs b/src/ifd.rs
index 2adc593..136db1c 100644
--- a/src/ifd.rs
+++ b/src/ifd.rs
@@ -21,6 +21,12 @@ fn required_tag_not_found(tag: Tag) -> TiffError {
     TiffError::FormatError(TiffFormatError::RequiredTagNotFound(tag))
 }
 
+fn invalid_geo_keys(reason: &str) -> TiffError {
+    TiffError::FormatError(TiffFormatError::Format(format!(
+        "invalid GeoKeyDirectory: {reason}"
+    )))
+}
+
 /// An ImageFileDirectory representing Image content
 // The ordering of these tags matches the sorted order in TIFF spec Appendix A
 #[allow(dead_code)]
@@ -307,25 +313,27 @@ impl ImageFileDirectory {
         // We need to actually parse the GeoKeyDirectory after parsing all other tags because the
         // GeoKeyDirectory relies on `GeoAsciiParamsTag` having been parsed.
         if let Some(data) = geo_key_directory_data {
-            let mut chunks = data.chunks(4);
+            let mut chunks = data.chunks_exact(4);
 
             let header = chunks
                 .next()
-                .expect("If the geo key directory exists, a header should exist.");
+                .ok_or(invalid_geo_keys("the header is missing"))?;
             let key_directory_version = header[0];
-            assert_eq!(key_directory_version, 1);
+            if key_directory_version != 1 {
+                return Err(invalid_geo_keys("the key directory version is not 1").into());
+            }
 
             let key_revision = header[1];
-            assert_eq!(key_revision, 1);
+            if key_revision != 1 {
+                return Err(invalid_geo_keys("the key revision is not 1").into());
+            }
 
             let _key_minor_revision = header[2];
             let number_of_keys = header[3];
 
             let mut tags = HashMap::with_capacity(number_of_keys as usize);
             for _ in 0..number_of_keys {
-                let chunk = chunks
-                    .next()
-                    .expect("There should be a chunk for each key.");
+                let chunk = chunks.next().ok_or(invalid_geo_keys("a key is missing"))?;
 
                 let key_id = chunk[0];
                 let tag_name = if let Ok(tag_name) = GeoKeyTag::try_from_primitive(key_id) {
@@ -350,9 +358,11 @@ impl ImageFileDirectory {
 
                     let geo_ascii_params = geo_ascii_params
                         .as_ref()
-                        .expect("GeoAsciiParamsTag exists but geo_ascii_params does not.");
+                        .ok_or(required_tag_not_found(Tag::GeoAsciiParams))?;
                     let value_offset = value_offset as usize;
-                    let mut s = &geo_ascii_params[value_offset..value_offset + count as usize];
+                    let mut s = geo_ascii_params
+                        .get(value_offset..value_offset + count as usize)
+                        .ok_or(invalid_geo_keys("a string is out of bounds"))?;
 
                     // It seems that this string subslice might always include the final |
                     // character?
@@ -367,15 +377,15 @@ impl ImageFileDirectory {
 
                     let geo_double_params = geo_double_params
                         .as_ref()
-                        .expect("GeoDoubleParamsTag exists but geo_double_params does not.");
+                        .ok_or(required_tag_not_found(Tag::GeoDoubleParams))?;
                     let value_offset = value_offset as usize;
+                    let values = geo_double_params
+                        .get(value_offset..value_offset + count as usize)
+                        .ok_or(invalid_geo_keys("a double is out of bounds"))?;
                     let value = if count == 1 {
-                        TagValue::Double(geo_double_params[value_offset])
+                        TagValue::Double(values[0])
                     } else {
-                        let x = geo_double_params[value_offset..value_offset + count as usize]
-                            .iter()
-                            .map(|val| TagValue::Double(*val))
-                            .collect();
+                        let x = values.iter().map(|val| TagValue::Double(*val)).collect();
                         TagValue::List(x)
                     };
                     tags.insert(tag_name, value);
-- 
2.43.0


From 9a473c07ba946c871c34d488e119a80013df8e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:38 +0000
Subject: [PATCH 12/15] fix: malformed tag entries are errors instead of panics

Unknown tag types, unterminated inline strings, truncated inline values and
overflowing counts panicked.
---
 src/metadata/reader.rs | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/metadata/reader.rs b/src/metadata/reader.rs
index 34f6a7f..9ae7a22 100644
--- a/src/metadata/reader.rs
+++ b/src/metadata/reader.rs
@@ -3,7 +3,9 @@ use std::io::Read;
 
 use bytes::Bytes;
 
-use crate::error::{AsyncTiffError, AsyncTiffResult, TiffError, TiffFormatError};
+use crate::error::{
+    AsyncTiffError, AsyncTiffResult, TiffError, TiffFormatError, TiffUnsupportedError,
+};
 use crate::metadata::fetch::MetadataCursor;
 use crate::metadata::MetadataFetch;
 use crate::reader::Endianness;
@@ -271,9 +273,10 @@ async fn read_tag<F: MetadataFetch>(
     let tag_name = Tag::from_u16_exhaustive(cursor.read_u16().await?);
 
     let tag_type_code = cursor.read_u16().await?;
-    let tag_type = Type::from_u16(tag_type_code).expect(
-        "Unknown tag type {tag_type_code}. TODO: we should skip entries with unknown tag types.",
-    );
+    // TODO: we should skip entries with unknown tag types.
+    let tag_type = Type::from_u16(tag_type_code).ok_or(TiffError::UnsupportedError(
+        TiffUnsupportedError::UnsupportedDataType,
+    ))?;
     let count = if bigtiff {
         cursor.read_u64().await?
     } else {
@@ -313,7 +316,9 @@ async fn read_tag_value<F: MetadataFetch>(
         | Type::IFD8 => 8,
     };
 
-    let value_byte_length = count.checked_mul(tag_size).unwrap();
+    let value_byte_length = count
+        .checked_mul(tag_size)
+        .ok_or(TiffError::FormatError(TiffFormatError::InvalidTag))?;
 
     // Case 2: there is one value.
     if count == 1 {
@@ -356,11 +361,10 @@ async fn read_tag_value<F: MetadataFetch>(
             Type::SLONG => TagValue::Signed(data.read_i32()?),
             Type::FLOAT => TagValue::Float(data.read_f32()?),
             Type::ASCII => {
-                if data.as_ref()[0] == 0 {
+                if data.read_u8()? == 0 {
                     TagValue::Ascii("".to_string())
                 } else {
-                    panic!("Invalid tag");
-                    // return Err(TiffError::FormatError(TiffFormatError::InvalidTag));
+                    return Err(TiffError::FormatError(TiffFormatError::InvalidTag).into());
                 }
             }
             Type::LONG8 => {
@@ -415,8 +419,8 @@ async fn read_tag_value<F: MetadataFetch>(
                 return {
                     Ok(TagValue::List(
                         (0..count)
-                            .map(|_| TagValue::Byte(data.read_u8().unwrap()))
-                            .collect(),
+                            .map(|_| Ok(TagValue::Byte(data.read_u8()?)))
+                            .collect::<AsyncTiffResult<_>>()?,
                     ))
                 };
             }
@@ -424,8 +428,8 @@ async fn read_tag_value<F: MetadataFetch>(
                 return {
                     Ok(TagValue::List(
                         (0..count)
-                            .map(|_| TagValue::SignedByte(data.read_i8().unwrap()))
-                            .collect(),
+                            .map(|_| Ok(TagValue::SignedByte(data.read_i8()?)))
+                            .collect::<AsyncTiffResult<_>>()?,
                     ))
                 }
             }
@@ -438,8 +442,7 @@ async fn read_tag_value<F: MetadataFetch>(
                     let v = v.trim_matches(char::from(0));
                     return Ok(TagValue::Ascii(v.into()));
                 } else {
-                    panic!("Invalid tag");
-                    // return Err(TiffError::FormatError(TiffFormatError::InvalidTag));
+                    return Err(TiffError::FormatError(TiffFormatError::InvalidTag).into());
                 }
             }
             Type::SHORT => {
-- 
2.43.0


From 5b018d1ea58ee05089dcd3598cd50f5d563d0e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:39 +0000
Subject: [PATCH 13/15] fix: do not allocate for an untrusted number of tags or
 values up front

A count in a corrupt file could request an impossible allocation and panic
or abort the process.
---
 src/metadata/reader.rs | 43 +++++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/src/metadata/reader.rs b/src/metadata/reader.rs
index 9ae7a22..18de94a 100644
--- a/src/metadata/reader.rs
+++ b/src/metadata/reader.rs
@@ -13,6 +13,9 @@ use crate::tag_value::TagValue;
 use crate::tags::{Tag, Type};
 use crate::{ImageFileDirectory, TIFF};
 
+/// The most elements to allocate up front for a number of elements stated in the file.
+const MAX_INITIAL_CAPACITY: u64 = 1024;
+
 /// Entry point to reading TIFF metadata.
 ///
 /// This is a stateful reader because we don't know how many IFDs will be encountered.
@@ -229,7 +232,7 @@ impl ImageFileDirectoryReader {
     /// Keep in mind that you'll still need to call [`finish`][Self::finish] to get the byte offset
     /// of the next IFD.
     pub async fn read<F: MetadataFetch>(&self, fetch: &F) -> AsyncTiffResult<ImageFileDirectory> {
-        let mut tags = HashMap::with_capacity(self.tag_count as usize);
+        let mut tags = HashMap::with_capacity(self.tag_count.min(MAX_INITIAL_CAPACITY) as usize);
         for tag_idx in 0..self.tag_count {
             let (tag, value) = self.read_tag(fetch, tag_idx).await?;
             tags.insert(tag, value);
@@ -506,68 +509,71 @@ async fn read_tag_value<F: MetadataFetch>(
     };
     cursor.seek(offset);
 
+    // The count comes from the file, so don't trust it for more than a bounded allocation.
+    let capacity = count.min(MAX_INITIAL_CAPACITY) as usize;
+
     // Case 4: there is more than one value, and it doesn't fit in the offset field.
     match tag_type {
         // TODO check if this could give wrong results
         // at a different endianess of file/computer.
         Type::BYTE | Type::UNDEFINED => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::with_capacity(capacity);
             for _ in 0..count {
                 v.push(TagValue::Byte(cursor.read_u8().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::SBYTE => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::with_capacity(capacity);
             for _ in 0..count {
                 v.push(TagValue::SignedByte(cursor.read_i8().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::SHORT => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::with_capacity(capacity);
             for _ in 0..count {
                 v.push(TagValue::Short(cursor.read_u16().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::SSHORT => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::with_capacity(capacity);
             for _ in 0..count {
                 v.push(TagValue::SignedShort(cursor.read_i16().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::LONG => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::with_capacity(capacity);
             for _ in 0..count {
                 v.push(TagValue::Unsigned(cursor.read_u32().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::SLONG => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::with_capacity(capacity);
             for _ in 0..count {
                 v.push(TagValue::Signed(cursor.read_i32().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::FLOAT => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::with_capacity(capacity);
             for _ in 0..count {
                 v.push(TagValue::Float(cursor.read_f32().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::DOUBLE => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::with_capacity(capacity);
             for _ in 0..count {
                 v.push(TagValue::Double(cursor.read_f64().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::RATIONAL => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::with_capacity(capacity);
             for _ in 0..count {
                 v.push(TagValue::Rational(
                     cursor.read_u32().await?,
@@ -577,7 +583,7 @@ async fn read_tag_value<F: MetadataFetch>(
             Ok(TagValue::List(v))
         }
         Type::SRATIONAL => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::with_capacity(capacity);
             for _ in 0..count {
                 v.push(TagValue::SRational(
                     cursor.read_i32().await?,
@@ -587,37 +593,40 @@ async fn read_tag_value<F: MetadataFetch>(
             Ok(TagValue::List(v))
         }
         Type::LONG8 => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::with_capacity(capacity);
             for _ in 0..count {
                 v.push(TagValue::UnsignedBig(cursor.read_u64().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::SLONG8 => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::with_capacity(capacity);
             for _ in 0..count {
                 v.push(TagValue::SignedBig(cursor.read_i64().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::IFD => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::with_capacity(capacity);
             for _ in 0..count {
                 v.push(TagValue::Ifd(cursor.read_u32().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::IFD8 => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::with_capacity(capacity);
             for _ in 0..count {
                 v.push(TagValue::IfdBig(cursor.read_u64().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::ASCII => {
-            let mut out = vec![0; count as _];
+            let mut out = Vec::with_capacity(capacity);
             let mut buf = cursor.read(count).await?;
-            buf.read_exact(&mut out)?;
+            let read = buf.read_to_end(&mut out)? as u64;
+            if read != count {
+                return Err(AsyncTiffError::EndOfFile(count, read));
+            }
 
             // Strings may be null-terminated, so we trim anything downstream of the null byte
             if let Some(first) = out.iter().position(|&b| b == 0) {
-- 
2.43.0


From d69978242456d02330e56e95fa0119ef24656383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:53 +0000
Subject: [PATCH 14/15] fix: offsets near the end of the address space do not
 overflow

IFD and value offsets come from the file; adding to them could overflow.
---
 src/metadata/cache.rs  |  2 +-
 src/metadata/fetch.rs  | 12 ++++++++----
 src/metadata/reader.rs | 17 ++++++++++++-----
 3 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/metadata/cache.rs b/src/metadata/cache.rs
index 80f498f..ad7ca11 100644
--- a/src/metadata/cache.rs
+++ b/src/metadata/cache.rs
@@ -158,7 +158,7 @@ impl<F: MetadataFetch + Send + Sync> MetadataFetch for ReadaheadMetadataCache<F>
         let start_len = cache.len;
         let needed = range.end.saturating_sub(start_len);
         let fetch_size = self.next_fetch_size(start_len).max(needed);
-        let fetch_range = start_len..start_len + fetch_size;
+        let fetch_range = start_len..start_len.saturating_add(fetch_size);
 
         // Perform the fetch while holding mutex
         // (this is OK because the mutex is async)
diff --git a/src/metadata/fetch.rs b/src/metadata/fetch.rs
index b18fcb1..a6e5fbe 100644
--- a/src/metadata/fetch.rs
+++ b/src/metadata/fetch.rs
@@ -4,7 +4,7 @@ use std::ops::Range;
 use async_trait::async_trait;
 use bytes::Bytes;
 
-use crate::error::AsyncTiffResult;
+use crate::error::{AsyncTiffResult, TiffError};
 use crate::reader::{AsyncFileReader, EndianAwareReader, Endianness};
 
 /// A data source that can be used with [`TiffMetadataReader`][crate::metadata::TiffMetadataReader]
@@ -64,13 +64,17 @@ impl<'a, F: MetadataFetch> MetadataCursor<'a, F> {
 
     /// Advance cursor position by a set amount
     pub(crate) fn advance(&mut self, amount: u64) {
-        self.offset += amount;
+        self.offset = self.offset.saturating_add(amount);
     }
 
     /// Read the given number of bytes, advancing the internal cursor state by the same amount.
     pub(crate) async fn read(&mut self, length: u64) -> AsyncTiffResult<EndianAwareReader> {
-        let range = self.offset as _..(self.offset + length) as _;
-        self.offset += length;
+        let end = self
+            .offset
+            .checked_add(length)
+            .ok_or(TiffError::IntSizeError)?;
+        let range = self.offset..end;
+        self.offset = end;
         let bytes = self.fetch.fetch(range).await?;
         Ok(EndianAwareReader::new(bytes, self.endianness))
     }
diff --git a/src/metadata/reader.rs b/src/metadata/reader.rs
index 18de94a..65b9067 100644
--- a/src/metadata/reader.rs
+++ b/src/metadata/reader.rs
@@ -208,6 +208,16 @@ impl ImageFileDirectoryReader {
         })
     }
 
+    /// The byte offset of the entry with the specified index; the offset of the next IFD is stored
+    /// after the last entry.
+    fn entry_offset(&self, tag_idx: u64) -> AsyncTiffResult<u64> {
+        self.ifd_entry_byte_size
+            .checked_mul(tag_idx)
+            .and_then(|size| size.checked_add(self.tag_count_byte_size))
+            .and_then(|size| size.checked_add(self.ifd_start_offset))
+            .ok_or(TiffError::IntSizeError.into())
+    }
+
     /// Manually read the tag with the specified index.
     ///
     /// Panics if the tag index is out of range of the tag count.
@@ -220,8 +230,7 @@ impl ImageFileDirectoryReader {
         tag_idx: u64,
     ) -> AsyncTiffResult<(Tag, TagValue)> {
         assert!(tag_idx < self.tag_count);
-        let tag_offset =
-            self.ifd_start_offset + self.tag_count_byte_size + (self.ifd_entry_byte_size * tag_idx);
+        let tag_offset = self.entry_offset(tag_idx)?;
         let (tag_name, tag_value) =
             read_tag(fetch, tag_offset, self.endianness, self.bigtiff).await?;
         Ok((tag_name, tag_value))
@@ -243,9 +252,7 @@ impl ImageFileDirectoryReader {
     /// Finish this reader, reading the byte offset of the next IFD
     pub async fn finish<F: MetadataFetch>(self, fetch: &F) -> AsyncTiffResult<Option<u64>> {
         // The byte offset for reading the next ifd
-        let next_ifd_byte_offset = self.ifd_start_offset
-            + self.tag_count_byte_size
-            + (self.ifd_entry_byte_size * self.tag_count);
+        let next_ifd_byte_offset = self.entry_offset(self.tag_count)?;
         let mut cursor =
             MetadataCursor::new_with_offset(fetch, self.endianness, next_ifd_byte_offset);
 
-- 
2.43.0


From 6064764f092d3c14303ede63669e3acbcfd302db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:06 +0000
Subject: [PATCH 15/15] fix: a cycle in the chain of IFDs is an error

read_all_ifds never returned for such a file.
---
 src/metadata/reader.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/metadata/reader.rs b/src/metadata/reader.rs
index 65b9067..c01bc12 100644
--- a/src/metadata/reader.rs
+++ b/src/metadata/reader.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::io::Read;
 
 use bytes::Bytes;
@@ -135,7 +135,13 @@ impl TiffMetadataReader {
         fetch: &F,
     ) -> AsyncTiffResult<Vec<ImageFileDirectory>> {
         let mut ifds = vec![];
+        let mut visited = HashSet::new();
         while let Some(ifd) = self.read_next_ifd(fetch).await? {
+            if let Some(offset) = self.next_ifd_offset {
+                if !visited.insert(offset) {
+                    return Err(TiffError::FormatError(TiffFormatError::CycleInOffsets).into());
+                }
+            }
             ifds.push(ifd);
         }
         Ok(ifds)
-- 
2.43.0

