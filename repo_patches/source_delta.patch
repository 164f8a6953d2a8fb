From 8261acb8fa5aed506e3d496ab70b499f1fc80c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:56 +0000
Subject: [PATCH 01/29] fix: load DCT coefficients with unaligned loads in the
 AVX2 IDCT

The coefficient slices are plain Vec<i16> memory, aligned to two bytes
only, and the zero test read one element past the sub-slice it took.
---
 src/idct/avx2.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/idct/avx2.rs b/src/idct/avx2.rs
index cf3f671..2ae41be 100644
--- a/src/idct/avx2.rs
+++ b/src/idct/avx2.rs
@@ -104,19 +104,19 @@ unsafe fn dequantize_and_idct_int_avx2(
             // We sign extend i16's to i32's and calculate them with extended precision and
             // later reduce them to i16's when we are done carrying out IDCT
 
-            let rw0 = _mm_load_si128(vector[0..=7].as_ptr().cast());
+            let rw0 = _mm_loadu_si128(vector[0..=7].as_ptr().cast());
 
-            let rw1 = _mm_load_si128(vector[8..=15].as_ptr().cast());
+            let rw1 = _mm_loadu_si128(vector[8..=15].as_ptr().cast());
 
-            let rw2 = _mm_load_si128(vector[16..=23].as_ptr().cast());
+            let rw2 = _mm_loadu_si128(vector[16..=23].as_ptr().cast());
 
-            let rw3 = _mm_load_si128(vector[24..=31].as_ptr().cast());
+            let rw3 = _mm_loadu_si128(vector[24..=31].as_ptr().cast());
 
-            let rw4 = _mm_load_si128(vector[32..=39].as_ptr().cast());
+            let rw4 = _mm_loadu_si128(vector[32..=39].as_ptr().cast());
 
-            let rw5 = _mm_load_si128(vector[40..=47].as_ptr().cast());
+            let rw5 = _mm_loadu_si128(vector[40..=47].as_ptr().cast());
 
-            let rw6 = _mm_load_si128(vector[48..=55].as_ptr().cast());
+            let rw6 = _mm_loadu_si128(vector[48..=55].as_ptr().cast());
 
             let rw7 = _mm_loadu_si128(vector[56..=63].as_ptr().cast());
 
@@ -133,7 +133,7 @@ unsafe fn dequantize_and_idct_int_avx2(
 
                 // Do another load for the first row, we don't want to check DC value, because
                 // we only care about AC terms
-                let mut zero_test = _mm_loadu_si128(vector[1..8].as_ptr().cast());
+                let mut zero_test = _mm_loadu_si128(vector[1..9].as_ptr().cast());
 
                 // To test for zeroes, we use bitwise OR,operations, a| a => 0 if a is zero, so
                 // if all items are zero, the resulting value of X should be zero
-- 
2.43.0


From 6b7448cd37ac4764a727984bc410863fdca88675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:05 +0000
Subject: [PATCH 02/29] fix: use the padded row width when writing grayscale
 rows

The row width was derived from the strip length divided by the image
width, which is wrong for narrow images whose rows carry fill bytes:
wrong pixels, or a panic in a worker thread.
---
 src/color_convert/scalar.rs | 9 ++-------
 src/worker.rs               | 2 +-
 2 files changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/color_convert/scalar.rs b/src/color_convert/scalar.rs
index a5de15e..b3bde1a 100644
--- a/src/color_convert/scalar.rs
+++ b/src/color_convert/scalar.rs
@@ -88,16 +88,11 @@ pub fn ycbcr_to_rgb_16_scalar(
     *pos += 48;
 }
 
-pub fn ycbcr_to_grayscale(y: &[i16], width: usize, output: &mut [u8])
+pub fn ycbcr_to_grayscale(y: &[i16], width: usize, width_chunk: usize, output: &mut [u8])
 {
     // Convert i16's to u8's
     let temp_output = y.iter().map(|x| *x as u8).collect::<Vec<u8>>();
-    // chunk according to width.
-
-    let width_mcu = y.len() / width;
-
-    let width_chunk = y.len() / width_mcu;
-
+    // chunk according to the width of a row including its fill bytes.
     let mut start = 0;
 
     let mut end = width;
diff --git a/src/worker.rs b/src/worker.rs
index 4232a2c..026b8be 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -114,7 +114,7 @@ pub(crate) fn post_process_inner(
     {
         (ColorSpace::YCbCr | ColorSpace::GRAYSCALE, ColorSpace::GRAYSCALE) =>
         {
-            ycbcr_to_grayscale(&unprocessed[0], width, output);
+            ycbcr_to_grayscale(&unprocessed[0], width, component_data[0].width_stride, output);
         }
 
         (ColorSpace::YCbCr, ColorSpace::YCbCr) =>
-- 
2.43.0


From 3af28086182ebb81d4d0150bf74778e820c11a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:05 +0000
Subject: [PATCH 03/29] fix: convert the right edge of a row from its own
 pixels

The last group of a row was always taken from the end of the padded row
and written over the last 64 bytes of the row, so unless the width was a
multiple of the padding (and the output had four channels) the pixels at
the right edge belonged to other columns.
---
 src/color_convert/sse.rs |  2 +-
 src/worker.rs            | 91 +++++++++++-----------------------------
 2 files changed, 25 insertions(+), 68 deletions(-)

diff --git a/src/color_convert/sse.rs b/src/color_convert/sse.rs
index 0c28369..b06c9d4 100644
--- a/src/color_convert/sse.rs
+++ b/src/color_convert/sse.rs
@@ -271,7 +271,7 @@ pub fn ycbcr_to_rgb_sse_16(
 )
 {
     // check if out has enough space
-    out.get_mut(*offset..*offset + 64)
+    out.get_mut(*offset..*offset + 48)
         .expect("Slice to small cannot write");
     unsafe {
         ycbcr_to_rgb_16(y, cb, cr, out, offset);
diff --git a/src/worker.rs b/src/worker.rs
index 026b8be..5f27331 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -152,15 +152,10 @@ fn color_convert_ycbcr(
 
     let mut start = 0;
     let mut end = stride;
-    // over allocate to account for fill bytes
-    let mut temp = vec![];
-
-    if width < 16
-    {
-        // Allocate temporary buffer for small widths less than
-        // 16.
-        temp = vec![0; 16 * output_colorspace.num_components()];
-    }
+    // pixels which do not fill a whole group of 16 are converted into a temporary
+    // buffer first, so that nothing outside of the row is read or written.
+    let remainder = width % 16;
+    let mut temp = vec![0; 16 * output_colorspace.num_components()];
     // We need to chunk per width to ensure we can discard extra values at the end of the width.
     // Since the encoder may pad bits to ensure the width is a multiple of 8.
     for ((y_width, cb_width), cr_width) in mcu_block[0]
@@ -168,41 +163,15 @@ fn color_convert_ycbcr(
         .zip(mcu_block[1].chunks_exact(width_chunk))
         .zip(mcu_block[2].chunks_exact(width_chunk))
     {
-        let elements = (y_width.len() / 16).saturating_sub(1);
-
         let mut position = 0;
         let out = &mut output[start..end];
 
-        if width < 16
-        {
-            // allocate temporary buffers for the values received from idct
-            let mut y_out = [0; 16];
-            let mut cb_out = [0; 16];
-            let mut cr_out = [0; 16];
-            // copy those small widths to that buffer
-            y_out[0..y_width.len()].copy_from_slice(y_width);
-            cb_out[0..cb_width.len()].copy_from_slice(cb_width);
-            cr_out[0..cr_width.len()].copy_from_slice(cr_width);
-            // we handle widths less than 16 a bit differently, allocating a temporary
-            // buffer and writing to that and then flushing to the out buffer
-            // because of the optimizations applied below,
-            (color_convert_16)(&y_out, &cb_out, &cr_out, &mut temp, &mut 0);
-            // copy to stride
-            out[position..position + width * output_colorspace.num_components()]
-                .copy_from_slice(&temp[0..width * output_colorspace.num_components()]);
-            // increment position
-            start += stride;
-            end += stride;
-            // next
-            continue;
-        }
-
         // Chunk in outputs of 16 to pass to color_convert as an array of 16 i16's.
         for ((y, cb), cr) in y_width
             .chunks_exact(16)
             .zip(cb_width.chunks_exact(16))
             .zip(cr_width.chunks_exact(16))
-            .take(elements)
+            .take(width / 16)
         {
             (color_convert_16)(
                 y.try_into().unwrap(),
@@ -213,37 +182,25 @@ fn color_convert_ycbcr(
             );
         }
 
-        // we have more pixels in the end that can't be handled by the main loop.
-        // move pointer back a little bit to get last 16 bytes,
-        // color convert, and overwrite
-        // This means some values will be color converted twice.
-
-        let diff = 64_usize.saturating_sub(stride.saturating_sub(position));
-
-        position = position.saturating_sub(diff);
-
-        (color_convert_16)(
-            y_width
-                .rchunks_exact(16)
-                .next()
-                .unwrap()
-                .try_into()
-                .unwrap(),
-            cb_width
-                .rchunks_exact(16)
-                .next()
-                .unwrap()
-                .try_into()
-                .unwrap(),
-            cr_width
-                .rchunks_exact(16)
-                .next()
-                .unwrap()
-                .try_into()
-                .unwrap(),
-            out,
-            &mut position,
-        );
+        if remainder != 0
+        {
+            let first = width - remainder;
+            let last = min(first + 16, width_chunk);
+
+            let mut y_out = [0; 16];
+            let mut cb_out = [0; 16];
+            let mut cr_out = [0; 16];
+
+            y_out[0..last - first].copy_from_slice(&y_width[first..last]);
+            cb_out[0..last - first].copy_from_slice(&cb_width[first..last]);
+            cr_out[0..last - first].copy_from_slice(&cr_width[first..last]);
+
+            (color_convert_16)(&y_out, &cb_out, &cr_out, &mut temp, &mut 0);
+
+            let length = remainder * output_colorspace.num_components();
+
+            out[position..position + length].copy_from_slice(&temp[0..length]);
+        }
 
         start += stride;
         end += stride;
-- 
2.43.0


From 55ba4bde40918951eb151d8896e9c82d65447653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:05 +0000
Subject: [PATCH 04/29] fix: pick the color conversion routine for the
 requested colorspace

The RGB routine was always used, so RGBA and RGBX output was laid out in
three byte pixels, and CMYK or YCCK output silently was all zeroes.
---
 src/decoder.rs | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/decoder.rs b/src/decoder.rs
index 39b8d85..776f7af 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -422,6 +422,7 @@ impl Decoder
         let mut buf = buf;
 
         self.decode_headers_internal(&mut buf)?;
+        self.set_color_convert()?;
 
         if self.is_progressive
         {
@@ -432,6 +433,34 @@ impl Decoder
             self.decode_mcu_ycbcr_baseline(&mut buf)
         }
     }
+    /// Select the color conversion routine for the configured output colorspace
+    fn set_color_convert(&mut self) -> Result<(), DecodeErrors>
+    {
+        let colorspace = self.options.get_out_colorspace();
+
+        match colorspace
+        {
+            ColorSpace::RGB | ColorSpace::RGBA | ColorSpace::RGBX =>
+            {
+                if let Some(func) =
+                    choose_ycbcr_to_rgb_convert_func(colorspace, self.options.get_use_unsafe())
+                {
+                    self.color_convert_16 = func;
+                }
+            }
+            // no conversion needed
+            ColorSpace::YCbCr | ColorSpace::GRAYSCALE =>
+            {}
+            ColorSpace::CMYK | ColorSpace::YCCK =>
+            {
+                return Err(DecodeErrors::Format(format!(
+                    "Conversion to output colorspace {:?} is not supported",
+                    colorspace
+                )));
+            }
+        }
+        Ok(())
+    }
     /// Read only headers from a jpeg image buffer
     ///
     /// This allows you to extract important information like
-- 
2.43.0


From dfcb13d90441cb78c882d5243409ae6d7343d7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:42 +0000
Subject: [PATCH 05/29] fix: decode the last MCU row of horizontally
 sub-sampled images

Strips of such images hold two MCU rows; with an odd number of MCU rows
the last one was dropped. The output is now allocated as a whole number
of strips, instead of an estimate which also overflowed for dimensions
close to 65535.
---
 src/mcu.rs      | 35 +++++++++++++++++++----------------
 src/mcu_prog.rs | 17 ++++++++---------
 2 files changed, 27 insertions(+), 25 deletions(-)

diff --git a/src/mcu.rs b/src/mcu.rs
index 296ad96..102a4c7 100644
--- a/src/mcu.rs
+++ b/src/mcu.rs
@@ -151,11 +151,11 @@ impl Decoder
                 // Values for horizontal samples end halfway the image and do not complete an MCU width.
                 // To make it complete we multiply width by 2 and divide mcu_height by 2
                 mcu_width = self.mcu_x * 2;
-                mcu_height = self.mcu_y / 2;
+                mcu_height = (self.mcu_y + 1) / 2;
             } else if self.sub_sample_ratio == SubSampRatios::HV
             {
                 mcu_width = self.mcu_x;
-                mcu_height = self.mcu_y / 2;
+                mcu_height = (self.mcu_y + 1) / 2;
                 bias = 2;
             } else {
                 mcu_width = self.mcu_x;
@@ -164,9 +164,12 @@ impl Decoder
         } else {
             // For non-interleaved images( (1*1) subsampling)
             // number of MCU's are the widths (+7 to account for paddings) divided bu 8.
-            mcu_width = ((self.info.width + 7) / 8) as usize;
-            mcu_height = ((self.info.height + 7) / 8) as usize;
+            mcu_width = (usize::from(self.info.width) + 7) / 8;
+            mcu_height = (usize::from(self.info.height) + 7) / 8;
         }
+        // MCUs in the image, with an odd number of MCU rows the last strip of a
+        // horizontally sub-sampled image is only half full.
+        let mut mcus_left = self.mcu_x * self.mcu_y;
 
         if self.input_colorspace == ColorSpace::GRAYSCALE && self.interleaved {
             /*
@@ -183,7 +186,7 @@ impl Decoder
 
             warn!("Grayscale image with down-sampled component, resetting component details");
 
-            mcu_width = ((self.info.width + 7) / 8) as usize;
+            mcu_width = (usize::from(self.info.width) + 7) / 8;
             self.h_max = 1;
             self.options = self.options.set_out_colorspace(ColorSpace::GRAYSCALE);
             self.v_max = 1;
@@ -191,20 +194,14 @@ impl Decoder
             self.components[0].vertical_sample = 1;
             self.components[0].width_stride = mcu_width * 8;
             self.components[0].horizontal_sample = 1;
-            mcu_height = ((self.info.height + 7) / 8) as usize;
+            mcu_height = (usize::from(self.info.height) + 7) / 8;
+            mcus_left = mcu_width * mcu_height;
             bias = 1;
         }
-        // Size of our output image(width*height)
-        let capacity = usize::from(self.info.width + 8) * usize::from(self.info.height + 8);
         let component_capacity = mcu_width * DCT_BLOCK;
         // Create an Arc of components to prevent cloning on every MCU width
         let global_component = Arc::new(self.components.clone());
         let is_hv = self.sub_sample_ratio == SubSampRatios::HV;
-        // There are some images where we need to overallocate  especially for small buffers,
-        // because the chunking calculation will do it wrongly,
-        // this only applies to  small down-sampled images
-        // See https://github.com/etemesi254/zune-jpeg/issues/11
-        let extra_space = usize::from(self.interleaved) * 128 * usize::from(self.height()) * self.options.get_out_colorspace().num_components();
         // things needed for post processing that we can remove out of the loop
         let input = self.input_colorspace;
         let output = self.options.get_out_colorspace();
@@ -218,12 +215,13 @@ impl Decoder
         let hv_width_stride = width_stride >> 1;
 
         let mut stream = BitStream::new();
+        // Each strip of MCUs is written to its own chunk of the output.
+        let chunk_size = width * output.num_components() * 8 * h_max * v_max;
         // Storage for decoded pixels
-        let mut global_channel = vec![0; (capacity * self.options.get_out_colorspace().num_components()) + extra_space];
+        let mut global_channel = vec![0; chunk_size * mcu_height];
 
         // Split output into different blocks each containing enough space for an MCU width
-        let mut chunks =
-            global_channel.chunks_exact_mut(width * output.num_components() * 8 * h_max * v_max);
+        let mut chunks = global_channel.chunks_exact_mut(chunk_size);
         let mut tmp = [0; DCT_BLOCK];
 
         // Argument for scoped threadpools, see file docs.
@@ -254,6 +252,11 @@ impl Decoder
                 {
                     for j in 0..mcu_width
                     {
+                        if mcus_left == 0
+                        {
+                            break;
+                        }
+                        mcus_left -= 1;
                         // iterate over components
 
                         for pos in 0..self.input_colorspace.num_components()
diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index 4467d7d..af09c79 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -70,10 +70,13 @@ impl Decoder
 
         mcu_width *= 64;
 
+        // horizontally sub-sampled images are post processed two MCU rows at a time
+        let padded_height = if self.h_max > 1 { (mcu_height + 1) / 2 * 2 } else { mcu_height };
+
         for i in 0..self.input_colorspace.num_components()
         {
             let comp = &self.components[i];
-            let len = mcu_width * comp.vertical_sample * comp.horizontal_sample * mcu_height;
+            let len = mcu_width * comp.vertical_sample * comp.horizontal_sample * padded_height;
 
             block[i] = vec![0; len];
         }
@@ -170,11 +173,6 @@ impl Decoder
         let y = &block[0];
         let cb = &block[1];
         let cr = &block[2];
-        let extra_space = usize::from(self.interleaved) * 128 * usize::from(self.height()) * self.options.get_out_colorspace().num_components();
-        let capacity = usize::from(self.info.width + 8) * usize::from(self.info.height + 8);
-
-        let mut out_vector = vec![0_u8; capacity * self.options.get_out_colorspace().num_components() + extra_space];
-
         // Things we need for multithreading.
         let h_max = self.h_max;
         let v_max = self.v_max;
@@ -186,10 +184,11 @@ impl Decoder
         let width = usize::from(self.width());
         // Divide the output into small blocks and send to threads/
         let chunks_size = width * self.options.get_out_colorspace().num_components() * 8 * h_max * v_max;
-        let out_chunks = out_vector.chunks_exact_mut(chunks_size);
         // Chunk sizes. Each determine how many pixels go per thread.
         let y_chunk_size =
             mcu_width * self.components[0].vertical_sample * self.components[0].horizontal_sample * bias;
+        let mut out_vector = vec![0_u8; chunks_size * (y.len() / y_chunk_size)];
+        let out_chunks = out_vector.chunks_exact_mut(chunks_size);
         // Divide into chunks
         let y_chunk = y.chunks_exact(y_chunk_size);
 
@@ -280,8 +279,8 @@ impl Decoder
             // by 8
             if self.components[k].component_id == ComponentID::Y || !self.interleaved
             {
-                mcu_width = ((self.info.width + 7) / 8) as usize;
-                mcu_height = ((self.info.height + 7) / 8) as usize;
+                mcu_width = (usize::from(self.info.width) + 7) / 8;
+                mcu_height = (usize::from(self.info.height) + 7) / 8;
             } else {
                 // For other channels, in an interleaved mcu, number of MCU's
                 // are determined by some weird maths done in headers.rs->parse_sos()
-- 
2.43.0


From 5aa71e5a06ad31bfdfc291a6ef7a73b252d29f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:42 +0000
Subject: [PATCH 06/29] fix: post process grayscale progressive images with
 sampling factors

The sampling factors of the single component were replaced by bogus
values, which made the strips larger than the image.
---
 src/mcu_prog.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index af09c79..c7a65fe 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -165,8 +165,9 @@ impl Decoder
             self.v_max = 1;
             self.sub_sample_ratio = SubSampRatios::None;
             self.components[0].vertical_sample = 1;
-            self.components[0].width_stride = mcu_width * 8;
-            self.components[0].horizontal_sample = mcu_width;
+            self.components[0].horizontal_sample = 1;
+            // one row of blocks per strip
+            mcu_width = self.components[0].width_stride * 8;
             bias = 1;
         }
         // remove items from  top block
-- 
2.43.0


From 69b4acdcaefc08d02958114dabc7d03ef05dbdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:03 +0000
Subject: [PATCH 07/29] fix: apply the triangle filter to the last pixels of a
 row

The tail of the horizontal upsamplers paired samples with the wrong
neighbours, and differently so in the SSE and the scalar version.
---
 src/upsampler/scalar.rs | 2 +-
 src/upsampler/sse.rs    | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/upsampler/scalar.rs b/src/upsampler/scalar.rs
index a932b00..3e666fa 100644
--- a/src/upsampler/scalar.rs
+++ b/src/upsampler/scalar.rs
@@ -52,7 +52,7 @@ pub fn upsample_horizontal(input: &[i16], output_len: usize) -> Vec<i16>
     let i_last: &[i16; 2] = input.get(input_len..).unwrap().try_into().unwrap();
 
     // write out manually..
-    f_out[0] = (3 * i_last[0] + i_last[1] + 2) >> 2;
+    f_out[0] = (3 * i_last[1] + i_last[0] + 2) >> 2;
 
     f_out[1] = i_last[1];
 
diff --git a/src/upsampler/sse.rs b/src/upsampler/sse.rs
index fc2feb3..0a420c8 100644
--- a/src/upsampler/sse.rs
+++ b/src/upsampler/sse.rs
@@ -120,13 +120,13 @@ pub unsafe fn upsample_horizontal_sse_u(input: &[i16], output_len: usize) -> Vec
 
     l_out[2] = (input[il + 1] * 3 + input[il] + 2) >> 2;
 
-    l_out[3] = (input[il + 1] * 3 + input[il + 1] + 2) >> 2;
+    l_out[3] = (input[il + 1] * 3 + input[il + 2] + 2) >> 2;
 
-    l_out[4] = (input[il + 2] * 3 + input[il + 2] + 2) >> 2;
+    l_out[4] = (input[il + 2] * 3 + input[il + 1] + 2) >> 2;
 
-    l_out[5] = (input[il + 2] * 3 + input[il + 1] + 2) >> 2;
+    l_out[5] = (input[il + 2] * 3 + input[il + 3] + 2) >> 2;
 
-    l_out[6] = (input[il + 2] * 3 + input[il + 3] + 2) >> 2;
+    l_out[6] = (input[il + 3] * 3 + input[il + 2] + 2) >> 2;
 
     l_out[7] = input[il + 3];
 
-- 
2.43.0


From 4e3cd94fc5534019e8aaadc77152ce0223313ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:03 +0000
Subject: [PATCH 08/29] fix: upsample chroma row by row

The horizontal filter ran across row ends, blending the end of a row
with the start of the next one. The 4:2:0 path treated the sixteen lines
of a strip as eight lines of twice the width, and its AVX2 version
computed the samples at its vector boundaries from the wrong positions.
---
 src/upsampler/avx2.rs   | 347 ++--------------------------------------
 src/upsampler/scalar.rs |   9 +-
 src/worker.rs           |   9 +-
 3 files changed, 26 insertions(+), 339 deletions(-)

diff --git a/src/upsampler/avx2.rs b/src/upsampler/avx2.rs
index fcc2b4e..b8952e5 100644
--- a/src/upsampler/avx2.rs
+++ b/src/upsampler/avx2.rs
@@ -1,348 +1,23 @@
 #![cfg(feature = "x86")]
 #![cfg(any(target_arch = "x86", target_arch = "x86_64"))]
-#[cfg(target_arch = "x86")]
-use std::arch::x86::*;
-#[cfg(target_arch = "x86_64")]
-use std::arch::x86_64::{
-    _mm256_add_epi16, _mm256_alignr_epi8, _mm256_blend_epi16, _mm256_insert_epi16,
-    _mm256_loadu_si256, _mm256_mullo_epi16, _mm256_permute2x128_si256, _mm256_set1_epi16,
-    _mm256_srai_epi16, _mm256_storeu_si256, _mm256_unpackhi_epi16, _mm256_unpacklo_epi16,
-};
 
-use crate::upsampler::scalar::upsample_hv;
+use crate::upsampler::scalar::upsample_vertical;
+use crate::upsampler::sse::upsample_horizontal_sse;
 
+/// Upsample vertically, then upsample every resulting row horizontally.
+///
+/// The vertical pass is auto-vectorized, for the horizontal one we use SSE
+/// (AVX2 implies SSE 4.1).
 pub fn upsample_hv_simd(input: &[i16], output_len: usize) -> Vec<i16>
 {
-    if input.len() < 500
-    {
-        //For small inputs, use scalar.
-        return upsample_hv(input, output_len);
-    }
-    unsafe { upsample_hv_avx(input, output_len) }
-}
-// herein lies 2 days work tread lightly
-
-#[rustfmt::skip]
-#[target_feature(enable = "avx")]
-#[target_feature(enable = "avx2")]
-#[inline]
-pub unsafe fn upsample_hv_avx(input: &[i16], output_len: usize) -> Vec<i16>
-{
-    //to understand how it works, we have to see what vertical upsampling + horizontal upsampling do
-    // Hence the illustration
-    //    | A1 | A2 |
-    //    |====|====|
-    //    | p1 | p2 |
-    //    |----|----|
-    //    | p3 | p4 |
-    //    |====|====|
-    //    | B1 | B2 |
-    //
-    // -> Okay for two squeezed lines, A and B we generate 2 lines.
-    // We do the same for B & C and so on.
-    //
-    // After our vertical pass, we have p2 and p3 stretching halfway the image
-    //
-    // After that vertical pass, we want to do another pass.
-    // | p1 |q1|q2| p2 |
-    // |----|=====|----|
-    // | p3 |q3|q4| p4 |
-    //
-    // now q1 will stretch the whole image, hence it becomes a full upsampling
-
-    // So how do we actually implement.
-
-    let mut output = vec![0;output_len];
-
-    // okay for the next step lets play with AVX
-
-    // Difference in  pixels for a width
-    let mut stride = 0;
-    //
-    let mut modify_stride = true;
-
-    let mut pos = 0;
-    let mut output_position = 0;
-
-    let mut prev = (3 * input[0] + input[stride] + 2) >> 2;
-    let mut pixel_far = (3 * input[pos + 16] + input[pos + stride + 16] + 2) >> 2;
-
-    let three = _mm256_set1_epi16(3);
-    let two = _mm256_set1_epi16(2);
-
-    macro_rules! pack_shuffle {
-        ($x:tt,$y:tt,$value:tt) => {
-            let v = _mm256_permute2x128_si256::<$value>($x, $x);
-
-            let rwn_hi = _mm256_unpackhi_epi16(v, v);
-            let rwn_lo = _mm256_unpacklo_epi16(v, v);
-
-            $y = _mm256_permute2x128_si256::<0b0011_0000>(rwn_lo, rwn_hi);
-        };
-    }
-
-    macro_rules! upsample_horizontal {
-        ($row:tt,$stride:tt) => {
-            // AND THE implementation of srli is 2 128 bit shuffles.
-            // Mahn intel really??
-            // Therefore we need to emulate that instruction
-            // See this stack overflow post: https://stackoverflow.com/questions/25248766/emulating-shifts-on-32-bytes-with-avx
-
-            // shift the whole data in the register left by 16 to remove zero-th element
-            // array looks like B0,[B1,B2,B3,B4,B5,B6,B7,0]
-            // _mm256_srli_si256(A, N) (0<N<16)
-            let mut next_arr = _mm256_alignr_epi8::<2>(
-                _mm256_permute2x128_si256::<{ shuffle(2, 0, 0, 1) }>($row, $row),
-                $row,
-            );
-            // shift the whole data in the array down by(right) by 16, to remove n+1.
-            // Now our register looks like  [0,B1,B2,B3,B4,B5,B6],B7.
-            // _mm256_slli_si256(A, N) ( 0< N < 16).
-            let mut prev_arr = _mm256_alignr_epi8::<{ 16 - 2 }>($row,
-                                                                _mm256_permute2x128_si256::<{ shuffle(0, 0, 2, 0) }>($row, $row),
-            );
-
-
-            // insert values
-
-            // prev_array => [X0,B1,B2,B3,B4,B5,B6,B7]
-            prev_arr = _mm256_insert_epi16::<0>(prev_arr, prev);
-            // NEXT_ARR => [B0,B1,B2,B3,B4,B5,B6,X1]
-            next_arr = _mm256_insert_epi16::<15>(next_arr, pixel_far);
-
-            // Okay at this point we have: (the arrows just show how prev_arr & next_arr differ from row_near)
-            //              |                                                  |
-            //             \/                                                 \/
-            //-> prev_arr [B0,B1,B2,B3,B4,B5,B6,B7,B8,B9,B10,B11,B12,B13,B14,B15]
-            //
-            //
-            //-> row_near [B1,B2,B3,B4,B5,B6,B7,B8,B9,B10,B11,B2,B13,B14,B15,B16]
-            //
-            //              |                                                   |
-            //             \/                                                  \/
-            //-> next_row [B2,B3,B4,B5,B6,B7,B8,B9,B10,B11,B12,B13,B14,B15,B16,B17]
-
-
-            // Next we need to get values in Avx register and stretch them.
-            // The reason for this is simple, currently our avx register contain vertical upsampling values.
-            // packed together, for a packing B0,B1 , we need to generate two values
-            //illustrated by
-            // |  |           |  |
-            // |B0| |p1| |p2| |B1|
-            // |  |           |  |
-            // Now a cool way to stretch them is to half our three avx registers,  into 6 upper or lower registers
-            // and duplicate elements of either the half register to the other half
-
-            // Eg for near:
-            // near->|B0,B1,B2,B3]
-            // near_hi ->[B0,B0,B1,B1]
-            // near_lo ->[B2,B2,B3,B3]
-
-            // Duplicate top elements to low elements
-            let (near_lo, near_hi, prev_lo, prev_hi, next_lo, next_hi);
-
-            pack_shuffle!($row,near_lo,0);
-            pack_shuffle!($row,near_hi,0b011_0011);
-
-            pack_shuffle!(prev_arr,prev_lo,0);
-            pack_shuffle!(prev_arr,prev_hi,0b011_0011);
-
-            pack_shuffle!(next_arr,next_lo,0);
-            pack_shuffle!(next_arr,next_hi,0b011_0011);
-
-            // FINALLY START CARRYING OUT THE CALCULATIONS.
-
-            // everything above was set up for this
-
-
-            // prev-lo->[BO,B0,B1,B1,B2,B2,B3,B3]
-            // next-lo->[B2,B2,B3,B3,B4,B4,B5,B5]
-            // NN    -> [B0,B2,B1,B3,B2,B4,B3,B5]
-
-            // notice how prettily NN contains  a weird shift of elements.
-
-            // for i in 1..input.len() - 1{
-            //         let sample = 3 * input[i] + 2;
-            //
-            //         out[i * 2] = (sample + input[i - 1]) >> 2;
-            //         out[i * 2 + 1] = (sample + input[i + 1]) >> 2;
-            // }
-
-            // Look at the ABOVE loop, notice how even numbers get i-1, look at the even indices
-            // in nn.
-            // Look at the ODD INDICES while at it.
-
-            // And that's the miracle.
-            // I rest my case, may you understand the rest of the code.
-
-            let nn = _mm256_blend_epi16::<0b1010_1010>(prev_lo, next_lo);
-            // input[x]*3
-            let an = _mm256_mullo_epi16(near_lo, three);
-
-            let bn = _mm256_add_epi16(nn, two);
+    let first_pass = upsample_vertical(input, input.len() * 2);
 
-            let cn = _mm256_srai_epi16::<2>(_mm256_add_epi16(an, bn));
+    let mut second_pass = Vec::with_capacity(output_len);
 
-            _mm256_storeu_si256(output.get_mut(output_position+$stride..output_position+$stride+16).unwrap().as_mut_ptr().cast(), cn);
-
-
-            let nn = _mm256_blend_epi16::<0b1010_1010>(prev_hi, next_hi);
-
-            let an = _mm256_mullo_epi16(near_hi, three);
-
-            let bn = _mm256_add_epi16(nn, two);
-
-            let cn = _mm256_srai_epi16::<2>(_mm256_add_epi16(an, bn));
-            // hi is stored one output width lower.
-            _mm256_storeu_si256(output.get_mut(output_position+$stride+16..output_position+$stride+32).unwrap().as_mut_ptr().cast(), cn);
-
-
-        };
-    }
-
-    macro_rules! upsample_vertical {
-        ($load_near:tt,$load_far:tt,$row_near:tt,$row_far:tt) => {
-            let t2 = _mm256_add_epi16($load_far, two);
-            let t1 = _mm256_mullo_epi16($load_near, three);
-
-            // (near * 3 + far + 2 ) >> 2
-            $row_near = _mm256_srai_epi16::<2>(_mm256_add_epi16(t1, t2));
-
-            let t3 = _mm256_add_epi16($load_near, two);
-            let t4 = _mm256_mullo_epi16($load_far, three);
-
-            // (far * 3 + near + 2 ) >> 2
-            $row_far = _mm256_srai_epi16::<2>(_mm256_add_epi16(t3, t4));
-        };
-    }
-
-    let (mut row_near, mut row_far);
-
-    let len = output_len / 16;
-    let end = (input.len() >> 7).saturating_sub( 1);
-    // some calculations to determine how much will not be written per MCU.
-    let v = (output.len() / 16).saturating_sub (end * 32);
-
-
-    // we need to iterate row wise
-    // we initially have 8 rows we want to make 32, new rows,
-    for j in 0..8
+    for row in first_pass.chunks_exact(input.len() >> 3)
     {
-
-        // loop row wise
-        // we are feed it our stuff with 16 values, therefore we can loop the number of times we can
-        // chunk data. into 16
-        for _ in 0..end
-        {
-            let load_near = _mm256_loadu_si256(input[pos..].as_ptr().cast());
-            let load_far = _mm256_loadu_si256(input[pos + stride..].as_ptr().cast());
-            // ==========================================================================
-            // -> Pass 1:Vertical calculation.
-            // --------------------------------------------------------------------------
-            upsample_vertical!(load_near, load_far, row_near, row_far);
-
-            // --------------------------------------------------------------------------
-            // Pass 1 : Complete
-            // ==========================================================================
-
-            // ==========================================================================
-            // Pass 2: Horizontal upsampling
-            //---------------------------------------------------------------------------
-
-            upsample_horizontal!(row_near, 0);
-
-            upsample_horizontal!(row_far, (len));
-
-            output_position += 32;
-            // ---------------------------------------------------------------------------
-            // pass 2 complete
-            // ===========================================================================
-            pos += 16;
-            // update previous and next values
-            assert!(input.len() >= pos + stride + 16);
-            // Safety , the assert statement above ensures none of these goes out of bounds.
-            prev = (3 * (*input.get(pos).unwrap_or(&0))
-                .wrapping_add (*input.get(pos + stride).unwrap_or(&0))
-                .wrapping_add(2)) >> 2;
-
-            pixel_far = (3 * (*input.get(pos + 16).unwrap_or(&0))
-                .wrapping_add (*input.get(pos + stride + 16).unwrap_or(&0))
-                .wrapping_add( 2)) >> 2;
-        }
-        // now there are some more data left, since we actually don't write
-        // to the end of the array.
-
-        // those whe handle using scalar code
-       
-        let (a,b )=  output.split_at_mut(output_position+v);
-        
-        let c = a.len()-v;
-    
-        // areas the vector code didn't touch
-        let unwritten = &mut a[c..];
-        let unwritten_stride = &mut b[len-v..len];
-     
-        
-        for (input_window,output_window) in input[pos-v/2-2..pos].windows(3).zip(unwritten.chunks_exact_mut(2)){
-            let input_window: &[i16; 3] = input_window.try_into().unwrap();
-
-            let sample = 3 * input_window[1] + 2;
-    
-            output_window[0] = (sample + input_window[0]) >> 2;
-    
-            output_window[1] = (sample + input_window[2]) >> 2;
-        }
-        *unwritten.last_mut().unwrap() = input[pos];
-        
-        for (input_window,output_window) in input[pos-v/2+stride-2..pos+stride].windows(3).zip(unwritten_stride.chunks_exact_mut(2)){
-            let input_window: &[i16; 3] = input_window.try_into().unwrap();
-
-            let sample = 3 * input_window[1] + 2;
-    
-            output_window[0] = (sample + input_window[0]) >> 2;
-    
-            output_window[1] = (sample + input_window[2]) >> 2;
-        }
-        
-        *unwritten_stride.last_mut().unwrap() = input[pos+stride];
-        
-    
-
-        output_position += len+v;
-        pos+=v/2;
-        
-        if modify_stride
-        {
-            stride = input.len() / 8;
-            modify_stride = false;
-
-        }
-        if j == 6
-        {
-            // when j is 6 it means we are at position 14, and 15, here we
-            // need to revert stride to be zero to get a nearest neighbour
-
-            // since there is no more row to look ahead using stride.
-            stride = 0;
-
-        }
-        // set some manually
-        output[output_position - len] = output[output_position - len + 1];
-
-        output[output_position - len - 2] = output[output_position - len - 4];
-
-        output[output_position - len - 1] = output[output_position - len - 3];
-
-        output[output_position - 2] = output[output_position - 4];
-
-        output[output_position - 1] = output[output_position - 3];
+        second_pass.extend(upsample_horizontal_sse(row, row.len() * 2));
     }
 
-    return output;
-}
-
-#[inline]
-const fn shuffle(z: i32, y: i32, x: i32, w: i32) -> i32
-{
-    ((z << 6) | (y << 4) | (x << 2) | w) as i32
+    return second_pass;
 }
diff --git a/src/upsampler/scalar.rs b/src/upsampler/scalar.rs
index 3e666fa..a464065 100644
--- a/src/upsampler/scalar.rs
+++ b/src/upsampler/scalar.rs
@@ -159,8 +159,13 @@ pub fn upsample_hv(input: &[i16], output_len: usize) -> Vec<i16>
 
     // first pass, do vertical sampling
     let first_pass = upsample_vertical(input, input.len() * 2);
-    //second pass, do horizontal sampling
-    let second_pass = upsample_horizontal(&first_pass, output_len);
+    //second pass, do horizontal sampling, row by row
+    let mut second_pass = Vec::with_capacity(output_len);
+
+    for row in first_pass.chunks_exact(input.len() >> 3)
+    {
+        second_pass.extend(upsample_horizontal(row, row.len() * 2));
+    }
 
     return second_pass;
 }
diff --git a/src/worker.rs b/src/worker.rs
index 5f27331..fc96a40 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -105,7 +105,14 @@ pub(crate) fn post_process_inner(
         // carry out upsampling , the return vector overwrites the original vector
         for i in 1..x
         {
-            unprocessed[i] = (component_data[i].up_sampler)(&unprocessed[i], unprocessed[0].len());
+            // horizontal filters work on a single row, vertical ones on a row of MCUs,
+            // neither may mix samples of rows which aren't adjacent.
+            let rows = if v_samp == 1 { 1 } else { 8 };
+
+            unprocessed[i] = unprocessed[i]
+                .chunks_exact(component_data[i].width_stride * rows)
+                .flat_map(|c| (component_data[i].up_sampler)(c, c.len() * h_samp * v_samp))
+                .collect();
         }
     }
 
-- 
2.43.0


From 4fcd67c9f5ee238698f4a2433e17f65548ea4d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:37 +0000
Subject: [PATCH 09/29] fix: clamp blocks with only a DC coefficient

The scalar IDCT did not clamp the shortcut for blocks without AC coefficients and
both routines computed it with 16 bit wrapping arithmetic.
---
 src/idct/avx2.rs   | 4 ++--
 src/idct/scalar.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/idct/avx2.rs b/src/idct/avx2.rs
index 2ae41be..0e2922a 100644
--- a/src/idct/avx2.rs
+++ b/src/idct/avx2.rs
@@ -161,9 +161,9 @@ unsafe fn dequantize_and_idct_int_avx2(
                     // AC terms all zero, idct of the block is  is (coeff[0] *qt[0])/8 + bias(128)
                     // (and clamped to 255)
                     let idct_value = _mm_set1_epi16(
-                        ((vector[0].wrapping_mul(qt_table.0[0] as i16) >> 3) + 128)
+                        (((i32::from(vector[0]) * qt_table.0[0]) >> 3) + 128)
                             .max(0)
-                            .min(255),
+                            .min(255) as i16,
                     );
                     macro_rules! store {
                         ($pos:tt,$value:tt) => {
diff --git a/src/idct/scalar.rs b/src/idct/scalar.rs
index e58abe1..7741b10 100644
--- a/src/idct/scalar.rs
+++ b/src/idct/scalar.rs
@@ -45,7 +45,7 @@ pub fn dequantize_and_idct_int(
             if &vector[1..] == &[0_i16; 63]
             {
                 // okay then if you work, yaay, let's write you really quick
-                let coeff = [((vector[0].wrapping_mul(qt_table.0[0] as i16)) >> 3) + 128; 8];
+                let coeff = [clamp((dequantize(vector[0], qt_table.0[0]) >> 3) + 128); 8];
 
                 macro_rules! store {
                     ($index:tt) => {
-- 
2.43.0


From e6b6e094bb1d8c00afc08e321a170ed299c93223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:37 +0000
Subject: [PATCH 10/29] fix: have enough bits for a DC code and its extra bits

decode_dc() refilled only with less than 16 bits left, but a code and the bits
following it may take 31 bits.
---
 src/bitstream.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bitstream.rs b/src/bitstream.rs
index f6a76df..1e0308a 100644
--- a/src/bitstream.rs
+++ b/src/bitstream.rs
@@ -275,7 +275,8 @@ impl BitStream
     {
         let (mut symbol, r);
 
-        if self.bits_left < 16
+        // a code(16 bits) and its extra bits(max 15 bits)
+        if self.bits_left < 32
         {
             self.refill(reader)?;
         };
-- 
2.43.0


From f251fd2fa0425fe7250e26ce9b303f483d29815a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:37 +0000
Subject: [PATCH 11/29] fix: keep AC values of more than 6 bits out of the fast
 AC table

An entry has only 6 bits for the value, larger ones were cut off.
---
 src/huffman.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/huffman.rs b/src/huffman.rs
index 39c2116..d7fd0eb 100644
--- a/src/huffman.rs
+++ b/src/huffman.rs
@@ -246,7 +246,8 @@ impl HuffmanTable
                         };
 
                         // if result is small enough fit into fast ac table
-                        if (-128..=127).contains(&k)
+                        // (the top 6 bits of an entry)
+                        if (-32..=31).contains(&k)
                         {
                             fast_ac[i] = (k << 10) + (run << 4) + (len + mag_bits);
                         }
-- 
2.43.0


From 84671f10dc5dc6ba9d6c7b7acfba8b785ca4bfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:37 +0000
Subject: [PATCH 12/29] fix: rebuild AC tables defined before a progressive
 frame header

The fast AC table depends on the coding process, which isn't known yet when the
Huffman tables come first.
---
 src/decoder.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/decoder.rs b/src/decoder.rs
index 776f7af..d32009e 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -318,6 +318,11 @@ impl Decoder
                     else
                     {
                         self.is_progressive = true;
+                        // tables defined before the frame header were built for baseline
+                        for table in self.ac_huffman_tables.iter_mut().flatten()
+                        {
+                            *table = HuffmanTable::new(&table.bits, table.values, false, true)?;
+                        }
 
                         SOFMarkers::ProgressiveDctHuffman
                     }
-- 
2.43.0


From beea4b70f523e90a49756fdd7e29fdcc0bcf0abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:20 +0000
Subject: [PATCH 13/29] fix: handle markers found within a baseline scan

The end of image marker is seen before the last bits are decoded, stopping there
lost the last chroma blocks. Other markers were parsed again for every component
that followed and a frame or scan header replaced the components in use.
---
 src/mcu.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/mcu.rs b/src/mcu.rs
index 102a4c7..126715a 100644
--- a/src/mcu.rs
+++ b/src/mcu.rs
@@ -339,15 +339,21 @@ impl Decoder
                             // allow it because of some weird reason.
                             if let Some(m) = stream.marker
                             {
-                                if m == Marker::EOI
-                                {
-                                    break;
-                                }
-
-                                if let Marker::RST(_) = m { continue }
+                                // a marker is found while there still are bits left to decode
+                                if let Marker::RST(_) | Marker::EOI = m { continue }
 
                                 error!("Marker `{:?}` Found within Huffman Stream, possibly corrupt jpeg",m);
+
+                                if let Marker::SOF(_) | Marker::SOS = m
+                                {
+                                    // these would change what we are decoding
+                                    return Err(DecodeErrors::MCUError(format!(
+                                        "Marker {:?} found in bitstream, possibly corrupt jpeg",
+                                        m
+                                    )));
+                                }
                                 self.parse_marker_inner(m, reader)?;
+                                stream.marker = None;
                             }
                         }
                     }
-- 
2.43.0


From 7f5db5dabf7072bfa679753ad2fae72d5fac3dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:55 +0000
Subject: [PATCH 14/29] fix: count restart intervals in MCUs

The interval was counted per component, blocks skipped with an EOB run were not
counted at all, the counter was carried over to the next scan, and a restart
marker not yet seen by the bit reader was missed.
---
 src/decoder.rs  |  2 +-
 src/mcu.rs      | 34 ++++++++++++++++++++++++----------
 src/mcu_prog.rs | 33 ++++++++++++---------------------
 3 files changed, 37 insertions(+), 32 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index d32009e..6bdb876 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -390,7 +390,7 @@ impl Decoder
                 }
 
                 self.restart_interval = usize::from(read_u16_be(buf)?);
-                self.todo = self.restart_interval;
+                self.reset_todo();
             }
             _ =>
             {
diff --git a/src/mcu.rs b/src/mcu.rs
index 126715a..ba372e3 100644
--- a/src/mcu.rs
+++ b/src/mcu.rs
@@ -61,6 +61,7 @@ use crate::bitstream::BitStream;
 use crate::components::{ComponentID, SubSampRatios};
 use crate::errors::DecodeErrors;
 use crate::marker::Marker;
+use crate::mcu_prog::get_marker;
 use crate::worker::post_process;
 use crate::{ColorSpace, Decoder};
 
@@ -215,6 +216,7 @@ impl Decoder
         let hv_width_stride = width_stride >> 1;
 
         let mut stream = BitStream::new();
+        self.reset_todo();
         // Each strip of MCUs is written to its own chunk of the output.
         let chunk_size = width * output.num_components() * 8 * h_max * v_max;
         // Storage for decoded pixels
@@ -323,13 +325,6 @@ impl Decoder
                                     }
                                 }
                             }
-                            self.todo = self.todo.wrapping_sub(1);
-                            // after every interleaved MCU that's a mcu, count down restart markers.
-                            if self.todo == 0
-                            {
-                                self.handle_rst(&mut stream)?;
-                            }
-
                             // In some corrupt images, it may occur that header markers occur in the stream.
                             // The spec EXPLICITLY FORBIDS this, specifically, in
                             // routine F.2.2.5  it says
@@ -356,6 +351,12 @@ impl Decoder
                                 stream.marker = None;
                             }
                         }
+                        self.todo -= 1;
+                        // after every MCU count down restart markers, there is none after the last one.
+                        if self.todo == 0 && mcus_left > 0
+                        {
+                            self.handle_rst(reader, &mut stream)?;
+                        }
                     }
                 }
                 // Clone things, to make multithreading safe
@@ -388,15 +389,27 @@ impl Decoder
         );
         return Ok(global_channel);
     }
+    /// Start counting MCUs up to the next restart marker
+    pub(crate) fn reset_todo(&mut self)
+    {
+        self.todo = match self.restart_interval
+        {
+            0 => usize::MAX,
+            n => n,
+        };
+    }
     // handle RST markers.
     // No-op if not using restarts
     // this routine is shared with mcu_prog
     #[cold]
-    pub(crate) fn handle_rst(&mut self, stream: &mut BitStream) -> Result<(), DecodeErrors>
+    pub(crate) fn handle_rst(
+        &mut self, reader: &mut Cursor<Vec<u8>>, stream: &mut BitStream,
+    ) -> Result<(), DecodeErrors>
     {
-        self.todo = self.restart_interval;
+        self.reset_todo();
 
-        if let Some(marker) = stream.marker
+        // the marker may not be in the bits we have looked at
+        if let Some(marker) = get_marker(reader, stream)
         {
             // Found a marker
             // Read stream and see what marker is stored there
@@ -413,6 +426,7 @@ impl Decoder
                 Marker::EOI =>
                 {
                     // silent pass
+                    stream.marker = Some(marker);
                 }
                 _ =>
                 {
diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index c7a65fe..38d0435 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -253,6 +253,7 @@ impl Decoder
         self.check_component_dimensions()?;
         stream.reset();
         self.components.iter_mut().for_each(|x| x.dc_pred = 0);
+        self.reset_todo();
 
         if usize::from(self.num_scans) > self.input_colorspace.num_components() {
             return Err(Format(format!("Number of scans {} cannot be greater than number of components, {}", self.num_scans, self.input_colorspace.num_components())));
@@ -337,17 +338,7 @@ impl Decoder
                             {
                                 // EOB runs indicate the whole block is empty, but unlike for baseline
                                 // EOB in progressive tell us the number of proceeding blocks currently zero.
-
-                                // other decoders use a check in decode_mcu_first decrement and return if it's an
-                                // eob run(since the array is expected to contain zeroes). but that's a function call overhead(if not inlined) and a branch check
-                                // we do it a bit differently
-                                // we can use divisors to determine how many MCU's to skip
-                                // which is more faster than a decrement and return since EOB runs can be
-                                // as big as 10,000
-
-                                i += (j + stream.eob_run as usize - 1) / mcu_width;
-                                j = (j + stream.eob_run as usize - 1) % mcu_width;
-                                stream.eob_run = 0;
+                                stream.eob_run -= 1;
                             } else {
                                 stream.decode_mcu_ac_first(reader, ac_table, data)?;
                             }
@@ -359,9 +350,10 @@ impl Decoder
                     j += 1;
                     self.todo -= 1;
 
-                    if self.todo == 0
+                    // there is no restart marker after the last MCU
+                    if self.todo == 0 && !(j == mcu_width && i + 1 == mcu_height)
                     {
-                        self.handle_rst(stream)?;
+                        self.handle_rst(reader, stream)?;
                     }
                 }
                 j = 0;
@@ -415,13 +407,12 @@ impl Decoder
                                 }
                             }
                         }
-                        // We want wrapping subtraction here because it means
-                        // we get a higher number in the case this underflows
-                        self.todo = self.todo.wrapping_sub(1);
-                        // after every scan that's a mcu, count down restart markers.
-                        if self.todo == 0 {
-                            self.handle_rst(stream)?;
-                        }
+                    }
+                    self.todo -= 1;
+                    // after every MCU count down restart markers, there is none after the last one.
+                    if self.todo == 0 && !(j + 1 == self.mcu_x && i + 1 == self.mcu_y)
+                    {
+                        self.handle_rst(reader, stream)?;
                     }
                 }
             }
@@ -433,7 +424,7 @@ impl Decoder
 ///Get a marker from the bit-stream.
 ///
 /// This reads until it gets a marker or end of file is encountered
-fn get_marker(reader: &mut Cursor<Vec<u8>>, stream: &mut BitStream) -> Option<Marker>
+pub(crate) fn get_marker(reader: &mut Cursor<Vec<u8>>, stream: &mut BitStream) -> Option<Marker>
 {
     if let Some(marker) = stream.marker
     {
-- 
2.43.0


From 5d9e35881d9b92c71c1a06a1a1c0bda7a785a59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:56 +0000
Subject: [PATCH 15/29] fix: go on after miscellaneous segments between
 progressive scans

The image ended at a restart interval, comment or application segment between two
scans, and at the first scan when its end wasn't in the bit reader yet.
---
 src/marker.rs   | 4 +---
 src/mcu_prog.rs | 6 +++++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/marker.rs b/src/marker.rs
index 6e44034..0e604f8 100644
--- a/src/marker.rs
+++ b/src/marker.rs
@@ -70,9 +70,7 @@ impl Marker
             0xDB => Some(DQT),
             0xDC => Some(DNL),
             0xDD => Some(DRI),
-            0xE0 => Some(APP(0)),
-            0xE1 => Some(APP(1)),
-            0xEE => Some(APP(14)),
+            0xE0..=0xEF => Some(APP(n - 0xE0)),
             _ => None,
         }
     }
diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index 38d0435..65f592f 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -88,7 +88,7 @@ impl Decoder
         self.parse_entropy_coded_data(reader, &mut stream, &mut block)?;
 
         // extract marker
-        let mut marker = stream.marker.take().ok_or(DecodeErrors::FormatStatic("Marker missing where expected"))?;
+        let mut marker = get_marker(reader, &mut stream).ok_or(DecodeErrors::FormatStatic("Marker missing where expected"))?;
         // if marker is EOI, we are done, otherwise continue scanning.
         'eoi: while marker != Marker::EOI
         {
@@ -119,6 +119,10 @@ impl Decoder
                         stream.reset();
                         continue 'eoi;
                     }
+                // these may come before any scan
+                Marker::DQT | Marker::DRI | Marker::APP(_) | Marker::COM => {
+                    self.parse_marker_inner(marker, reader)?;
+                }
                 _ =>
                     {
                         break 'eoi;
-- 
2.43.0


From 8ec5e25a3dc6da4ad5370bad39b4dd8105e945fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:56 +0000
Subject: [PATCH 16/29] fix: skip fill bytes before a marker

---
 src/decoder.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/decoder.rs b/src/decoder.rs
index 6bdb876..f265ce5 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -258,6 +258,11 @@ impl Decoder
             // like OxFF(some marker data)
             if last_byte == 0xFF
             {
+                // markers may be preceded by any number of 0xFF fill bytes
+                if m == 0xFF
+                {
+                    continue;
+                }
                 let marker = Marker::from_u8(m);
 
                 bytes_before_marker = 0;
-- 
2.43.0


From bd31a88e0397ea7dbf2207b5414fc52c3250f1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:33 +0000
Subject: [PATCH 17/29] fix: start every decode from a clean state

A decoder kept the sampling factors, tables, coding process, restart interval and
colorspace of the image it decoded before.
---
 src/decoder.rs | 17 +++++++++++++++++
 src/headers.rs |  1 +
 2 files changed, 18 insertions(+)

diff --git a/src/decoder.rs b/src/decoder.rs
index f265ce5..273eb45 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -118,6 +118,8 @@ pub struct Decoder
     pub(crate) todo:             usize,
     // decoder options
     pub(crate) options:          ZuneJpegOptions,
+    /// Colorspace the user asked for, if the image could only be decoded to another one
+    pub(crate) user_colorspace:  Option<ColorSpace>,
 }
 
 impl Decoder
@@ -166,8 +168,20 @@ impl Decoder
             todo: 0x7fff_ffff,
             // options
             options,
+            user_colorspace: None,
         }
     }
+    /// Drop everything that belongs to the previously decoded image
+    fn reset(&mut self)
+    {
+        let mut options = self.options;
+
+        if let Some(colorspace) = self.user_colorspace
+        {
+            options = options.set_out_colorspace(colorspace);
+        }
+        *self = Decoder::default(options);
+    }
     /// Decode a buffer already in memory
     ///
     /// The buffer should be a valid jpeg file, perhaps created by the command
@@ -240,6 +254,7 @@ impl Decoder
     where
         R: Read + BufRead,
     {
+        self.reset();
         // First two bytes should be jpeg soi marker
         let magic_bytes = read_u16_be(buf)?;
 
@@ -574,6 +589,7 @@ impl Decoder
     pub fn rgba(&mut self)
     {
         // told you so
+        self.user_colorspace = None;
         self.options = self.options.set_out_colorspace(ColorSpace::RGBA);
     }
 
@@ -591,6 +607,7 @@ impl Decoder
     )]
     pub fn set_output_colorspace(&mut self, colorspace: ColorSpace)
     {
+        self.user_colorspace = None;
         self.options = self.options.set_out_colorspace(colorspace);
     }
     #[must_use]
diff --git a/src/headers.rs b/src/headers.rs
index 03ab65e..8872610 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -281,6 +281,7 @@ where
         // and that to us translates to setting input and output
         // colorspaces to zero
         img.input_colorspace = ColorSpace::GRAYSCALE;
+        img.user_colorspace = Some(img.options.get_out_colorspace());
         img.options = img.options.set_out_colorspace(ColorSpace::GRAYSCALE);
     }
 
-- 
2.43.0


From e0b4e763b79159d33ad13d4890586070a93e3021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:33 +0000
Subject: [PATCH 18/29] fix: reject frame and scan headers which can not be
 decoded

Images with 2 or 4 components, duplicate or reordered component ids, a second
frame header or a baseline image in several scans lead to a panic or to garbage.
---
 src/headers.rs | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/headers.rs b/src/headers.rs
index 8872610..a1fc873 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -203,6 +203,12 @@ pub(crate) fn parse_start_of_frame<R>(
 where
     R: Read,
 {
+    if img.info.components != 0
+    {
+        return Err(DecodeErrors::SofError(
+            "More than one start of frame marker".to_string(),
+        ));
+    }
     // Get length of the frame header
     let length = read_u16_be(buf)
         .map_err(|_| DecodeErrors::Format("Cannot read SOF length, exhausted data".to_string()))?;
@@ -275,6 +281,14 @@ where
 
     info!("Image components : {}", num_components);
 
+    if num_components != 1 && num_components != 3
+    {
+        return Err(DecodeErrors::SofError(format!(
+            "Images with {} components are not supported, expected 1 or 3",
+            num_components
+        )));
+    }
+
     if num_components == 1
     {
         // SOF sets the number of image components
@@ -291,7 +305,7 @@ where
     let mut components = Vec::with_capacity(num_components as usize);
     let mut temp = [0; 3];
 
-    for _ in 0..num_components
+    for i in 0..num_components
     {
         // read 3 bytes for each component
         buf.read_exact(&mut temp)
@@ -299,6 +313,16 @@ where
         // create a component.
         let component = Components::from(temp)?;
 
+        // the rest of the decoder expects Y,Cb and Cr in this order.
+        if component.id != i + 1
+        {
+            return Err(DecodeErrors::SofError(format!(
+                "Unexpected component id {}, expected {}",
+                component.id,
+                i + 1
+            )));
+        }
+
         components.push(component);
     }
 
@@ -438,6 +462,15 @@ where
         image.z_order[i as usize] = j as usize;
     }
 
+    // Baseline images are decoded from a single scan, with components in frame order
+    if !image.is_progressive
+        && (0..image.components.len()).any(|i| i >= usize::from(ns) || image.z_order[i] != i)
+    {
+        return Err(DecodeErrors::SosError(
+            "Non-interleaved baseline images are not supported".to_string(),
+        ));
+    }
+
     // Collect the component spec parameters
     // This is only needed for progressive images but I'll read
     // them in order to ensure they are correct according to the spec
-- 
2.43.0


From 6943987053a841c1c45c659c35d52954aa71c396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:34 +0000
Subject: [PATCH 19/29] fix: don't truncate the number of threads

---
 src/decoder.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 273eb45..3b2d1ab 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -643,18 +643,12 @@ impl Decoder
     /// img.set_num_threads(3).unwrap(); // spawn only three threads
     /// ```
     #[deprecated(since = "0.2.0", note = "Use new_with_options to set options")]
-    #[allow(clippy::cast_possible_truncation)]
     pub fn set_num_threads(&mut self, threads: usize) -> Result<(), DecodeErrors>
     {
-        if threads == 0
-        {
-            return Err(DecodeErrors::FormatStatic(
-                "Cannot set zero threads to decode image",
-            ));
-        }
-        self.options = self
-            .options
-            .set_num_threads(NonZeroU32::new(threads as u32).unwrap());
+        let threads = u32::try_from(threads).ok().and_then(NonZeroU32::new).ok_or(
+            DecodeErrors::FormatStatic("Cannot set zero or more than 2^32-1 threads to decode image"),
+        )?;
+        self.options = self.options.set_num_threads(threads);
         Ok(())
     }
     /// Check that all components have the correct width and height
-- 
2.43.0


From c9853cf8fd87bbe64afeca21945e28765b61f5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:54 +0000
Subject: [PATCH 20/29] fix: don't ask for a Huffman table in a DC refinement
 scan

---
 src/mcu_prog.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index 65f592f..53c2ca4 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -312,19 +312,19 @@ impl Decoder
 
                     if self.spec_start == 0
                     {
-                        let pos = self.components[k].dc_huff_table & (MAX_COMPONENTS - 1);
-                        let dc_table = self.dc_huffman_tables.get(pos)
-                            .ok_or_else(|| DecodeErrors::Format(format!("No huffman table for component:{}", pos)))?
-                            .as_ref()
-                            .ok_or_else(|| DecodeErrors::Format(format!("Huffman table at index  {} not initialized", pos)))?;
-                        let dc_pred = &mut self.components[k].dc_pred;
-
                         if self.succ_high == 0
                         {
                             // first scan for this mcu
+                            let pos = self.components[k].dc_huff_table & (MAX_COMPONENTS - 1);
+                            let dc_table = self.dc_huffman_tables.get(pos)
+                                .ok_or_else(|| DecodeErrors::Format(format!("No huffman table for component:{}", pos)))?
+                                .as_ref()
+                                .ok_or_else(|| DecodeErrors::Format(format!("Huffman table at index  {} not initialized", pos)))?;
+                            let dc_pred = &mut self.components[k].dc_pred;
+
                             stream.decode_prog_dc_first(reader, dc_table, &mut data[0], dc_pred)?;
                         } else {
-                            // refining scans for this MCU
+                            // refining scans for this MCU, these use no Huffman table
                             stream.decode_prog_dc_refine(reader, &mut data[0])?;
                         }
 
@@ -388,10 +388,9 @@ impl Decoder
                         }
 
                         let component = &mut self.components[n];
+                        // refining scans use no Huffman table
                         let huff_table = self.dc_huffman_tables.get(component.dc_huff_table)
-                            .ok_or_else(|| DecodeErrors::Format(format!("No huffman table for component:{}", component.dc_huff_table)))?
-                            .as_ref()
-                            .ok_or_else(|| DecodeErrors::Format(format!("Huffman table at index  {} not initialized", component.dc_huff_table)))?;
+                            .and_then(Option::as_ref);
 
                         for v_samp in 0..component.vertical_sample
                         {
@@ -405,6 +404,9 @@ impl Decoder
 
                                 if self.succ_high == 0
                                 {
+                                    let huff_table = huff_table
+                                        .ok_or_else(|| DecodeErrors::Format(format!("Huffman table at index  {} not initialized", component.dc_huff_table)))?;
+
                                     stream.decode_prog_dc_first(reader, huff_table, data, &mut component.dc_pred)?;
                                 } else {
                                     stream.decode_prog_dc_refine(reader, data)?;
-- 
2.43.0


From d5ea5794cf1f9130e4152a2faecde4301ee4d058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:25 +0000
Subject: [PATCH 21/29] hooks: instruction tier and strip monitor for runtime
 monitors

Guarded by --cfg verif_hooks.
---
 src/lib.rs    |  7 +++++-
 src/verif.rs  | 70 +++++++++++++++++++++++++++++++++++++++++++++++++++
 src/worker.rs |  3 +++
 3 files changed, 79 insertions(+), 1 deletion(-)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index de6692f..537a0db 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -79,7 +79,8 @@
     clippy::doc_markdown,
     clippy::module_name_repetitions,
     clippy::missing_panics_doc,
-    clippy::missing_errors_doc
+    clippy::missing_errors_doc,
+    unexpected_cfgs
 )]
 #![cfg_attr(not(feature = "x86"), forbid(unsafe_code))]
 
@@ -90,6 +91,10 @@ pub use crate::decoder::{Decoder, ImageInfo};
 pub use crate::misc::ColorSpace;
 pub use crate::options::ZuneJpegOptions;
 
+#[cfg(verif_hooks)]
+#[macro_use]
+pub mod verif;
+
 mod bitstream;
 mod color_convert;
 mod components;
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..6defae3
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,70 @@
+//! Hooks for runtime monitors.
+//!
+//! Only compiled with `--cfg verif_hooks`
+use std::sync::atomic::{AtomicU8, Ordering};
+use std::sync::OnceLock;
+
+/// Highest tier of instructions the decoder may pick. 0: none, 1: up to SSE 4.1, 2: all
+static TIER: AtomicU8 = AtomicU8::new(2);
+
+/// Called when a worker starts(true) and finishes(false) a strip, with the address and the length
+/// of the output it writes to
+pub type StripMonitor = fn(bool, usize, usize);
+
+static MONITOR: OnceLock<StripMonitor> = OnceLock::new();
+
+/// Act as if the CPU had only the features of this tier
+pub fn set_tier(tier: u8)
+{
+    TIER.store(tier, Ordering::SeqCst);
+}
+
+pub(crate) fn allowed(feature: &str) -> bool
+{
+    match TIER.load(Ordering::SeqCst)
+    {
+        0 => false,
+        1 => !feature.starts_with("avx"),
+        _ => true,
+    }
+}
+
+/// Set the routine which observes strips, can be done once.
+pub fn set_strip_monitor(monitor: StripMonitor)
+{
+    let _ = MONITOR.set(monitor);
+}
+
+pub(crate) struct Strip(usize, usize);
+
+impl Strip
+{
+    pub(crate) fn new(output: &[u8]) -> Strip
+    {
+        let strip = Strip(output.as_ptr() as usize, output.len());
+
+        if let Some(monitor) = MONITOR.get()
+        {
+            monitor(true, strip.0, strip.1);
+        }
+        strip
+    }
+}
+
+impl Drop for Strip
+{
+    fn drop(&mut self)
+    {
+        if let Some(monitor) = MONITOR.get()
+        {
+            monitor(false, self.0, self.1);
+        }
+    }
+}
+
+#[allow(unused_macros)]
+macro_rules! is_x86_feature_detected {
+    ($feature:tt) => {
+        crate::verif::allowed($feature) && std::is_x86_feature_detected!($feature)
+    };
+}
diff --git a/src/worker.rs b/src/worker.rs
index fc96a40..8ad15f5 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -40,6 +40,9 @@ pub(crate) fn post_process(
     width: usize,
 ) // so many parameters..
 {
+    #[cfg(verif_hooks)]
+    let _strip = crate::verif::Strip::new(output);
+
     // maximum sampling factors are in Y-channel, no need to pass them.
     let h_samp = component_data[0].horizontal_sample;
     let v_samp = component_data[0].vertical_sample;
-- 
2.43.0


From 1427b8071163dc495266a9049fccf5837ba7bf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:05 +0000
Subject: [PATCH 22/29] fix: run the passes of the AVX2 IDCT in the order of
 the scalar one

Intermediate values are rounded, so doing rows first gave pixels which
differ in the last bit from the ones of the portable code.
---
 src/idct/avx2.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/idct/avx2.rs b/src/idct/avx2.rs
index 0e2922a..f6713c0 100644
--- a/src/idct/avx2.rs
+++ b/src/idct/avx2.rs
@@ -330,12 +330,8 @@ unsafe fn dequantize_and_idct_int_avx2(
                 };
             }
 
-            transpose(
-                &mut row0, &mut row1, &mut row2, &mut row3, &mut row4, &mut row5, &mut row6,
-                &mut row7,
-            );
-
-            // Process rows
+            // Process columns first, like the scalar code does, intermediate values are rounded
+            // hence the order matters for the last bit
             dct_pass!(512, 10);
 
             transpose(
@@ -343,10 +339,14 @@ unsafe fn dequantize_and_idct_int_avx2(
                 &mut row7,
             );
 
-            // process columns
+            // process rows
             dct_pass!(SCALE_BITS, 17);
 
             // transpose to original
+            transpose(
+                &mut row0, &mut row1, &mut row2, &mut row3, &mut row4, &mut row5, &mut row6,
+                &mut row7,
+            );
 
             // Pack i32 to i16's,
             // clamp them to be between 0-255
-- 
2.43.0


From 8cfbf429b056c00fbd4975fffe8d2940d812acfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:12 +0000
Subject: [PATCH 23/29] fix: give vertically upsampled rows their place

Every output row came out one row too high: rows which lie between two
rows of the input were written starting from the upper one, so most
pixels got the chroma of the row below them.
---
 src/upsampler/scalar.rs | 84 ++++++++++++-----------------------------
 1 file changed, 25 insertions(+), 59 deletions(-)

diff --git a/src/upsampler/scalar.rs b/src/upsampler/scalar.rs
index a464065..3f53463 100644
--- a/src/upsampler/scalar.rs
+++ b/src/upsampler/scalar.rs
@@ -58,63 +58,46 @@ pub fn upsample_horizontal(input: &[i16], output_len: usize) -> Vec<i16>
 
     return out;
 }
-/// Vertical upsampling (which I don't trust but it works anyway)
+/// Vertical upsampling
 ///
-/// The algorithm is still a bi-linear filter with some caveats.
+/// The algorithm is still a bi-linear filter, it takes a row of MCUs, hence 8 rows in and 16 rows out.
 pub fn upsample_vertical(input: &[i16], output_len: usize) -> Vec<i16>
 {
-    // the caveats, row_near and row_far for the first row point to the same
-    // array, that boils to a nearest neighbour upsampling?
-
-    // if row_near doesn't have data (next returns None), it uses it's
-    // previous row, so this again becomes a nearest neighbour
-
-    // How many pixels we need to skip to the next MCU row.
+    // How many pixels we need to skip to the next row.
     let stride = input.len() >> 3;
 
-    // We have 8 rows and we want 16 rows
-    let mut row_near = input.chunks_exact(stride);
-
-    // row far should point one row below row_near, if row near is in row 3, row far is in
-    // row 4.
-    let mut row_far = input.chunks_exact(stride);
-
     let mut out = vec![0; output_len];
-    // nearest row
-    let mut rw_n = row_near.next().unwrap();
-    // farthest row;
-    let mut rw_f = row_far.next().unwrap();
-    // previous row, for out of edge cases, e.g if we reach a row and
-    // we don't have data for that row, we use the previous row
-    let mut previous;
 
-    let mut i = 0;
+    // The first and last rows have no neighbour above and below them respectively
+    // that boils down to nearest neighbour upsampling.
+    out[..stride].copy_from_slice(&input[..stride]);
 
-    let mut next_row = true;
+    out[output_len - stride..].copy_from_slice(&input[input.len() - stride..]);
 
-    for _ in 0..8
+    // The other output rows come in pairs, between two rows of the input.
+    //
+    //  +----+
+    //  | A  |
+    //  +----+
+    //  | on |
+    //  +----+
+    //  | of |
+    //  +----+
+    //  | B  |
+    //  +----+
+    let rows = input
+        .chunks_exact(stride)
+        .zip(input[stride..].chunks_exact(stride));
+
+    for ((rw_n, rw_f), out_rows) in rows.zip(out[stride..].chunks_exact_mut(stride * 2))
     {
-        // A bit of cheat here.
-        //
-        // Let me explain, split at mut will return two slices, one containing 0..stride
-        // and another containing what remains.
-        //
-        // The length of out_near => stride, remainder will ALWAYS be greater than or equal to stride.
-        // now this is important with the loop below, we are using zip iterators which have an interesting
-        // property, they stop if any iterator doesn't have elements
-        //
-        // So we know remainder will be >= stride but out_near will be stride, therefore the zip will
-        // effectively stop when we write two rows.
-        //
-        // Ideally all of this is done to eliminate bounds check, the compiler will vectorize this
-        // better without the bounds check.
-        let (out_near, remainder) = out[i..].split_at_mut(stride);
+        let (out_near, out_far) = out_rows.split_at_mut(stride);
 
         for (((near, far), on), of) in rw_n
             .iter()
             .zip(rw_f.iter())
             .zip(out_near.iter_mut())
-            .zip(remainder.iter_mut())
+            .zip(out_far.iter_mut())
         {
             // Yes this can be easily accelerated, with SSE or AVX,
             // but it's a maintenance overhead and the compiler does an amazing work
@@ -125,23 +108,6 @@ pub fn upsample_vertical(input: &[i16], output_len: usize) -> Vec<i16>
             // far row
             *of = ((*far) * 3 + (*near) + 2) >> 2;
         }
-        // we wrote two adjacent lines update i to point to next position
-        // in output buffer.
-        i += stride * 2;
-
-        previous = rw_n;
-
-        rw_n = row_near.next().unwrap_or(previous);
-
-        rw_f = row_far.next().unwrap_or(rw_n);
-        // okay here I'm lazy. Ideally what i want s simply this.
-        // for the first row, keep row_near and row_far to the same, row, but for sub-sequent rows,
-        // row_far should point to the next row(1 row further than this row_near).
-        if next_row
-        {
-            rw_f = row_far.next().unwrap_or(rw_n);
-            next_row = false;
-        }
     }
     return out;
 }
-- 
2.43.0


From 2eff08bd65872cc6e5945508b78a9936fc190080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:59 +0000
Subject: [PATCH 24/29] fix: refuse progressive scans with impossible
 parameters

---
 src/headers.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/headers.rs b/src/headers.rs
index a1fc873..56c213c 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -481,9 +481,20 @@ where
     // Page 42
 
     // Start of spectral / predictor selection. (between 0 and 63)
-    image.spec_start = read_byte(buf)? & 63;
+    let spec_start = read_byte(buf)?;
     // End of spectral selection
-    image.spec_end = read_byte(buf)? & 63;
+    let spec_end = read_byte(buf)?;
+
+    if image.is_progressive && (spec_end > 63 || spec_start > spec_end)
+    {
+        return Err(DecodeErrors::SosError(format!(
+            "Invalid spectral selection {}-{} in a progressive scan",
+            spec_start, spec_end
+        )));
+    }
+
+    image.spec_start = spec_start & 63;
+    image.spec_end = spec_end & 63;
 
     let bit_approx = read_byte(buf)?;
     // successive approximation bit position high
@@ -507,6 +518,15 @@ where
         )));
     }
 
+    // a refinement scan adds exactly one bit
+    if image.is_progressive && image.succ_high != 0 && image.succ_high != image.succ_low + 1
+    {
+        return Err(DecodeErrors::SosError(format!(
+            "Invalid successive approximation Ah={} Al={} in a progressive scan",
+            image.succ_high, image.succ_low
+        )));
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From a6470228ac88f156c1f6ac8153e3bcabe7661dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:01 +0000
Subject: [PATCH 25/29] fix: don't wrap the DC table number of progressive
 scans

---
 src/mcu_prog.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index 53c2ca4..b6ec3bd 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -31,7 +31,6 @@ use std::sync::Arc;
 
 use crate::bitstream::BitStream;
 use crate::components::{ComponentID, SubSampRatios};
-use crate::decoder::MAX_COMPONENTS;
 use crate::errors::DecodeErrors;
 use crate::errors::DecodeErrors::Format;
 use crate::headers::{parse_huffman, parse_sos};
@@ -315,7 +314,7 @@ impl Decoder
                         if self.succ_high == 0
                         {
                             // first scan for this mcu
-                            let pos = self.components[k].dc_huff_table & (MAX_COMPONENTS - 1);
+                            let pos = self.components[k].dc_huff_table;
                             let dc_table = self.dc_huffman_tables.get(pos)
                                 .ok_or_else(|| DecodeErrors::Format(format!("No huffman table for component:{}", pos)))?
                                 .as_ref()
-- 
2.43.0


From bf8c5e8312626bbe73f1bb4360f83586a8174c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:11 +0000
Subject: [PATCH 26/29] fix: start no more threads than there are rows of MCUs

A large number of threads in the options panicked once the system could not start more.
---
 src/mcu.rs      | 3 ++-
 src/mcu_prog.rs | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mcu.rs b/src/mcu.rs
index ba372e3..9a02455 100644
--- a/src/mcu.rs
+++ b/src/mcu.rs
@@ -133,8 +133,9 @@ impl Decoder
         // check dc and AC tables
         self.check_tables()?;
 
+        // a thread without a row of MCUs would have nothing to do
         let  mut scoped_pools = scoped_threadpool::Pool::new(
-            self.options.get_threads());
+            self.options.get_threads().min(self.mcu_y.max(1) as u32));
         info!("Created {} worker threads", scoped_pools.thread_count());
 
         let (mut mcu_width, mut mcu_height);
diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index b6ec3bd..6e02867 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -196,7 +196,9 @@ impl Decoder
         // Divide into chunks
         let y_chunk = y.chunks_exact(y_chunk_size);
 
-        let mut pool = scoped_threadpool::Pool::new(self.options.get_threads());
+        // a thread without a row of MCUs would have nothing to do
+        let mut pool = scoped_threadpool::Pool::new(
+            self.options.get_threads().min(self.mcu_y.max(1) as u32));
 
         if self.input_colorspace.num_components() == 3 {
             let cb_chunk_size =
-- 
2.43.0


From 08f0b2a2a8d458a411dae1cb6ca3b66007431969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:06 +0000
Subject: [PATCH 27/29] fix: wrap coefficients refined beyond 16 bits

A crafted progressive file makes the refinement of a coefficient overflow,
which panics in builds with overflow checks.
---
 src/bitstream.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bitstream.rs b/src/bitstream.rs
index 1e0308a..1f135ba 100644
--- a/src/bitstream.rs
+++ b/src/bitstream.rs
@@ -575,11 +575,11 @@ impl BitStream
                         {
                             if *coefficient >= 0
                             {
-                                *coefficient += bit;
+                                *coefficient = coefficient.wrapping_add(bit);
                             }
                             else
                             {
-                                *coefficient -= bit;
+                                *coefficient = coefficient.wrapping_sub(bit);
                             }
                         }
 
@@ -636,11 +636,11 @@ impl BitStream
                         {
                             if *coefficient >= 0
                             {
-                                *coefficient += bit;
+                                *coefficient = coefficient.wrapping_add(bit);
                             }
                             else
                             {
-                                *coefficient -= bit;
+                                *coefficient = coefficient.wrapping_sub(bit);
                             }
                         }
                     }
-- 
2.43.0


From d969581594bb8c4c576515e9d7cc6e4e4426954f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:06 +0000
Subject: [PATCH 28/29] fix: let the scalar IDCT wrap like the AVX2 one

Coefficients of a crafted file overflow the transform, which panics in
builds with overflow checks.
---
 src/idct/scalar.rs | 92 +++++++++++++++++++++++-----------------------
 1 file changed, 47 insertions(+), 45 deletions(-)

diff --git a/src/idct/scalar.rs b/src/idct/scalar.rs
index 7741b10..53a7071 100644
--- a/src/idct/scalar.rs
+++ b/src/idct/scalar.rs
@@ -1,6 +1,8 @@
 //! Platform independent IDCT algorithm
 //!
 //! Not as fast as AVX one.
+use std::num::Wrapping;
+
 use crate::misc::Aligned32;
 
 const SCALE_BITS: i32 = 512 + 65536 + (128 << 17);
@@ -25,7 +27,7 @@ pub fn dequantize_and_idct_int(
 
     let mut out_vector = vec![0; vector.len()];
 
-    let mut tmp = [0; 64];
+    let mut tmp = [Wrapping(0); 64];
 
     let chunks = vector.len() * v_samp / samp_factors;
     // calculate position
@@ -45,7 +47,7 @@ pub fn dequantize_and_idct_int(
             if &vector[1..] == &[0_i16; 63]
             {
                 // okay then if you work, yaay, let's write you really quick
-                let coeff = [clamp((dequantize(vector[0], qt_table.0[0]) >> 3) + 128); 8];
+                let coeff = [clamp((dequantize(vector[0], qt_table.0[0]).0 >> 3) + 128); 8];
 
                 macro_rules! store {
                     ($index:tt) => {
@@ -82,11 +84,11 @@ pub fn dequantize_and_idct_int(
 
                     let p3 = dequantize(vector[ptr + 48], qt_table.0[ptr + 48]);
 
-                    let p1 = (p2 + p3).wrapping_mul(2217);
+                    let p1 = (p2 + p3) * Wrapping(2217);
 
-                    let t2 = p1 + p3 * -7567;
+                    let t2 = p1 + p3 * Wrapping(-7567);
 
-                    let t3 = p1 + p2 * 3135;
+                    let t3 = p1 + p2 * Wrapping(3135);
 
                     let p2 = dequantize(vector[ptr], qt_table.0[ptr]);
 
@@ -96,13 +98,13 @@ pub fn dequantize_and_idct_int(
 
                     let t1 = fsh(p2 - p3);
 
-                    let x0 = t0 + t3 + 512;
+                    let x0 = t0 + t3 + Wrapping(512);
 
-                    let x3 = t0 - t3 + 512;
+                    let x3 = t0 - t3 + Wrapping(512);
 
-                    let x1 = t1 + t2 + 512;
+                    let x1 = t1 + t2 + Wrapping(512);
 
-                    let x2 = t1 - t2 + 512;
+                    let x2 = t1 - t2 + Wrapping(512);
 
                     // odd part
                     let mut t0 = dequantize(vector[ptr + 56], qt_table.0[ptr + 56]);
@@ -121,23 +123,23 @@ pub fn dequantize_and_idct_int(
 
                     let p2 = t1 + t2;
 
-                    let p5 = (p3 + p4) * 4816;
+                    let p5 = (p3 + p4) * Wrapping(4816);
 
-                    t0 *= 1223;
+                    t0 *= Wrapping(1223);
 
-                    t1 *= 8410;
+                    t1 *= Wrapping(8410);
 
-                    t2 *= 12586;
+                    t2 *= Wrapping(12586);
 
-                    t3 *= 6149;
+                    t3 *= Wrapping(6149);
 
-                    let p1 = p5 + p1 * -3685;
+                    let p1 = p5 + p1 * Wrapping(-3685);
 
-                    let p2 = p5 + p2 * -10497;
+                    let p2 = p5 + p2 * Wrapping(-10497);
 
-                    let p3 = p3 * -8034;
+                    let p3 = p3 * Wrapping(-8034);
 
-                    let p4 = p4 * -1597;
+                    let p4 = p4 * Wrapping(-1597);
 
                     t3 += p1 + p4;
 
@@ -176,11 +178,11 @@ pub fn dequantize_and_idct_int(
 
                     let p3 = tmp[i + 6];
 
-                    let p1 = (p2 + p3) * 2217;
+                    let p1 = (p2 + p3) * Wrapping(2217);
 
-                    let t2 = p1 + p3 * -7567;
+                    let t2 = p1 + p3 * Wrapping(-7567);
 
-                    let t3 = p1 + p2 * 3135;
+                    let t3 = p1 + p2 * Wrapping(3135);
 
                     let p2 = tmp[i];
 
@@ -196,13 +198,13 @@ pub fn dequantize_and_idct_int(
                     // so we want to round that, which means adding 0.5 * 1<<17,
                     // aka 65536. Also, we'll end up with -128 to 127 that we want
                     // to encode as 0..255 by adding 128, so we'll add that before the shift
-                    let x0 = t0 + t3 + SCALE_BITS;
+                    let x0 = t0 + t3 + Wrapping(SCALE_BITS);
 
-                    let x3 = t0 - t3 + SCALE_BITS;
+                    let x3 = t0 - t3 + Wrapping(SCALE_BITS);
 
-                    let x1 = t1 + t2 + SCALE_BITS;
+                    let x1 = t1 + t2 + Wrapping(SCALE_BITS);
 
-                    let x2 = t1 - t2 + SCALE_BITS;
+                    let x2 = t1 - t2 + Wrapping(SCALE_BITS);
 
                     // odd part
                     let mut t0 = tmp[i + 7];
@@ -221,23 +223,23 @@ pub fn dequantize_and_idct_int(
 
                     let p2 = t1 + t2;
 
-                    let p5 = (p3 + p4) * f2f(1.175875602);
+                    let p5 = (p3 + p4) * Wrapping(f2f(1.175875602));
 
-                    t0 = t0.wrapping_mul(1223);
+                    t0 = t0 * Wrapping(1223);
 
-                    t1 = t1.wrapping_mul(8410);
+                    t1 = t1 * Wrapping(8410);
 
-                    t2 = t2.wrapping_mul(12586);
+                    t2 = t2 * Wrapping(12586);
 
-                    t3 = t3.wrapping_mul(6149);
+                    t3 = t3 * Wrapping(6149);
 
-                    let p1 = p5 + p1 * -3685;
+                    let p1 = p5 + p1 * Wrapping(-3685);
 
-                    let p2 = p5 + p2 * -10497;
+                    let p2 = p5 + p2 * Wrapping(-10497);
 
-                    let p3 = p3 * -8034;
+                    let p3 = p3 * Wrapping(-8034);
 
-                    let p4 = p4 * -1597;
+                    let p4 = p4 * Wrapping(-1597);
 
                     t3 += p1 + p4;
 
@@ -252,21 +254,21 @@ pub fn dequantize_and_idct_int(
                         .try_into()
                         .unwrap();
 
-                    out[0] = clamp((x0 + t3) >> 17);
+                    out[0] = clamp(((x0 + t3) >> 17).0);
 
-                    out[1] = clamp((x1 + t2) >> 17);
+                    out[1] = clamp(((x1 + t2) >> 17).0);
 
-                    out[2] = clamp((x2 + t1) >> 17);
+                    out[2] = clamp(((x2 + t1) >> 17).0);
 
-                    out[3] = clamp((x3 + t0) >> 17);
+                    out[3] = clamp(((x3 + t0) >> 17).0);
 
-                    out[4] = clamp((x3 - t0) >> 17);
+                    out[4] = clamp(((x3 - t0) >> 17).0);
 
-                    out[5] = clamp((x2 - t1) >> 17);
+                    out[5] = clamp(((x2 - t1) >> 17).0);
 
-                    out[6] = clamp((x1 - t2) >> 17);
+                    out[6] = clamp(((x1 - t2) >> 17).0);
 
-                    out[7] = clamp((x0 - t3) >> 17);
+                    out[7] = clamp(((x0 - t3) >> 17).0);
 
                     i += 8;
 
@@ -291,7 +293,7 @@ fn f2f(x: f32) -> i32
 
 #[inline]
 /// Multiply a number by 4096
-fn fsh(x: i32) -> i32
+fn fsh(x: Wrapping<i32>) -> Wrapping<i32>
 {
     x << 12
 }
@@ -305,7 +307,7 @@ fn clamp(a: i32) -> i16
 }
 
 #[inline]
-fn dequantize(a: i16, b: i32) -> i32
+fn dequantize(a: i16, b: i32) -> Wrapping<i32>
 {
-    i32::from(a) * b
+    Wrapping(i32::from(a)) * Wrapping(b)
 }
-- 
2.43.0


From cf11f1f0c3b73dc1da6714c721af918ef3706b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:43 +0000
Subject: [PATCH 29/29] fix: report unsupported coding processes as such

---
 src/decoder.rs | 3 ++-
 src/marker.rs  | 3 +--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 3b2d1ab..c6957a2 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -355,7 +355,8 @@ impl Decoder
             // Start of Frame Segments not supported
             Marker::SOF(v) =>
             {
-                let feature = UnsupportedSchemes::from_int(v);
+                // the schemes are told apart by the byte after 0xFF, the marker has only its last digit
+                let feature = UnsupportedSchemes::from_int(0xC0 | v);
 
                 if let Some(feature) = feature
                 {
diff --git a/src/marker.rs b/src/marker.rs
index 0e604f8..9e28d1e 100644
--- a/src/marker.rs
+++ b/src/marker.rs
@@ -52,8 +52,7 @@ impl Marker
         match n
         {
             0xFE => Some(COM),
-            0xC0 => Some(SOF(0)),
-            0xC2 => Some(SOF(2)),
+            0xC0..=0xC3 | 0xC5..=0xC7 | 0xC9..=0xCB | 0xCD..=0xCF => Some(SOF(n - 0xC0)),
             0xC4 => Some(DHT),
             0xCC => Some(DAC),
             0xD0 => Some(RST(0)),
-- 
2.43.0

