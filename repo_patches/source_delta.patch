From a5fe898e7f7e8da8e7f4cd48349baf541e2b011e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:46 +0000
Subject: [PATCH 01/12] fix: strip the length header when decoding data stored
 without an LDPC code

encode() prepends a two byte length to its input even when no LDPC code
matches the codeword length, but decode() returned the raw bytes with that
header (and whatever followed the data) still in place, so nothing embedded
in such a domain could be read back.
---
 lib/sia/rust/encoding/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/sia/rust/encoding/src/lib.rs b/lib/sia/rust/encoding/src/lib.rs
index 3fd5811..13c7929 100644
--- a/lib/sia/rust/encoding/src/lib.rs
+++ b/lib/sia/rust/encoding/src/lib.rs
@@ -110,7 +110,11 @@ pub fn decode(bytes: Vec<u8>, codeword_length: usize) -> Vec<u8> {
     // let code_option = get_code_for_decode(bits_length);
     let code_option = get_code_by_codeword_length(codeword_length);
     match code_option {
-        None => bytes.clone(),
+        None => {
+            // No LDPC code fits: the bytes are not encoded, but still carry the length header
+            let bytes_length = bytes_to_u16(bytes[0], bytes[1]) as usize;
+            Vec::from(&bytes[2..bytes_length + 2])
+        }
         Some(code) => {
             let mut decoded_bytes = vec![];
             let code_words = bytes.chunks(code.n() / 8);
-- 
2.43.0


From 348771c2b5c00a85c8ffe40b59e7cad34e12c253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:46 +0000
Subject: [PATCH 02/12] fix: ignore the incomplete trailing codeword when
 decoding

The bytes read from a domain whose capacity is not a multiple of the codeword
size end with a part that never holds encoded data. Passing it to the LDPC
decoder tripped its input length assertion, so such images could be
watermarked but not read.
---
 lib/sia/rust/encoding/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/sia/rust/encoding/src/lib.rs b/lib/sia/rust/encoding/src/lib.rs
index 13c7929..d4c9428 100644
--- a/lib/sia/rust/encoding/src/lib.rs
+++ b/lib/sia/rust/encoding/src/lib.rs
@@ -117,7 +117,8 @@ pub fn decode(bytes: Vec<u8>, codeword_length: usize) -> Vec<u8> {
         }
         Some(code) => {
             let mut decoded_bytes = vec![];
-            let code_words = bytes.chunks(code.n() / 8);
+            // A domain may end with a part too short to hold a codeword: nothing is written there
+            let code_words = bytes.chunks_exact(code.n() / 8);
             println!("use LDPC code: ({:?}, {:?})", code.k(), code.n());
             println!("codewords to be decoded: {:?}", code_words.len());
 
-- 
2.43.0


From aa3ae6309d9cb29ebd8b9c90c769f93ad8057160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:46 +0000
Subject: [PATCH 03/12] fix: refuse to encode data longer than its length
 header can describe

The length was silently truncated to 16 bits, so that longer data was decoded
to a short prefix of itself.
---
 lib/sia/rust/encoding/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/sia/rust/encoding/src/lib.rs b/lib/sia/rust/encoding/src/lib.rs
index d4c9428..0461c27 100644
--- a/lib/sia/rust/encoding/src/lib.rs
+++ b/lib/sia/rust/encoding/src/lib.rs
@@ -49,6 +49,10 @@ fn get_code_for_decode(length: usize) -> Option<LDPCCode> {
 }
 
 pub fn encode(input: Vec<u8>, codeword_length: usize) -> Vec<u8> {
+    if input.len() > u16::MAX as usize {
+        panic!("too long data: {:?}", input.len());
+    }
+
     // Prepend input data with amount of bytes
     let bytes_length = input.len() as u16;
     let (length_byte1, length_byte2) = u16_to_bytes(bytes_length);
-- 
2.43.0


From 69bfe0d1608461adb2f6cce25ef645d17d524515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:46 +0000
Subject: [PATCH 04/12] fix: address the coefficients of non-square domains
 correctly

The column was taken modulo the number of rows. In a domain that is not square
this wrote several bits to the same coefficient, or addressed a coefficient
outside of the domain.
---
 lib/sia/rust/embedding/src/io/steganography.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/sia/rust/embedding/src/io/steganography.rs b/lib/sia/rust/embedding/src/io/steganography.rs
index 76cddb5..d2f22b3 100644
--- a/lib/sia/rust/embedding/src/io/steganography.rs
+++ b/lib/sia/rust/embedding/src/io/steganography.rs
@@ -19,9 +19,9 @@ pub fn get_capacity(width: usize, height: usize) -> usize {
     ((width * height) as f64 / 8.).floor() as usize
 }
 
-fn get_column_and_row(offset: usize, width: usize, height: usize) -> (usize, usize) {
-    let column = offset % width;
-    let row = (offset as f64 / height as f64).floor() as usize;
+fn get_column_and_row(offset: usize, columns: usize) -> (usize, usize) {
+    let column = offset % columns;
+    let row = offset / columns;
     (column, row)
 }
 
@@ -57,8 +57,8 @@ impl<'a> WatermarkToDwtCoefficientsWriter<'a> {
 
     fn write_bit(&mut self, bit: bool) {
         let reminder = if bit { 0.25 } else { -0.25 };
-        let (width, height) = self.domain.dim();
-        let (column, row) = get_column_and_row(self.offset, width, height);
+        let (_rows, columns) = self.domain.dim();
+        let (column, row) = get_column_and_row(self.offset, columns);
 
         let coefficient = self.domain.get_mut(Ix2(row, column)).unwrap();
         //let original_coefficient = coefficient.clone();
@@ -127,8 +127,8 @@ impl<'a> WatermarkFromDwtCoefficientsReader<'a> {
     }
 
     fn read_bit(&mut self) -> bool {
-        let (width, height) = self.domain.dim();
-        let (column, row) = get_column_and_row(self.offset, width, height);
+        let (_rows, columns) = self.domain.dim();
+        let (column, row) = get_column_and_row(self.offset, columns);
 
         let coefficient_option = self.domain.get(Ix2(row, column));
         match coefficient_option {
-- 
2.43.0


From 16a2f0696ace1eec1bef34cbee1559b65c051af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:46 +0000
Subject: [PATCH 05/12] fix: read back an embedded empty payload

Data without bytes is serialized to its two byte header alone, which was
refused as too short when read back.
---
 lib/sia/rust/embedding/src/io/data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sia/rust/embedding/src/io/data.rs b/lib/sia/rust/embedding/src/io/data.rs
index 921eec4..0c6bbec 100644
--- a/lib/sia/rust/embedding/src/io/data.rs
+++ b/lib/sia/rust/embedding/src/io/data.rs
@@ -29,7 +29,7 @@ impl Data {
 pub fn deserialize(bytes: &Vec<u8>) -> Data {
     println!("serialized data bytes: {:?}", bytes);
     let length = bytes.len();
-    if length < 3 {
+    if length < 2 {
         panic!("too short data");
     }
 
-- 
2.43.0


From a97e3c5cd5e2889b3b1e33ec71033fac97d403e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:46 +0000
Subject: [PATCH 06/12] fix: report a malformed signature as not authentic

verify() panicked when the bytes could not be parsed as a signature, which is
what a damaged watermark holds.
---
 lib/sia/rust/signature/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/sia/rust/signature/src/lib.rs b/lib/sia/rust/signature/src/lib.rs
index 1b418d6..92c68d4 100644
--- a/lib/sia/rust/signature/src/lib.rs
+++ b/lib/sia/rust/signature/src/lib.rs
@@ -34,8 +34,10 @@ pub fn verify(data: &Vec<u8>, signature: &Vec<u8>, public_key: &str) -> bool {
 
     let verifier = DSVerifier { verify_key };
 
-    let sig = Signature::from_bytes(signature.as_slice()).unwrap();
-    verifier.verify(data.as_slice(), &sig).is_ok()
+    match Signature::from_bytes(signature.as_slice()) {
+        Ok(sig) => verifier.verify(data.as_slice(), &sig).is_ok(),
+        Err(_) => false,
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From b27ed041039fcb27be91a23f09092e39b4b9c8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:46 +0000
Subject: [PATCH 07/12] fix: report malformed hex strings as an error

decode_hex() panicked on strings of odd length and on some non-ASCII ones, and
accepted a plus sign in place of a digit.
---
 lib/sia/rust/utils/src/format.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/sia/rust/utils/src/format.rs b/lib/sia/rust/utils/src/format.rs
index d89c5e1..f380f58 100644
--- a/lib/sia/rust/utils/src/format.rs
+++ b/lib/sia/rust/utils/src/format.rs
@@ -3,7 +3,13 @@ use std::{fmt::Write, num::ParseIntError};
 pub fn decode_hex(s: &str) -> Result<Vec<u8>, ParseIntError> {
     (0..s.len())
         .step_by(2)
-        .map(|i| u8::from_str_radix(&s[i..i + 2], 16))
+        .map(|i| {
+            // An incomplete pair or one with other than hex digits is reported as an empty number
+            let pair = s
+                .get(i..i + 2)
+                .filter(|pair| pair.bytes().all(|byte| byte.is_ascii_hexdigit()));
+            u8::from_str_radix(pair.unwrap_or(""), 16)
+        })
         .collect()
 }
 
-- 
2.43.0


From a4cdd6c2773fef9173ca9ff5c15ec383e3968ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:04 +0000
Subject: [PATCH 08/12] fix: calculate the moments of images which are not
 square

The Zernike matrix was made for the number of rows and then read by the flat
index of the pixel: with more columns than rows this ended in a panic, with
fewer each pixel met the polynomial of some other position.
---
 lib/sia/rust/zernike/src/calc.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/sia/rust/zernike/src/calc.rs b/lib/sia/rust/zernike/src/calc.rs
index 37f2b5c..24191cd 100644
--- a/lib/sia/rust/zernike/src/calc.rs
+++ b/lib/sia/rust/zernike/src/calc.rs
@@ -12,15 +12,18 @@ pub fn calculate_zernike_image_moment(
 ) -> Complex<f64> {
     let (width, height) = image.dim();
 
-    let zernike_matrix_vector = get_zernike_matrix(order, index as isize, width).into_raw_vec();
+    // An image which is not square is placed in the middle of the square enclosing it
+    let dimension = width.max(height);
+    let row_offset = (dimension - width) / 2;
+    let column_offset = (dimension - height) / 2;
+    let zernike_matrix = get_zernike_matrix(order, index as isize, dimension);
 
     let integral =
         image
-            .iter()
-            .enumerate()
-            .fold(Complex::new(0., 0.), |accumulator, (i, &next)| {
+            .indexed_iter()
+            .fold(Complex::new(0., 0.), |accumulator, ((row, column), &next)| {
                 let next_pixel = next as f64;
-                let zernike_multiplier = zernike_matrix_vector.get(i).unwrap();
+                let zernike_multiplier = zernike_matrix[[row + row_offset, column + column_offset]];
 
                 return accumulator + zernike_multiplier * next_pixel;
             });
-- 
2.43.0


From 7a2a977305369ab00fe5a41b0d8d2d6e16fd0772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:04 +0000
Subject: [PATCH 09/12] fix: keep the rows of images which are not square

The pixels, stored row by row, were given the shape width x height, which
shears any image that is not square before it is transformed.
---
 lib/sia/rust/watermarking/src/process.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/sia/rust/watermarking/src/process.rs b/lib/sia/rust/watermarking/src/process.rs
index f5729ef..8a678e1 100644
--- a/lib/sia/rust/watermarking/src/process.rs
+++ b/lib/sia/rust/watermarking/src/process.rs
@@ -24,7 +24,7 @@ pub fn watermark_channel(
     let raw_data = Vec::from(channel.as_raw().clone());
 
     let &(width, height) = &channel.dimensions();
-    let shape = [width as usize, height as usize];
+    let shape = [height as usize, width as usize];
     let pixels_array = Array2::from_shape_vec(shape, raw_data).unwrap();
 
     // 1. Calculate channel features
@@ -76,7 +76,7 @@ pub fn authenticate_channel(
 ) -> bool {
     let raw_data = Vec::from(channel.as_raw().clone());
     let (width, height) = channel.dimensions();
-    let shape = [width as usize, height as usize];
+    let shape = [height as usize, width as usize];
     let pixels_array = Array2::from_shape_vec(shape, raw_data).unwrap();
 
     // 1. Calculate channel features
-- 
2.43.0


From b36978d6bd5d785d1c1ba0d680da9676b23aa897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 10/12] Add verification hooks to private items, behind
 cfg(sia_verif_hooks)

---
 lib/sia/rust/embedding/src/lib.rs    | 26 +++++++++++++
 lib/sia/rust/signature/src/lib.rs    |  7 ++++
 lib/sia/rust/watermarking/src/lib.rs | 55 ++++++++++++++++++++++++++++
 3 files changed, 88 insertions(+)

diff --git a/lib/sia/rust/embedding/src/lib.rs b/lib/sia/rust/embedding/src/lib.rs
index b070bcf..866adbe 100644
--- a/lib/sia/rust/embedding/src/lib.rs
+++ b/lib/sia/rust/embedding/src/lib.rs
@@ -81,6 +81,32 @@ pub fn extract(image_matrix: Array2<u8>, depth: f64, dwt_levels: usize) -> Vec<u
     data.bytes
 }
 
+#[cfg(sia_verif_hooks)]
+pub mod verif_hooks {
+    use ndarray::Array2;
+
+    pub fn dwt_2d(input: Array2<f64>, level: usize, is_backward: bool) -> Array2<f64> {
+        crate::haar::dwt_2d(input, level, is_backward)
+    }
+
+    pub fn write_domain(mut domain: Array2<f64>, bytes: Vec<u8>, depth: f64) -> Array2<f64> {
+        crate::io::write(&mut domain.view_mut(), bytes, depth);
+        domain
+    }
+
+    pub fn read_domain(mut domain: Array2<f64>, depth: f64) -> Vec<u8> {
+        crate::io::read(&domain.view_mut(), depth)
+    }
+
+    pub fn frame(bytes: Vec<u8>) -> Vec<u8> {
+        crate::io::data::Data::new(bytes).serialize()
+    }
+
+    pub fn unframe(bytes: Vec<u8>) -> Vec<u8> {
+        crate::io::data::deserialize(&bytes).bytes
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use utils::constants::get_test_32_32_matrix;
diff --git a/lib/sia/rust/signature/src/lib.rs b/lib/sia/rust/signature/src/lib.rs
index 92c68d4..82d0f02 100644
--- a/lib/sia/rust/signature/src/lib.rs
+++ b/lib/sia/rust/signature/src/lib.rs
@@ -40,6 +40,13 @@ pub fn verify(data: &Vec<u8>, signature: &Vec<u8>, public_key: &str) -> bool {
     }
 }
 
+#[cfg(sia_verif_hooks)]
+pub mod verif_hooks {
+    pub fn generate() -> (String, String) {
+        crate::keypair::generate()
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use ed25519_dalek::{Keypair, PublicKey};
diff --git a/lib/sia/rust/watermarking/src/lib.rs b/lib/sia/rust/watermarking/src/lib.rs
index 581e3ce..b04fdd9 100644
--- a/lib/sia/rust/watermarking/src/lib.rs
+++ b/lib/sia/rust/watermarking/src/lib.rs
@@ -110,3 +110,58 @@ pub fn watermark(
         DynamicImage::from(rgb_image)
     };
 }
+
+#[cfg(sia_verif_hooks)]
+pub mod verif_hooks {
+    use image::GrayImage;
+
+    pub fn watermark_channel(
+        channel: &GrayImage,
+        embedding_depth: f64,
+        features_quantization_step: f64,
+        features_amount: usize,
+        dwt_levels: usize,
+    ) -> GrayImage {
+        crate::process::watermark_channel(
+            channel,
+            embedding_depth,
+            features_quantization_step,
+            features_amount,
+            dwt_levels,
+        )
+    }
+
+    pub fn authenticate_channel(
+        channel: &GrayImage,
+        embedding_depth: f64,
+        features_quantization_step: f64,
+        features_amount: usize,
+        dwt_levels: usize,
+    ) -> bool {
+        crate::process::authenticate_channel(
+            channel,
+            embedding_depth,
+            features_quantization_step,
+            features_amount,
+            dwt_levels,
+        )
+    }
+
+    pub fn record_to_bytes(perturbation: &[bool], signature: &[u8], text: &str) -> Vec<u8> {
+        crate::watermark::Watermark::new(
+            perturbation.iter().collect(),
+            signature.to_vec(),
+            text.to_string(),
+        )
+        .serialize()
+    }
+
+    pub fn record_from_bytes(bytes: &[u8]) -> (Vec<bool>, Vec<u8>, String) {
+        let record = crate::watermark::deserialize(&bytes.to_vec());
+        (
+            record.perturbation_vector.iter().map(|bit| *bit).collect(),
+            record.signature,
+            record.text,
+        )
+    }
+}
-- 
2.43.0


From 736e3c55a1e83ed0e8f51fb6046b57541b8fb1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:21 +0000
Subject: [PATCH 11/12] fix: decode data URLs of every media type

The prefix of a data URL was only removed if the media type consisted of
letters and digits: a file of type image/x-ms-bmp, image/svg+xml or
application/octet-stream ended in an InvalidCharacterError.
---
 src/Content/utils.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Content/utils.ts b/src/Content/utils.ts
index cc165a9..a940b3c 100644
--- a/src/Content/utils.ts
+++ b/src/Content/utils.ts
@@ -5,7 +5,7 @@ import {
 } from 'sia-watermarking-lib';
 import { ImageModel, WatermarkingProcess } from './image';
 
-const mimeRegex = /^data:image\/[a-zA-Z0-9]+;base64,/;
+const mimeRegex = /^data:[^,]*;base64,/;
 
 const removeMime = (dataUri: string) => dataUri.replace(mimeRegex, '');
 
-- 
2.43.0


From d7f0d36db858f6be9266c069a71072c083569c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:08 +0000
Subject: [PATCH 12/12] fix: show the picture chosen last, whichever is read
 first

---
 src/Content/Content.tsx | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/Content/Content.tsx b/src/Content/Content.tsx
index 36e2c21..349eafb 100644
--- a/src/Content/Content.tsx
+++ b/src/Content/Content.tsx
@@ -1,4 +1,4 @@
-import React, { useEffect, useState } from 'react';
+import React, { useEffect, useRef, useState } from 'react';
 import WatermarkingPreview from '../WatermarkingPreview/WatermarkingPreview';
 import init from 'sia-watermarking-lib';
 import * as loadImage from './peppers.jpg';
@@ -27,17 +27,25 @@ const Content = (_: ContentProps) => {
     WatermarkingProcess | undefined,
     React.Dispatch<React.SetStateAction<WatermarkingProcess | undefined>>,
   ] = useState();
+  // pictures may be read in another order than they were asked for: the last one counts
+  const lastRequest = useRef(0);
 
   useEffect(() => {
+    const request = ++lastRequest.current;
     init().then(async () => {
       const sourceImageDataUrl = await toDataURL(loadImage.default);
-      setWatermarkingProcess(getWatermarkingProcess(sourceImageDataUrl));
+      if (request === lastRequest.current) {
+        setWatermarkingProcess(getWatermarkingProcess(sourceImageDataUrl));
+      }
     });
   }, []);
 
   const loadImageFromFile = (file: File) => {
+    const request = ++lastRequest.current;
     fileToBase64(file).then(base64EncodedImage => {
-      setWatermarkingProcess(getWatermarkingProcess(base64EncodedImage));
+      if (request === lastRequest.current) {
+        setWatermarkingProcess(getWatermarkingProcess(base64EncodedImage));
+      }
     });
   };
 
-- 
2.43.0

