From fc88d425f3b52a469ad02039440384ff388d2430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 01/11] verif hook: re-export private bit and predictor types
 under cfg(rezip_verif)

---
 lib/src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/src/lib.rs b/lib/src/lib.rs
index 3e0d2a8..e81e2ca 100644
--- a/lib/src/lib.rs
+++ b/lib/src/lib.rs
@@ -23,6 +23,17 @@ pub mod trace;
 pub mod tracer;
 mod wams;
 
+/// Private types which the external verification harness drives directly.
+/// Only compiled with `--cfg rezip_verif`.
+#[cfg(rezip_verif)]
+pub mod verif {
+    pub use crate::bit::BitReader;
+    pub use crate::bit::BitVec;
+    pub use crate::bit::BitWriter;
+    pub use crate::lookahead::Lookahead;
+    pub use crate::picker::Picker;
+}
+
 use more_asserts::assert_ge;
 use more_asserts::assert_le;
 
-- 
2.43.0


From c8981883009fa84816754ed613ab3c1b28545008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 02/11] fix: write stored block lengths little-endian

The reader (and RFC 1951) take LEN and NLEN least significant byte first;
the writer emitted them most significant byte first, so re-encoding any
stored block whose length bytes differ corrupted the stream.
---
 lib/src/bit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/bit.rs b/lib/src/bit.rs
index 5e8bd36..94eeed7 100644
--- a/lib/src/bit.rs
+++ b/lib/src/bit.rs
@@ -163,8 +163,8 @@ impl<W: Write> BitWriter<W> {
 
     pub fn write_aligned_u16(&mut self, val: u16) -> Result<(), Error> {
         self.inner.write_all(&[
-            u8::try_from(val >> 8).expect("bitshift"),
             u8::try_from(val & 0xFF).expect("mask"),
+            u8::try_from(val >> 8).expect("bitshift"),
         ])?;
         Ok(())
     }
-- 
2.43.0


From 1449adfccabee3e9af1c8302481672739faf88d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 03/11] fix: restore literal corrections relative to the
 preroll

Scanner positions count from the start of the preroll, but byte_at indexed
the block's data with them, so restoring any literal correction in a block
with history panicked or produced the wrong byte.
---
 lib/src/technique.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/technique.rs b/lib/src/technique.rs
index 1fa8a43..4241ad5 100644
--- a/lib/src/technique.rs
+++ b/lib/src/technique.rs
@@ -64,7 +64,7 @@ impl<'a, 'p, 'd> Technique<'a, 'p, 'd> {
     }
 
     pub fn byte_at(&self, pos: usize) -> u8 {
-        self.all_refs.data[pos]
+        self.all_refs.get(pos)
     }
 }
 
-- 
2.43.0


From 2f3b34ff511368384d4dbd13724193efda18e1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 04/11] fix: clear popped bits of a BitVec

A popped one bit stayed set in its byte, so a zero pushed afterwards read
back as one, and equal vectors compared unequal.
---
 lib/src/bit.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/src/bit.rs b/lib/src/bit.rs
index 94eeed7..428e7c4 100644
--- a/lib/src/bit.rs
+++ b/lib/src/bit.rs
@@ -236,6 +236,9 @@ impl BitVec {
 
         if self.len % WORD_SIZE == 0 {
             self.bytes.pop();
+        } else {
+            // push() only sets bits, and equality compares whole bytes
+            self.bytes[self.len / WORD_SIZE] &= !(1 << (self.len % WORD_SIZE));
         }
 
         Some(answer)
-- 
2.43.0


From c90f229c48d3c726af2397c3998e3b2674d40208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 05/11] fix: list the contents of a full 65535 byte
 CircularBuffer

1 + valid_cap overflowed: a panic, or an empty result in release builds.
---
 lib/src/circles.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/circles.rs b/lib/src/circles.rs
index 1fde300..66dac66 100644
--- a/lib/src/circles.rs
+++ b/lib/src/circles.rs
@@ -100,7 +100,7 @@ impl CircularBuffer {
         // TODO: optimise
 
         let mut ret = Vec::with_capacity(usize::from(self.valid_cap));
-        for pos in (1..1 + self.valid_cap).rev() {
+        for pos in (1..=self.valid_cap).rev() {
             ret.push(self.get_at_dist(pos));
         }
 
-- 
2.43.0


From 1516de8f0c5b449a5c1df73536388ebec886791e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 06/11] fix: zero: keep stored blocks within the 16-bit length
 field

With no natural boundary a block reached 65536 bytes, whose length was
written as 0, corrupting the output.
---
 rezippers/src/zero.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rezippers/src/zero.rs b/rezippers/src/zero.rs
index c728268..8957590 100644
--- a/rezippers/src/zero.rs
+++ b/rezippers/src/zero.rs
@@ -15,7 +15,8 @@ const CRC32: Crc<u32> = Crc::<u32>::new(&CRC_32_ISO_HDLC);
 
 const RSYNC_MIN: usize = 1024 * 8;
 const RSYNC_MOD: usize = 1024 * 4;
-const RSYNC_MAX: usize = 1024 * 64;
+/// A stored block's length is a u16.
+const RSYNC_MAX: usize = 1024 * 64 - 1;
 
 /// Return: empty iff input is empty.
 fn take_rsync<I: Iterator<Item = io::Result<u8>>>(from: &mut I) -> io::Result<Vec<u8>> {
-- 
2.43.0


From f8098066340e642a799e046baf347cf17609f82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 07/11] fix: cat, zero: report failure to write the end of the
 output

Standard output is line buffered, and the flush at exit ignores errors, so
anything after the last newline could be lost with a successful exit status.
---
 rezippers/src/cat.rs  | 2 ++
 rezippers/src/zero.rs | 1 +
 2 files changed, 3 insertions(+)

diff --git a/rezippers/src/cat.rs b/rezippers/src/cat.rs
index 051b0d5..93d9741 100644
--- a/rezippers/src/cat.rs
+++ b/rezippers/src/cat.rs
@@ -1,5 +1,6 @@
 use std::io;
 use std::io::Read;
+use std::io::Write;
 
 use anyhow::Error;
 use librezip;
@@ -17,5 +18,6 @@ pub fn run<R: Read>(mut reader: R) -> Result<(), Error> {
         librezip::decompressed_block(&mut stdout, &mut dictionary, &block?)?;
     }
 
+    stdout.flush()?;
     Ok(())
 }
diff --git a/rezippers/src/zero.rs b/rezippers/src/zero.rs
index 8957590..c8c2752 100644
--- a/rezippers/src/zero.rs
+++ b/rezippers/src/zero.rs
@@ -95,5 +95,6 @@ pub fn run<R: Read>(mut reader: R) -> Result<(), Error> {
 
     writer.write_u32::<LE>(data_csum.finalize())?;
     writer.write_u32::<LE>(data_len)?;
+    writer.flush()?;
     Ok(())
 }
-- 
2.43.0


From 39cd5884adebe353a86e896bb4fc62434d726dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:25 +0000
Subject: [PATCH 08/11] verif hook: construct a Ref under cfg(rezip_verif)

---
 lib/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/lib.rs b/lib/src/lib.rs
index e81e2ca..495c0c0 100644
--- a/lib/src/lib.rs
+++ b/lib/src/lib.rs
@@ -32,6 +32,10 @@ pub mod verif {
     pub use crate::bit::BitWriter;
     pub use crate::lookahead::Lookahead;
     pub use crate::picker::Picker;
+
+    pub fn make_ref(dist: u16, run: u16) -> crate::Ref {
+        crate::Ref::new(dist, run)
+    }
 }
 
 use more_asserts::assert_ge;
-- 
2.43.0


From c1cc48c6f8c6ffb6966e06f852adc0ee902dc91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:18 +0000
Subject: [PATCH 09/11] fix: report blocks that cannot be encoded as errors
 instead of panicking

compressed_block returned an error for a literal without a code, but panicked
for a length, distance or end of block without one, and for code tables cut
short.
---
 lib/src/bit.rs       |  2 +-
 lib/src/serialise.rs | 14 +++++++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/lib/src/bit.rs b/lib/src/bit.rs
index 428e7c4..0474db0 100644
--- a/lib/src/bit.rs
+++ b/lib/src/bit.rs
@@ -362,7 +362,7 @@ impl<R: Read> BitSource for BitReader<R> {
 
 impl<'a> BitSource for StackIterator<'a> {
     fn read_bit(&mut self) -> Result<bool, Error> {
-        Ok(self.next().expect("TODO: EOF"))
+        self.next().ok_or_else(|| format_err!("out of bits"))
     }
 }
 
diff --git a/lib/src/serialise.rs b/lib/src/serialise.rs
index 7d783b8..2fd6e2d 100644
--- a/lib/src/serialise.rs
+++ b/lib/src/serialise.rs
@@ -162,7 +162,11 @@ fn compressed_codes<W: Write>(
     }
 
     // End of stream marker
-    into.write_vec(length_tree[256].as_ref().unwrap())?;
+    into.write_vec(
+        length_tree[256]
+            .as_ref()
+            .ok_or_else(|| anyhow!("no code for the end of the block"))?,
+    )?;
 
     Ok(())
 }
@@ -175,7 +179,7 @@ fn encode_run<W: Write>(
     into.write_vec(
         length_tree[huffman::encode_run_length(run) as usize]
             .as_ref()
-            .unwrap(),
+            .ok_or_else(|| anyhow!("invalid run length"))?,
     )?;
 
     if let Some((bits, val)) = huffman::extra_run_length(run) {
@@ -195,7 +199,11 @@ fn encode_distance<W: Write>(
             .as_ref()
             .ok_or_else(|| anyhow!("reference but not distance tree"))?;
 
-        into.write_vec(distance_tree[usize::from(code)].as_ref().unwrap())?;
+        into.write_vec(
+            distance_tree[usize::from(code)]
+                .as_ref()
+                .ok_or_else(|| anyhow!("invalid distance"))?,
+        )?;
 
         if bits > 0 {
             into.write_bits_val(bits, val)?;
-- 
2.43.0


From 9bc084740787b42767c4a90725b1d3dbbb2ef455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:07 +0000
Subject: [PATCH 10/11] fix: refuse table bits left over after a dynamic
 block's tables

compressed_block wrote them out, so the stream read back as other codes.
---
 lib/src/serialise.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/serialise.rs b/lib/src/serialise.rs
index 2fd6e2d..644b1c0 100644
--- a/lib/src/serialise.rs
+++ b/lib/src/serialise.rs
@@ -1,6 +1,7 @@
 use std::io::Write;
 
 use anyhow::anyhow;
+use anyhow::ensure;
 use anyhow::Context;
 use anyhow::Error;
 
@@ -78,7 +79,9 @@ pub fn compressed_block<W: Write>(into: &mut BitWriter<W>, block: &Block) -> Res
         } => {
             into.write_bits_val(2, 2)?;
             into.write_vec(trees)?;
-            let (length, distance) = huffman::read_codes(&mut trees.iter())?;
+            let mut bits = trees.iter();
+            let (length, distance) = huffman::read_codes(&mut bits)?;
+            ensure!(bits.next().is_none(), "bits left over after the tables");
             compressed_codes(into, &length, distance.as_ref(), codes)
         }
     }
-- 
2.43.0


From 6257fb0344b7f2a9bc319ccda447cd961d899562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:07 +0000
Subject: [PATCH 11/11] fix: a serialised trace ends only at the end of its
 data

A lone last byte (a record cut short) and a read failing with
UnexpectedEof were taken for the end of the entries.
---
 lib/src/serialise_trace.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/src/serialise_trace.rs b/lib/src/serialise_trace.rs
index d45725f..976f5a8 100644
--- a/lib/src/serialise_trace.rs
+++ b/lib/src/serialise_trace.rs
@@ -66,11 +66,14 @@ pub fn read<R: Read>(mut data: R) -> Result<Vec<Trace>, Error> {
     let mut ret = Vec::new();
 
     loop {
-        let first = match data.read_u16::<LE>() {
-            Ok(first) => first,
-            Err(ref e) if e.kind() == io::ErrorKind::UnexpectedEof => break,
+        let mut low = [0u8];
+        match data.read(&mut low) {
+            Ok(0) => break,
+            Ok(_) => {}
+            Err(ref e) if e.kind() == io::ErrorKind::Interrupted => continue,
             Err(e) => bail!(e),
-        };
+        }
+        let first = u16::from_le_bytes([low[0], data.read_u8()?]);
 
         if 0 == first {
             ret.push(Trace::ActuallyLiteral);
-- 
2.43.0

