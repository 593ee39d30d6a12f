From 8a9afd8f1e67339bda5eb29a8825fb5c2272de4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:33 +0000
Subject: [PATCH 01/41] fix: reject VBR integers that don't fit into 64 bits

read_vbr shifted chunks by 64 bits or more (a panic with overflow checks, a
wrapped value without) and silently dropped bits shifted past bit 63.
---
 llvm-bitcursor/src/error.rs |  4 ++++
 llvm-bitcursor/src/lib.rs   | 11 ++++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/llvm-bitcursor/src/error.rs b/llvm-bitcursor/src/error.rs
index 905a66c..eb286e4 100644
--- a/llvm-bitcursor/src/error.rs
+++ b/llvm-bitcursor/src/error.rs
@@ -25,6 +25,10 @@ pub enum Error {
     #[cfg(any(feature = "vbr", doc))]
     #[error("invalid VBR width (must be > 1 but <= system word width)")]
     InvalidVbrWidth,
+    /// A VBR-encoded integer doesn't fit into 64 bits.
+    #[cfg(any(feature = "vbr", doc))]
+    #[error("VBR-encoded integer doesn't fit into 64 bits")]
+    VbrOverflow,
     /// An I/O operation completed partially, but the inner buffer ended before it full completion.
     #[error("too little data to service request")]
     Short,
diff --git a/llvm-bitcursor/src/lib.rs b/llvm-bitcursor/src/lib.rs
index 70a6d59..1c68a03 100644
--- a/llvm-bitcursor/src/lib.rs
+++ b/llvm-bitcursor/src/lib.rs
@@ -298,7 +298,13 @@ impl<T: AsRef<[u8]>> BitCursor<T> {
             // Read a block, add it to the result (with the potential continuation bit masked off)
             let block = self.read(width)?;
             log::debug!("block: {:#b}, masked: {:#b}", block, block & !block_mask);
-            result |= (block & !block_mask) << shift;
+            let chunk = block & !block_mask;
+
+            // Every bit of the chunk must fit into the (64-bit) result.
+            if (chunk << shift) >> shift != chunk {
+                return Err(Error::VbrOverflow);
+            }
+            result |= chunk << shift;
 
             // If we don't have a continuation bit, then we're done with the VBR.
             let continuation = (block & block_mask) != 0;
@@ -308,6 +314,9 @@ impl<T: AsRef<[u8]>> BitCursor<T> {
 
             // Calculate the shift needed for the next block.
             shift += width - 1;
+            if shift >= u64::BITS as usize {
+                return Err(Error::VbrOverflow);
+            }
         }
 
         Ok(result)
-- 
2.43.0


From 1f97bb35407c79372b7bab1f73b6c5965fba1018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:58 +0000
Subject: [PATCH 02/41] fix: decode the signed VBR encoding of the most
 negative integer

LLVM emits INT64_MIN as the sign bit alone; read_svbr returned 0 for it.
---
 llvm-bitcursor/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/llvm-bitcursor/src/lib.rs b/llvm-bitcursor/src/lib.rs
index 1c68a03..8366701 100644
--- a/llvm-bitcursor/src/lib.rs
+++ b/llvm-bitcursor/src/lib.rs
@@ -334,10 +334,13 @@ impl<T: AsRef<[u8]>> BitCursor<T> {
         let sgn = (result & 1) != 0;
         result >>= 1;
 
-        if sgn {
+        if !sgn {
+            Ok(result as isize)
+        } else if result != 0 {
             Ok(-(result as isize))
         } else {
-            Ok(result as isize)
+            // There's no negative zero: LLVM uses its encoding for the most negative integer.
+            Ok(isize::MIN)
         }
     }
 
-- 
2.43.0


From d74d73ef8c6302baa78ff1bed0315f2581ece8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:58 +0000
Subject: [PATCH 03/41] fix: don't overflow on extreme relative seeks, allow
 seeking to the exact end

Relative offsets were added in i64, which panics (or wraps into a valid
offset) for extreme values; SeekFrom::End(0) was refused although the end is a
valid position.
---
 llvm-bitcursor/src/lib.rs | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/llvm-bitcursor/src/lib.rs b/llvm-bitcursor/src/lib.rs
index 8366701..b34c135 100644
--- a/llvm-bitcursor/src/lib.rs
+++ b/llvm-bitcursor/src/lib.rs
@@ -368,14 +368,12 @@ impl<T: AsRef<[u8]>> BitCursor<T> {
 /// For bit-granular seeking, use [`seek_bit`](BitCursor::seek_bit).
 impl<T: AsRef<[u8]>> io::Seek for BitCursor<T> {
     fn seek(&mut self, pos: io::SeekFrom) -> io::Result<u64> {
-        // Note the ugly as-casting below: we ultimately turn `off` into a
-        // `usize` to make it compatible with indexing (since we always have
-        // a backing buffer), but we first have to round-trip it through i64
-        // for relative seeks.
+        // Relative offsets are resolved in a wider type, so that no combination of
+        // length, position and offset can wrap around.
         let off = match pos {
-            io::SeekFrom::Start(pos) => pos,
+            io::SeekFrom::Start(pos) => pos as i128,
             io::SeekFrom::End(pos) => {
-                if pos >= 0 {
+                if pos > 0 {
                     return Err(io::Error::new(
                         io::ErrorKind::Unsupported,
                         "cannot seek past end",
@@ -383,22 +381,21 @@ impl<T: AsRef<[u8]>> io::Seek for BitCursor<T> {
                 }
 
                 // Seeking backwards from the end is perfectly fine.
-                ((self.byte_len() as i64) + pos) as u64
+                self.byte_len() as i128 + pos as i128
             }
-            io::SeekFrom::Current(pos) => ((self.tell_byte() as i64) + pos) as u64,
-        } as usize;
+            io::SeekFrom::Current(pos) => self.tell_byte() as i128 + pos as i128,
+        };
 
         // Sanity check: we can't seek before or beyond the backing buffer.
         // We can, however, seek to the exact end of the backing buffer, to
         // indicate an EOF condition.
-        // We don't need to check for a negative offset here, since we've cast
-        // back into the land of unsigned integers.
-        if off > self.byte_len() {
+        if off < 0 || off > self.byte_len() as i128 {
             return Err(io::Error::new(
                 io::ErrorKind::InvalidInput,
                 "impossible seek requested",
             ));
         }
+        let off = off as usize;
 
         // Actually update our location.
         self.byte_pos = off;
-- 
2.43.0


From d0c6946ca0991bc958536304958dd30134db8edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:07 +0000
Subject: [PATCH 04/41] fix: align correctly inside a short last block

align32 measured the boundary from the end of the cached block, which is only
right when the block is 32 or 64 bits long: with 5, 6 or 7 bytes left it landed
off the boundary, and could even discard nothing.
---
 llvm-bitcursor/src/lib.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/llvm-bitcursor/src/lib.rs b/llvm-bitcursor/src/lib.rs
index b34c135..b918e68 100644
--- a/llvm-bitcursor/src/lib.rs
+++ b/llvm-bitcursor/src/lib.rs
@@ -49,6 +49,10 @@ pub struct BitCursor<T: AsRef<[u8]>> {
     /// The number of bits in `current_block` that are valid (i.e., not
     /// yet consumed).
     bit_index: usize,
+
+    /// The number of bits that were loaded into `current_block`, which is
+    /// fewer than its capacity at the end of the data.
+    block_bits: usize,
 }
 
 impl<T: AsRef<[u8]>> BitCursor<T> {
@@ -64,6 +68,7 @@ impl<T: AsRef<[u8]>> BitCursor<T> {
             byte_pos: 0,
             current_block: 0,
             bit_index: 0,
+            block_bits: 0,
         }
     }
 
@@ -81,6 +86,7 @@ impl<T: AsRef<[u8]>> BitCursor<T> {
             byte_pos: 0,
             current_block: 0,
             bit_index: 0,
+            block_bits: 0,
         })
     }
 
@@ -154,6 +160,7 @@ impl<T: AsRef<[u8]>> BitCursor<T> {
     fn clear_block_state(&mut self) {
         self.current_block = 0;
         self.bit_index = 0;
+        self.block_bits = 0;
     }
 
     /// Fill the internal block state, updating our cursor position in the process.
@@ -188,6 +195,7 @@ impl<T: AsRef<[u8]>> BitCursor<T> {
 
         // We have this many valid bits in the current block.
         self.bit_index = block_bytes.len() * 8;
+        self.block_bits = self.bit_index;
 
         log::debug!(
             "load_current_block finished: current_block={}, bit_index={}",
@@ -350,9 +358,14 @@ impl<T: AsRef<[u8]>> BitCursor<T> {
     pub fn align32(&mut self) {
         log::debug!("aligning the cursor");
 
-        if self.bit_index >= 32 {
-            self.current_block >>= self.bit_index - 32;
-            self.bit_index = 32;
+        // Round our position within the current block up to the next boundary. Boundaries are
+        // measured from the start of the block, since the last one can be shorter than 64 bits.
+        let consumed = self.block_bits - self.bit_index;
+        let discard = (consumed + 31) / 32 * 32 - consumed;
+
+        if discard < self.bit_index {
+            self.current_block >>= discard;
+            self.bit_index -= discard;
         } else {
             self.clear_block_state();
         }
-- 
2.43.0


From 20e2b6c7f89b056f92599efe0570b753fc856d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:39 +0000
Subject: [PATCH 05/41] fix: refuse misplaced arrays and literal array elements
 in abbreviations

An array as the only operand underflowed the operand count (a panic with
overflow checks); the literal flag of an array's element was ignored, so the
literal's value was parsed as an encoding.
---
 llvm-bitstream/src/abbrev.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/llvm-bitstream/src/abbrev.rs b/llvm-bitstream/src/abbrev.rs
index e7293f7..fb3374c 100644
--- a/llvm-bitstream/src/abbrev.rs
+++ b/llvm-bitstream/src/abbrev.rs
@@ -174,7 +174,7 @@ impl Abbrev {
                 AbbrevOpEnc::Array => {
                     // There is only ever one array operand in an abbreviation definition,
                     // and it is always the second-to-last operand. Anything else is an error.
-                    if idx != num_abbrev_opnds - 2 {
+                    if idx + 2 != num_abbrev_opnds {
                         return Err(Error::AbbrevParse("array operand at invalid index".into()));
                     }
 
@@ -183,7 +183,11 @@ impl Abbrev {
                     // `done_early` to indicate that we're done with operand parsing.
                     // This works since array operands are guaranteed to be second-to-last,
                     // followed only by their element operand encoding.
-                    cur.read(1)?;
+                    if cur.read(1)? == 1 {
+                        return Err(Error::AbbrevParse(
+                            "array element cannot be a literal".into(),
+                        ));
+                    }
                     let elem_enc: AbbrevOpEnc = cur.read(3)?.try_into()?;
                     done_early = true;
 
-- 
2.43.0


From 6780e9763ea2f1ab6761f7a3b5b2cffc8ad0ffe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 06/41] fix: report an error for a SETBID record without
 operands

It was indexed without a check, so such a stream panicked the parser.
---
 llvm-bitstream/src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/llvm-bitstream/src/parser.rs b/llvm-bitstream/src/parser.rs
index a92a88a..9ee0c3c 100644
--- a/llvm-bitstream/src/parser.rs
+++ b/llvm-bitstream/src/parser.rs
@@ -332,7 +332,10 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
             let code: BlockInfoCode = record.code.try_into()?;
             match code {
                 BlockInfoCode::SetBid => {
-                    let block_id: u64 = record.fields[0];
+                    let block_id: u64 = *record
+                        .fields
+                        .first()
+                        .ok_or_else(|| Error::StreamParse("SETBID without a block ID".into()))?;
                     log::debug!("SETBID: BLOCKINFO block ID is now {}", block_id);
                     self.scope_mut().set_blockinfo_block_id(block_id)?;
                 }
-- 
2.43.0


From ab475af8cb6e6b61f8fb8c73c18d2fb6a42209f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 07/41] fix: report an error for an abbreviated record without
 a code

An abbreviation whose only operand is an empty array or blob yields no fields,
and taking the code from them panicked.
---
 llvm-bitstream/src/parser.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/llvm-bitstream/src/parser.rs b/llvm-bitstream/src/parser.rs
index 9ee0c3c..a143d22 100644
--- a/llvm-bitstream/src/parser.rs
+++ b/llvm-bitstream/src/parser.rs
@@ -364,8 +364,12 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
         let mut fields = abbrev.parse(&mut self.cursor)?;
         log::debug!("parsed fields: {:?}", fields);
 
-        // Panic safety: every abbrev contains at least one operand, so this cannot panic.
-        // We also expect the first operand to always be a u64, indicating the record code.
+        // We expect the first operand to always be a u64, indicating the record code.
+        // Every abbrev contains at least one operand, but that operand can be an empty
+        // array or blob.
+        if fields.is_empty() {
+            return Err(Error::StreamParse("abbreviated record has no code".into()));
+        }
         let code: u64 = fields.remove(0);
 
         if self.scope().is_blockinfo() {
-- 
2.43.0


From 35ef2ef5c20166baafd3b24d7f20a990983cfe7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:44 +0000
Subject: [PATCH 08/41] fix: don't allocate for record lengths that the stream
 merely claims

A few bytes claiming a huge operand count, array or blob length panicked with a
capacity overflow or aborted the process.
---
 llvm-bitstream/src/abbrev.rs | 9 ++++-----
 llvm-bitstream/src/parser.rs | 3 ++-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/llvm-bitstream/src/abbrev.rs b/llvm-bitstream/src/abbrev.rs
index fb3374c..632076a 100644
--- a/llvm-bitstream/src/abbrev.rs
+++ b/llvm-bitstream/src/abbrev.rs
@@ -75,10 +75,10 @@ impl AbbrevOp {
             AbbrevOp::Array(elem) => {
                 // An array operand is encoded as a length (VBR6), followed by
                 // each encoded element of the array.
-                // TODO(ww): Sanity check array_len here.
+                // NOTE: The length comes from the stream, so it's no basis for an allocation.
                 let array_len = cur.read_vbr(6)? as usize;
 
-                let mut fields: Fields = Vec::with_capacity(array_len);
+                let mut fields: Fields = vec![];
                 for _ in 0..array_len {
                     fields.extend(elem.parse(cur)?);
                 }
@@ -90,15 +90,14 @@ impl AbbrevOp {
                 // A blob operand is encoded as a length (VBR6), followed by a 32-bit aligned
                 // sequence of bytes, followed by another alignment back to 32 bits.
 
-                // TODO(ww): Sanity check blob_len here: it probably shouldn't be 0,
-                // and it definitely can't be longer than the stream.
+                // NOTE: The length comes from the stream, so it's no basis for an allocation.
                 let blob_len = cur.read_vbr(6)? as usize;
                 cur.align32();
 
                 // TODO(ww): This read loop is probably slower than it needs to be;
                 // `BitCursor` could probably learn a `read_bytes` API that's
                 // only allowed when the stream is byte-aligned.
-                let mut fields: Fields = Vec::with_capacity(blob_len);
+                let mut fields: Fields = vec![];
                 for _ in 0..blob_len {
                     fields.push(cur.read_exact::<u8>()?.into());
                 }
diff --git a/llvm-bitstream/src/parser.rs b/llvm-bitstream/src/parser.rs
index a143d22..56723f9 100644
--- a/llvm-bitstream/src/parser.rs
+++ b/llvm-bitstream/src/parser.rs
@@ -322,7 +322,8 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
 
         log::debug!("unabbrev record code={}, num_opnds={}", code, num_opnds);
 
-        let mut fields: Fields = Vec::with_capacity(num_opnds as usize);
+        // NOTE: The operand count comes from the stream, so it's no basis for an allocation.
+        let mut fields: Fields = vec![];
         for _ in 0..num_opnds {
             fields.push(self.cursor.read_vbr(6)?);
         }
-- 
2.43.0


From 38d400813cc887581a2313ae41e5c3c88e38d788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:17 +0000
Subject: [PATCH 09/41] fix: don't recurse for each entry that the stream
 parser skips

Every DEFINE_ABBREV and BLOCKINFO entry cost a stack frame (unoptimised tail
calls), so a stream with enough of them overflowed the stack.
---
 llvm-bitstream/src/parser.rs | 78 +++++++++++++++++-------------------
 1 file changed, 36 insertions(+), 42 deletions(-)

diff --git a/llvm-bitstream/src/parser.rs b/llvm-bitstream/src/parser.rs
index 56723f9..b38ddd2 100644
--- a/llvm-bitstream/src/parser.rs
+++ b/llvm-bitstream/src/parser.rs
@@ -390,51 +390,45 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
     /// [`Error::Exhausted`](Error::Exhausted) if the bitstream has
     /// been fully consumed.
     pub fn advance(&mut self) -> Result<StreamEntry, Error> {
-        if self.cursor.exhausted() {
-            return Err(Error::Exhausted);
-        }
+        // NOTE: Streams can contain arbitrarily many parse details that a stream consumer
+        // shouldn't have to be aware of (such as abbrev definitions and the BLOCKINFO block)
+        // between two entries, so this is a loop rather than a recursive call for each of them.
+        loop {
+            if self.cursor.exhausted() {
+                return Err(Error::Exhausted);
+            }
 
-        log::debug!(
-            "advancing, current scope: {:?} @ bit position {}",
-            self.scope(),
-            self.cursor.tell_bit()
-        );
+            log::debug!(
+                "advancing, current scope: {:?} @ bit position {}",
+                self.scope(),
+                self.cursor.tell_bit()
+            );
+
+            // To return the next stream entry, we read the next abbreviation ID using
+            // our current width. The abbreviation ID we read determines our subsequent
+            // parse strategy and the kind of entry we return.
+            let id: abbrev::AbbrevId = self
+                .cursor
+                .read(self.scope().abbrev_id_width() as usize)?
+                .into();
+            log::debug!("next entry ID: {:?}", id);
+
+            let entry = match id {
+                AbbrevId::Reserved(ReservedAbbrevId::EndBlock) => self.exit_block()?,
+                AbbrevId::Reserved(ReservedAbbrevId::EnterSubBlock) => self.enter_block()?,
+                AbbrevId::Reserved(ReservedAbbrevId::DefineAbbrev) => {
+                    // DEFINE_ABBREV is always a parse detail, so we don't even bother
+                    // trying to return a StreamEntry for it.
+                    self.define_abbrev()?;
+                    None
+                }
+                AbbrevId::Reserved(ReservedAbbrevId::UnabbrevRecord) => self.parse_unabbrev()?,
+                AbbrevId::Defined(abbrev_id) => self.parse_with_abbrev(abbrev_id)?,
+            };
 
-        // To return the next stream entry, we read the next abbreviation ID using
-        // our current width. The abbreviation ID we read determines our subsequent
-        // parse strategy and the kind of entry we return.
-        let id: abbrev::AbbrevId = self
-            .cursor
-            .read(self.scope().abbrev_id_width() as usize)?
-            .into();
-        log::debug!("next entry ID: {:?}", id);
-
-        // NOTE(ww): The strange `map` + `unwrap_or_else` pattern below is to keep the parser
-        // generalized without having to return `StreamEntries` that correspond to
-        // parse details that a stream consumer shouldn't have to be aware of
-        // (such as abbrev definitions and the BLOCKINFO block).
-        match id {
-            AbbrevId::Reserved(ReservedAbbrevId::EndBlock) => {
-                self.exit_block()?.map(Ok).unwrap_or_else(|| self.advance())
-            }
-            AbbrevId::Reserved(ReservedAbbrevId::EnterSubBlock) => self
-                .enter_block()?
-                .map(Ok)
-                .unwrap_or_else(|| self.advance()),
-            AbbrevId::Reserved(ReservedAbbrevId::DefineAbbrev) => {
-                // DEFINE_ABBREV is always a parse detail, so we don't even bother
-                // trying to return a StreamEntry for it.
-                self.define_abbrev()?;
-                self.advance()
+            if let Some(entry) = entry {
+                return Ok(entry);
             }
-            AbbrevId::Reserved(ReservedAbbrevId::UnabbrevRecord) => self
-                .parse_unabbrev()?
-                .map(Ok)
-                .unwrap_or_else(|| self.advance()),
-            AbbrevId::Defined(abbrev_id) => self
-                .parse_with_abbrev(abbrev_id)?
-                .map(Ok)
-                .unwrap_or_else(|| self.advance()),
         }
     }
 }
-- 
2.43.0


From 57019e63a2cb8a369cede63ac35a4cfb8bf9d5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:18 +0000
Subject: [PATCH 10/41] fix: honour the offset of the bitcode wrapper header

The end of the payload was computed as if it always followed the 20-byte header,
so with any other offset the parse lost the end of the payload (or, with padding,
was refused for its length). The length check also applies to the payload alone.
---
 llvm-bitstream/src/lib.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/llvm-bitstream/src/lib.rs b/llvm-bitstream/src/lib.rs
index 8b68c61..b4edefc 100644
--- a/llvm-bitstream/src/lib.rs
+++ b/llvm-bitstream/src/lib.rs
@@ -52,7 +52,7 @@ impl<T: AsRef<[u8]>> Bitstream<T> {
         // This isn't documented anywhere, but LLVM's BitcodeReader requires
         // all inputs to be 4-byte aligned.
         // See: `llvm::initStream` in `Bitcode/Reader/BitcodeReader.cpp`.
-        if cur.byte_len() % 4 != 0 {
+        if (cur.byte_len() - cur.tell_byte()) % 4 != 0 {
             return Err(Error::BadContainer("input is not 4-byte aligned".into()));
         }
 
@@ -120,10 +120,12 @@ impl<T: AsRef<[u8]>> Bitstream<T> {
         // NOTE(ww): The `new_with_len` API is a little bit silly -- ideally we'd just
         // take a slice of `inner` and create a new `BitCursor` with it, but we can't do
         // that while preserving the generic `T` bound.
-        // The manual fixup (+ 20) is another artifact of this -- we keep the wrapper header
-        // in the new cursor to make the offsets more intelligible, which means that we
+        // The addition of the offset is another artifact of this -- we keep everything before the
+        // bitstream in the new cursor to make the offsets more intelligible, which means that we
         // also need to extend the end of our cursor's buffer.
-        let actual_length = (wrapper.size as usize) + 20;
+        let actual_length = (wrapper.size as usize)
+            .checked_add(wrapper.offset as usize)
+            .ok_or_else(|| Error::BadContainer("impossible wrapper offset and size".into()))?;
         let mut cur = BitCursor::new_with_len(inner, actual_length)?;
 
         cur.seek(SeekFrom::Start(wrapper.offset.into()))
-- 
2.43.0


From 24cc9db1c858af86f36bd34c01d3c59ef58534a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:20 +0000
Subject: [PATCH 11/41] fix: treat zero-width abbreviation operands as literal
 zeroes

LLVM writers emit fixed(0) operands (e.g. for a module without sections or with
a single type) and its reader decodes them as zero; ours failed to read them.
---
 llvm-bitstream/src/abbrev.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/llvm-bitstream/src/abbrev.rs b/llvm-bitstream/src/abbrev.rs
index 632076a..debb449 100644
--- a/llvm-bitstream/src/abbrev.rs
+++ b/llvm-bitstream/src/abbrev.rs
@@ -168,8 +168,15 @@ impl Abbrev {
             // operand encoding includes extra data.
             let enc: AbbrevOpEnc = cur.read(3)?.try_into()?;
             let opnd = match enc {
-                AbbrevOpEnc::Fixed => AbbrevOp::Fixed(cur.read_vbr(5)?),
-                AbbrevOpEnc::Vbr => AbbrevOp::Vbr(cur.read_vbr(5)?),
+                // Like LLVM, we treat operands without any bits as literal zeroes.
+                AbbrevOpEnc::Fixed => match cur.read_vbr(5)? {
+                    0 => AbbrevOp::Literal(0),
+                    width => AbbrevOp::Fixed(width),
+                },
+                AbbrevOpEnc::Vbr => match cur.read_vbr(5)? {
+                    0 => AbbrevOp::Literal(0),
+                    width => AbbrevOp::Vbr(width),
+                },
                 AbbrevOpEnc::Array => {
                     // There is only ever one array operand in an abbreviation definition,
                     // and it is always the second-to-last operand. Anything else is an error.
-- 
2.43.0


From cd4ebf167a9c326b099771e28588febbdfce2fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:37 +0000
Subject: [PATCH 12/41] fix: interpret abbreviated records in BLOCKINFO

A SETBID record encoded with an abbreviation was skipped, so the abbreviations
after it were registered for the wrong block.
---
 llvm-bitstream/src/parser.rs | 47 ++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/llvm-bitstream/src/parser.rs b/llvm-bitstream/src/parser.rs
index b38ddd2..16f3a32 100644
--- a/llvm-bitstream/src/parser.rs
+++ b/llvm-bitstream/src/parser.rs
@@ -330,28 +330,35 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
 
         let record = Record::from_unabbrev(code, fields);
         if self.scope().is_blockinfo() {
-            let code: BlockInfoCode = record.code.try_into()?;
-            match code {
-                BlockInfoCode::SetBid => {
-                    let block_id: u64 = *record
-                        .fields
-                        .first()
-                        .ok_or_else(|| Error::StreamParse("SETBID without a block ID".into()))?;
-                    log::debug!("SETBID: BLOCKINFO block ID is now {}", block_id);
-                    self.scope_mut().set_blockinfo_block_id(block_id)?;
-                }
-                BlockInfoCode::BlockName => log::debug!("skipping BLOCKNAME code in BLOCKINFO"),
-                BlockInfoCode::SetRecordName => {
-                    log::debug!("skipping SETRECORDNAME code in BLOCKINFO")
-                }
-                o => log::debug!("skipping unsupported record {:?} in BLOCKINFO", o),
-            };
+            self.interpret_blockinfo(&record)?;
             return Ok(None);
         }
 
         Ok(Some(StreamEntry::Record(record)))
     }
 
+    /// Interpret a record within a `BLOCKINFO` block, however it was encoded.
+    fn interpret_blockinfo(&mut self, record: &Record) -> Result<(), Error> {
+        let code: BlockInfoCode = record.code.try_into()?;
+        match code {
+            BlockInfoCode::SetBid => {
+                let block_id: u64 = *record
+                    .fields
+                    .first()
+                    .ok_or_else(|| Error::StreamParse("SETBID without a block ID".into()))?;
+                log::debug!("SETBID: BLOCKINFO block ID is now {}", block_id);
+                self.scope_mut().set_blockinfo_block_id(block_id)?;
+            }
+            BlockInfoCode::BlockName => log::debug!("skipping BLOCKNAME code in BLOCKINFO"),
+            BlockInfoCode::SetRecordName => {
+                log::debug!("skipping SETRECORDNAME code in BLOCKINFO")
+            }
+            o => log::debug!("skipping unsupported record {:?} in BLOCKINFO", o),
+        };
+
+        Ok(())
+    }
+
     /// Interpret a record using its corresponding abbreviation definition.
     fn parse_with_abbrev(&mut self, abbrev_id: u64) -> Result<Option<StreamEntry>, Error> {
         // To parse a record according to an abbreviation definition, we
@@ -373,15 +380,13 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
         }
         let code: u64 = fields.remove(0);
 
+        let record = Record::from_abbrev(abbrev_id, code, fields);
         if self.scope().is_blockinfo() {
+            self.interpret_blockinfo(&record)?;
             return Ok(None);
         }
 
-        Ok(Some(StreamEntry::Record(Record {
-            abbrev_id: Some(abbrev_id),
-            code: code,
-            fields: fields,
-        })))
+        Ok(Some(StreamEntry::Record(record)))
     }
 
     /// Return the next [`StreamEntry`](StreamEntry) in this bitstream.
-- 
2.43.0


From 7bb97e7cd261624a71e6d20f2303471b402fa5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:58 +0000
Subject: [PATCH 13/41] fix: limit the depth of nested blocks when unrolling

Unrolling recurses into each nested block (as does dropping the result), so a
stream with enough of them overflowed the stack.
---
 llvm-mapper/src/unroll.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/llvm-mapper/src/unroll.rs b/llvm-mapper/src/unroll.rs
index 614ccd0..91b02b7 100644
--- a/llvm-mapper/src/unroll.rs
+++ b/llvm-mapper/src/unroll.rs
@@ -15,6 +15,11 @@ use crate::error::Error;
 use crate::map::PartialMapCtx;
 use crate::record::{RecordBlobError, RecordStringError};
 
+/// The maximum depth of nested blocks that we're willing to unroll.
+///
+/// Real bitcode nests only a handful of blocks.
+const MAX_BLOCK_DEPTH: usize = 128;
+
 /// An "unrolled" record. This is internally indistinguishable from a raw bitstream
 /// [`Record`](llvm_bitstream::record::Record), but is newtyped to enforce proper
 /// isolation of concerns.
@@ -266,7 +271,12 @@ impl<T: AsRef<[u8]>> TryFrom<Bitstream<T>> for Bitcode {
         fn enter_block<T: AsRef<[u8]>>(
             bitstream: &mut Bitstream<T>,
             block: BsBlock,
+            depth: usize,
         ) -> Result<Block, Error> {
+            if depth > MAX_BLOCK_DEPTH {
+                return Err(Error::Unroll("blocks are nested too deeply".into()));
+            }
+
             let mut unrolled_block = Block::new(block.block_id);
 
             // Once we're in a block, we do the following:
@@ -283,7 +293,7 @@ impl<T: AsRef<[u8]>> TryFrom<Bitstream<T>> for Bitcode {
                 match entry? {
                     StreamEntry::Record(record) => unrolled_block.records.0.push(Record(record)),
                     StreamEntry::SubBlock(block) => {
-                        let unrolled_child = enter_block(bitstream, block)?;
+                        let unrolled_child = enter_block(bitstream, block, depth + 1)?;
                         unrolled_block
                             .blocks
                             .0
@@ -325,7 +335,7 @@ impl<T: AsRef<[u8]>> TryFrom<Bitstream<T>> for Bitcode {
                     Error::Unroll("bitstream has non-blocks at the top-level scope".into())
                 })?;
 
-                enter_block(&mut bitstream, block)?
+                enter_block(&mut bitstream, block, 1)?
             };
 
             // Our top-level block can be one of four cases, if it's valid.
-- 
2.43.0


From 9c5c4518e4267799ffe4c55289b57ca7bb129dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:12 +0000
Subject: [PATCH 14/41] fix: accept one-character and empty strings and blobs
 in whole-record strings

Names, triples, section and GC names, producer strings, string tables and
other records that consist of a string or blob were refused when they had
fewer than two characters, and a record without fields underflowed.
---
 llvm-mapper/src/block/identification.rs |  2 +-
 llvm-mapper/src/block/module.rs         | 10 +++++-----
 llvm-mapper/src/block/strtab.rs         |  2 +-
 llvm-mapper/src/block/symtab.rs         |  2 +-
 llvm-mapper/src/block/type_table.rs     |  3 ++-
 llvm-mapper/src/record/datalayout.rs    |  2 +-
 llvm-mapper/src/unroll.rs               | 26 +++++++++++++++++++++----
 7 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/llvm-mapper/src/block/identification.rs b/llvm-mapper/src/block/identification.rs
index 3dc1074..fa94a86 100644
--- a/llvm-mapper/src/block/identification.rs
+++ b/llvm-mapper/src/block/identification.rs
@@ -47,7 +47,7 @@ impl TryFrom<&'_ Block> for Identification {
             .one(IdentificationCode::ProducerString as u64)
             .ok_or(IdentificationError::MissingProducer)
             .and_then(|r| {
-                r.try_string(0)
+                r.try_whole_string()
                     .map_err(|_| IdentificationError::BadProducer)
             })?;
 
diff --git a/llvm-mapper/src/block/module.rs b/llvm-mapper/src/block/module.rs
index 40dfd8f..cf2b936 100644
--- a/llvm-mapper/src/block/module.rs
+++ b/llvm-mapper/src/block/module.rs
@@ -104,7 +104,7 @@ impl TryFrom<(&'_ Block, &'_ mut PartialMapCtx)> for Module {
         ctx.section_table = block
             .records
             .by_code(ModuleCode::SectionName)
-            .map(|rec| rec.try_string(0))
+            .map(|rec| rec.try_whole_string())
             .collect::<Result<Vec<_>, _>>()
             .map_err(MapError::RecordString)?;
 
@@ -112,7 +112,7 @@ impl TryFrom<(&'_ Block, &'_ mut PartialMapCtx)> for Module {
         ctx.gc_table = block
             .records
             .by_code(ModuleCode::GcName)
-            .map(|rec| rec.try_string(0))
+            .map(|rec| rec.try_whole_string())
             .collect::<Result<Vec<_>, _>>()
             .map_err(MapError::RecordString)?;
 
@@ -173,7 +173,7 @@ impl TryFrom<(&'_ Block, &'_ mut PartialMapCtx)> for Module {
             .one_or_none(ModuleCode::Triple)
             .map_err(MapError::Inconsistent)?
         {
-            Some(record) => record.try_string(0).map_err(MapError::RecordString)?,
+            Some(record) => record.try_whole_string().map_err(MapError::RecordString)?,
             None => TARGET_TRIPLE.into(),
         };
 
@@ -185,7 +185,7 @@ impl TryFrom<(&'_ Block, &'_ mut PartialMapCtx)> for Module {
         {
             None => Vec::new(),
             Some(record) => record
-                .try_string(0)
+                .try_whole_string()
                 .map_err(MapError::RecordString)?
                 .split('\n')
                 .map(String::from)
@@ -196,7 +196,7 @@ impl TryFrom<(&'_ Block, &'_ mut PartialMapCtx)> for Module {
         let deplibs = block
             .records
             .by_code(ModuleCode::DepLib)
-            .map(|rec| rec.try_string(0))
+            .map(|rec| rec.try_whole_string())
             .collect::<Result<Vec<_>, _>>()
             .map_err(MapError::RecordString)?;
 
diff --git a/llvm-mapper/src/block/strtab.rs b/llvm-mapper/src/block/strtab.rs
index 8b1548f..b21816a 100644
--- a/llvm-mapper/src/block/strtab.rs
+++ b/llvm-mapper/src/block/strtab.rs
@@ -57,7 +57,7 @@ impl TryFrom<&'_ Block> for Strtab {
             .records
             .one(StrtabCode::Blob as u64)
             .ok_or(StrtabError::MissingBlob)
-            .and_then(|r| r.try_blob(0).map_err(StrtabError::from))?;
+            .and_then(|r| r.try_whole_blob().map_err(StrtabError::from))?;
 
         Ok(Self(strtab))
     }
diff --git a/llvm-mapper/src/block/symtab.rs b/llvm-mapper/src/block/symtab.rs
index 96c3779..4520f54 100644
--- a/llvm-mapper/src/block/symtab.rs
+++ b/llvm-mapper/src/block/symtab.rs
@@ -46,7 +46,7 @@ impl TryFrom<&'_ Block> for Symtab {
             .records
             .one(SymtabCode::Blob as u64)
             .ok_or(SymtabError::MissingBlob)
-            .and_then(|r| r.try_blob(0).map_err(SymtabError::from))?;
+            .and_then(|r| r.try_whole_blob().map_err(SymtabError::from))?;
 
         Ok(Self(symtab))
     }
diff --git a/llvm-mapper/src/block/type_table.rs b/llvm-mapper/src/block/type_table.rs
index 3ffdaa9..3454c13 100644
--- a/llvm-mapper/src/block/type_table.rs
+++ b/llvm-mapper/src/block/type_table.rs
@@ -442,7 +442,8 @@ impl TryFrom<&'_ Block> for TypeTable {
                 TypeCode::StructName => {
                     // A `TYPE_CODE_STRUCT_NAME` is not a type in its own right; it merely
                     // supplies the name for a future type record.
-                    last_type_name.push_str(&record.try_string(0).map_err(MapError::RecordString)?);
+                    last_type_name
+                        .push_str(&record.try_whole_string().map_err(MapError::RecordString)?);
                     continue;
                 }
                 TypeCode::StructNamed => {
diff --git a/llvm-mapper/src/record/datalayout.rs b/llvm-mapper/src/record/datalayout.rs
index ec771eb..5d55d8c 100644
--- a/llvm-mapper/src/record/datalayout.rs
+++ b/llvm-mapper/src/record/datalayout.rs
@@ -259,7 +259,7 @@ impl PartialCtxMappable<Record> for DataLayout {
     type Error = DataLayoutError;
 
     fn try_map(record: &Record, _ctx: &mut PartialMapCtx) -> Result<Self, Self::Error> {
-        let datalayout = record.try_string(0)?;
+        let datalayout = record.try_whole_string()?;
         datalayout.parse::<Self>()
     }
 }
diff --git a/llvm-mapper/src/unroll.rs b/llvm-mapper/src/unroll.rs
index 91b02b7..10dee6f 100644
--- a/llvm-mapper/src/unroll.rs
+++ b/llvm-mapper/src/unroll.rs
@@ -39,12 +39,21 @@ impl Record {
     pub fn try_string(&self, idx: usize) -> Result<String, RecordStringError> {
         // If our start index lies beyond the record fields or would produce
         // an empty string, it's invalid.
-        if idx >= self.0.fields.len() - 1 {
+        if idx + 1 >= self.0.fields.len() {
             return Err(RecordStringError::BadIndex(idx, self.0.fields.len()));
         }
 
+        Self::decode_string(&self.0.fields[idx..])
+    }
+
+    /// Attempt to interpret all of this record's fields as a UTF-8 string, which can be empty.
+    pub(crate) fn try_whole_string(&self) -> Result<String, RecordStringError> {
+        Self::decode_string(&self.0.fields)
+    }
+
+    fn decode_string(fields: &[u64]) -> Result<String, RecordStringError> {
         // Each individual field in our string must fit into a byte.
-        let raw = self.0.fields[idx..]
+        let raw = fields
             .iter()
             .map(|f| u8::try_from(*f))
             .collect::<Result<Vec<_>, _>>()?;
@@ -59,12 +68,21 @@ impl Record {
     pub fn try_blob(&self, idx: usize) -> Result<Vec<u8>, RecordBlobError> {
         // If our start index lies beyond the record fields or would produce
         // an empty string, it's invalid.
-        if idx >= self.0.fields.len() - 1 {
+        if idx + 1 >= self.0.fields.len() {
             return Err(RecordBlobError::BadIndex(idx, self.0.fields.len()));
         }
 
+        Self::decode_blob(&self.0.fields[idx..])
+    }
+
+    /// Attempt to interpret all of this record's fields as a blob of bytes, which can be empty.
+    pub(crate) fn try_whole_blob(&self) -> Result<Vec<u8>, RecordBlobError> {
+        Self::decode_blob(&self.0.fields)
+    }
+
+    fn decode_blob(fields: &[u64]) -> Result<Vec<u8>, RecordBlobError> {
         // Each individual field in our blob must fit into a byte.
-        Ok(self.0.fields[idx..]
+        Ok(fields
             .iter()
             .map(|f| u8::try_from(*f))
             .collect::<Result<Vec<_>, _>>()?)
-- 
2.43.0


From df96155bb70bb0ec220bb4652f4612e8e23aa216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:30 +0000
Subject: [PATCH 15/41] fix: don't overflow on string table references past the
 end of memory

---
 llvm-mapper/src/block/strtab.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/llvm-mapper/src/block/strtab.rs b/llvm-mapper/src/block/strtab.rs
index b21816a..025fdb2 100644
--- a/llvm-mapper/src/block/strtab.rs
+++ b/llvm-mapper/src/block/strtab.rs
@@ -79,13 +79,17 @@ impl Strtab {
     pub fn try_get(&self, sref: &StrtabRef) -> Result<&str, StrtabError> {
         let inner = self.as_ref();
 
-        if sref.size == 0 || sref.offset >= inner.len() || sref.offset + sref.size > inner.len() {
+        if sref.size == 0 {
             return Err(StrtabError::BadRange);
         }
 
-        Ok(std::str::from_utf8(
-            &inner[sref.offset..sref.offset + sref.size],
-        )?)
+        let raw = sref
+            .offset
+            .checked_add(sref.size)
+            .and_then(|end| inner.get(sref.offset..end))
+            .ok_or(StrtabError::BadRange)?;
+
+        Ok(std::str::from_utf8(raw)?)
     }
 
     /// Attempts to read a record's name from the string table.
-- 
2.43.0


From 0889a51f839ab82d734b805162293939ac8dc92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:32 +0000
Subject: [PATCH 16/41] fix: don't panic on an attribute whose string value is
 missing

---
 llvm-mapper/src/block/attributes.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index ad39a9c..964bcff 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -393,7 +393,10 @@ impl Attribute {
         macro_rules! take_string {
             // NOTE(ww): Weird double-brace to make sure the macro expands as a full expression.
             () => {{
-                let str_bytes = record.fields()[start + fieldcount..]
+                let str_bytes = record
+                    .fields()
+                    .get(start + fieldcount..)
+                    .ok_or(AttributeError::TooShort)?
                     .iter()
                     .take_while(|f| **f != 0)
                     .map(|f| u8::try_from(*f))
-- 
2.43.0


From 4cdb98ffabfa27e4ec78bb9a3ea8f10790b0ade0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:46 +0000
Subject: [PATCH 17/41] fix: report unsupported records as errors instead of
 panicking

Function blocks and old attribute entries hit todo!() or unimplemented!(),
and a function's claimed number of basic blocks was allocated up-front.
---
 llvm-mapper/src/block/attributes.rs   |   5 +-
 llvm-mapper/src/block/function/mod.rs | 101 ++++++++++++++------------
 2 files changed, 59 insertions(+), 47 deletions(-)

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index 964bcff..99bd606 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -478,7 +478,10 @@ impl TryFrom<(&'_ Block, &'_ PartialMapCtx)> for Attributes {
 
             match code {
                 AttributeCode::EntryOld => {
-                    unimplemented!();
+                    return Err(MapError::Unsupported(
+                        "old parameter attribute entries; please implement!".into(),
+                    )
+                    .into());
                 }
                 AttributeCode::Entry => {
                     let mut groups = vec![];
diff --git a/llvm-mapper/src/block/function/mod.rs b/llvm-mapper/src/block/function/mod.rs
index 605ede3..c22509c 100644
--- a/llvm-mapper/src/block/function/mod.rs
+++ b/llvm-mapper/src/block/function/mod.rs
@@ -58,7 +58,7 @@ impl TryFrom<(&'_ Block, &'_ MapCtx<'_>)> for Function {
         // TODO: Handle each `MODULE_CODE_FUNCTION`'s sub-blocks.
 
         // A function block should have exactly one DECLAREBLOCKS record.
-        let nblocks = {
+        let _nblocks = {
             let declareblocks = block
                 .records
                 .exactly_one(FunctionCode::DeclareBlocks)
@@ -72,7 +72,7 @@ impl TryFrom<(&'_ Block, &'_ MapCtx<'_>)> for Function {
 
         // Like the type table, we need a little bit of a state machine to
         // construct each function's basic blocks and constituent instructions.
-        let mut _bbs: Vec<BasicBlock> = Vec::with_capacity(nblocks as usize);
+        let mut _bbs: Vec<BasicBlock> = Vec::new();
         let mut _bb = BasicBlock::default();
 
         for record in block.records.into_iter() {
@@ -90,6 +90,15 @@ impl TryFrom<(&'_ Block, &'_ MapCtx<'_>)> for Function {
                 };
             }
 
+            macro_rules! unsupported {
+                () => {
+                    return Err(MapError::Unsupported(format!(
+                        "function record: {code:?}; please implement!"
+                    ))
+                    .into())
+                };
+            }
+
             macro_rules! get_type {
                 ($ty:ident) => {
                     // TODO: This is wrong; the lookup here needs to be
@@ -116,11 +125,11 @@ impl TryFrom<(&'_ Block, &'_ MapCtx<'_>)> for Function {
                 FunctionCode::DeclareBlocks => continue,
 
                 // Operand bundles.
-                FunctionCode::OperandBundle => unimplemented!(),
+                FunctionCode::OperandBundle => unsupported!(),
 
                 // Debug state.
-                FunctionCode::DebugLoc => unimplemented!(),
-                FunctionCode::DebugLocAgain => unimplemented!(),
+                FunctionCode::DebugLoc => unsupported!(),
+                FunctionCode::DebugLocAgain => unsupported!(),
 
                 // The big one: all instructions.
                 FunctionCode::InstBinop => {
@@ -133,18 +142,18 @@ impl TryFrom<(&'_ Block, &'_ MapCtx<'_>)> for Function {
                     // [opval, opty, destty, castopc]
                     let [_opval, _opty, _destty, _castopc] = unpack_fields!(4)?;
                 }
-                FunctionCode::InstGepOld => todo!(),
-                FunctionCode::InstSelect => todo!(),
-                FunctionCode::InstExtractelt => todo!(),
-                FunctionCode::InstInsertelt => todo!(),
-                FunctionCode::InstShufflevec => todo!(),
-                FunctionCode::InstCmp => todo!(),
-                FunctionCode::InstRet => todo!(),
-                FunctionCode::InstBr => todo!(),
-                FunctionCode::InstSwitch => todo!(),
-                FunctionCode::InstInvoke => todo!(),
-                FunctionCode::InstUnreachable => todo!(),
-                FunctionCode::InstPhi => todo!(),
+                FunctionCode::InstGepOld => unsupported!(),
+                FunctionCode::InstSelect => unsupported!(),
+                FunctionCode::InstExtractelt => unsupported!(),
+                FunctionCode::InstInsertelt => unsupported!(),
+                FunctionCode::InstShufflevec => unsupported!(),
+                FunctionCode::InstCmp => unsupported!(),
+                FunctionCode::InstRet => unsupported!(),
+                FunctionCode::InstBr => unsupported!(),
+                FunctionCode::InstSwitch => unsupported!(),
+                FunctionCode::InstInvoke => unsupported!(),
+                FunctionCode::InstUnreachable => unsupported!(),
+                FunctionCode::InstPhi => unsupported!(),
                 FunctionCode::InstAlloca => {
                     // [instty, opty, op, align]
                     let [_instty, _opty, _op, _align] = unpack_fields!(4)?;
@@ -153,49 +162,49 @@ impl TryFrom<(&'_ Block, &'_ MapCtx<'_>)> for Function {
                     // [opty, op, align, vol]
                     let [_opty, _op, _align, _vol] = unpack_fields!(4)?;
                 }
-                FunctionCode::InstVaarg => todo!(),
-                FunctionCode::InstStoreOld => todo!(),
-                FunctionCode::InstExtractval => todo!(),
-                FunctionCode::InstInsertval => todo!(),
-                FunctionCode::InstCmp2 => todo!(),
-                FunctionCode::InstVselect => todo!(),
-                FunctionCode::InstInboundsGepOld => todo!(),
-                FunctionCode::InstIndirectbr => todo!(),
-                FunctionCode::InstCall => todo!(),
-                FunctionCode::InstFence => todo!(),
-                FunctionCode::InstCmpxchgOld => todo!(),
-                FunctionCode::InstAtomicrmwOld => todo!(),
-                FunctionCode::InstResume => todo!(),
-                FunctionCode::InstLandingpadOld => todo!(),
-                FunctionCode::InstLoadatomic => todo!(),
-                FunctionCode::InstStoreatomicOld => todo!(),
-                FunctionCode::InstGep => todo!(),
+                FunctionCode::InstVaarg => unsupported!(),
+                FunctionCode::InstStoreOld => unsupported!(),
+                FunctionCode::InstExtractval => unsupported!(),
+                FunctionCode::InstInsertval => unsupported!(),
+                FunctionCode::InstCmp2 => unsupported!(),
+                FunctionCode::InstVselect => unsupported!(),
+                FunctionCode::InstInboundsGepOld => unsupported!(),
+                FunctionCode::InstIndirectbr => unsupported!(),
+                FunctionCode::InstCall => unsupported!(),
+                FunctionCode::InstFence => unsupported!(),
+                FunctionCode::InstCmpxchgOld => unsupported!(),
+                FunctionCode::InstAtomicrmwOld => unsupported!(),
+                FunctionCode::InstResume => unsupported!(),
+                FunctionCode::InstLandingpadOld => unsupported!(),
+                FunctionCode::InstLoadatomic => unsupported!(),
+                FunctionCode::InstStoreatomicOld => unsupported!(),
+                FunctionCode::InstGep => unsupported!(),
                 FunctionCode::InstStore => {
                     // [ptrty, ptr, valty, val, align, vol]
                     let [_ptrty, _ptr, _valty, _val] = unpack_fields!(4)?;
 
                     // NOTE: Two more optional fields: align and vol.
                 }
-                FunctionCode::InstStoreatomic => todo!(),
-                FunctionCode::InstCmpxchg => todo!(),
-                FunctionCode::InstLandingpad => todo!(),
-                FunctionCode::InstCleanupret => todo!(),
-                FunctionCode::InstCatchret => todo!(),
-                FunctionCode::InstCatchpad => todo!(),
-                FunctionCode::InstCleanuppad => todo!(),
-                FunctionCode::InstCatchswitch => todo!(),
+                FunctionCode::InstStoreatomic => unsupported!(),
+                FunctionCode::InstCmpxchg => unsupported!(),
+                FunctionCode::InstLandingpad => unsupported!(),
+                FunctionCode::InstCleanupret => unsupported!(),
+                FunctionCode::InstCatchret => unsupported!(),
+                FunctionCode::InstCatchpad => unsupported!(),
+                FunctionCode::InstCleanuppad => unsupported!(),
+                FunctionCode::InstCatchswitch => unsupported!(),
                 FunctionCode::InstUnop => {
                     // [opval, ty, opcode]
                     let [_opval, ty, opcode] = unpack_fields!(3)?;
                     let _ty = get_type!(ty)?;
                     let _opcode = UnaryOp::try_from(opcode)?;
                 }
-                FunctionCode::Instcallbr => todo!(),
-                FunctionCode::InstFreeze => todo!(),
-                FunctionCode::InstAtomicrmw => todo!(),
+                FunctionCode::Instcallbr => unsupported!(),
+                FunctionCode::InstFreeze => unsupported!(),
+                FunctionCode::InstAtomicrmw => unsupported!(),
             }
         }
 
-        unimplemented!()
+        Err(MapError::Unsupported("function blocks; please implement!".into()).into())
     }
 }
-- 
2.43.0


From 06791ab6397e8572b0a7ce2743f3396d704fe7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:23 +0000
Subject: [PATCH 18/41] fix: bound the resolution of types in the type table

Types that refer to themselves overflowed the stack, types that refer to
others many times over expanded exponentially, and the claimed number of
types was allocated up-front.
---
 llvm-mapper/src/block/type_table.rs | 51 +++++++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 3 deletions(-)

diff --git a/llvm-mapper/src/block/type_table.rs b/llvm-mapper/src/block/type_table.rs
index 3454c13..a2838aa 100644
--- a/llvm-mapper/src/block/type_table.rs
+++ b/llvm-mapper/src/block/type_table.rs
@@ -1,5 +1,6 @@
 //! Functionality for mapping the `TYPE_BLOCK_ID_NEW` block.
 
+use std::cell::Cell;
 use std::convert::TryFrom;
 
 use llvm_support::bitcodes::TypeCode;
@@ -13,6 +14,15 @@ use thiserror::Error;
 use crate::map::MapError;
 use crate::unroll::Block;
 
+/// The deepest that types are allowed to be nested.
+///
+/// Besides keeping the (recursive) resolution of types within the stack, this also
+/// catches types that refer to themselves, which can't be represented as a [`Type`](Type).
+const MAX_TYPE_DEPTH: usize = 256;
+
+/// The largest that a type table is allowed to become once each type in it is fully expanded.
+const MAX_TYPE_TABLE_SIZE: usize = 1 << 20;
+
 /// Errors that can occur when mapping the type table.
 #[derive(Debug, Error)]
 pub enum TypeTableError {
@@ -24,6 +34,14 @@ pub enum TypeTableError {
     #[error("invalid type table index: {0}")]
     BadIndex(usize),
 
+    /// A type refers to itself, or is nested too deeply.
+    #[error("type is recursive or nested too deeply")]
+    TooDeep,
+
+    /// The types in the table are too large once fully expanded.
+    #[error("types are too large once expanded")]
+    TooLarge,
+
     /// An unknown record code was seen.
     #[error("unknown type code")]
     UnknownTypeCode(#[from] TryFromPrimitiveError<TypeCode>),
@@ -109,6 +127,8 @@ impl PartialType {
     /// Fallibly convert this `PartialType` into a `Type`, using the given
     /// `PartialTypeTable` as a reference.
     fn resolve(&self, partials: &PartialTypeTable) -> Result<Type, TypeTableError> {
+        partials.charge(1)?;
+
         match self {
             PartialType::Half => Ok(Type::Half),
             PartialType::BFloat => Ok(Type::BFloat),
@@ -141,6 +161,8 @@ impl PartialType {
             }
             PartialType::OpaquePointer(oty) => Ok(Type::OpaquePointer(*oty)),
             PartialType::Struct(sty) => {
+                partials.charge(sty.name.as_ref().map_or(0, |name| name.len() / 16))?;
+
                 let field_types = sty
                     .field_types
                     .iter()
@@ -222,16 +244,31 @@ struct PartialVectorType {
 struct PartialTypeTable {
     numentries: usize,
     inner: Vec<PartialType>,
+    depth: Cell<usize>,
+    size: Cell<usize>,
 }
 
 impl PartialTypeTable {
     fn new(numentries: usize) -> Self {
         Self {
             numentries: numentries,
-            inner: Vec::with_capacity(numentries),
+            inner: Vec::new(),
+            depth: Cell::new(0),
+            size: Cell::new(0),
         }
     }
 
+    /// Account for the given amount of expanded types, which must stay within our limit.
+    fn charge(&self, amount: usize) -> Result<(), TypeTableError> {
+        self.size.set(self.size.get() + amount);
+
+        if self.size.get() > MAX_TYPE_TABLE_SIZE {
+            return Err(TypeTableError::TooLarge);
+        }
+
+        Ok(())
+    }
+
     fn add(&mut self, ty: PartialType) {
         self.inner.push(ty)
     }
@@ -255,7 +292,15 @@ impl PartialTypeTable {
 
         log::debug!("type ref {} resolves to {:?}", ty_ref.0, pty);
 
-        pty.resolve(self)
+        self.depth.set(self.depth.get() + 1);
+        if self.depth.get() > MAX_TYPE_DEPTH {
+            return Err(TypeTableError::TooDeep);
+        }
+
+        let ty = pty.resolve(self);
+        self.depth.set(self.depth.get() - 1);
+
+        ty
     }
 
     /// Fallibly converts this `PartialTypeTable` into a `TypeTable`.
@@ -291,7 +336,7 @@ impl TryFrom<&'_ Block> for TypeTable {
     type Error = TypeTableError;
 
     fn try_from(block: &Block) -> Result<Self, Self::Error> {
-        // Figure out how many type entries we have, and reserve the space for them up-front.
+        // Figure out how many type entries we have.
         let numentries = *block
             .records
             .one(TypeCode::NumEntry)
-- 
2.43.0


From 6fbc422ac892a28e78327287fe9d6d71d2fd559c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:42 +0000
Subject: [PATCH 19/41] fix: don't merge a named or opaque struct type into the
 previous type

Each STRUCT_NAMED and OPAQUE record defines a type of its own. Merging it
into the preceding type refused most modules with more than one named
struct, and silently lost a type after an empty literal struct.
---
 llvm-mapper/src/block/type_table.rs | 54 ++++++-----------------------
 1 file changed, 10 insertions(+), 44 deletions(-)

diff --git a/llvm-mapper/src/block/type_table.rs b/llvm-mapper/src/block/type_table.rs
index a2838aa..065b22f 100644
--- a/llvm-mapper/src/block/type_table.rs
+++ b/llvm-mapper/src/block/type_table.rs
@@ -273,10 +273,6 @@ impl PartialTypeTable {
         self.inner.push(ty)
     }
 
-    fn last_mut(&mut self) -> Option<&mut PartialType> {
-        self.inner.last_mut()
-    }
-
     /// Fallibly convert a `TypeRef` into its `PartialType` in this partial type table.
     fn get(&self, ty_ref: &TypeRef) -> Result<&PartialType, TypeTableError> {
         self.inner
@@ -389,25 +385,11 @@ impl TryFrom<&'_ Block> for TypeTable {
                         .into());
                     }
 
-                    // Our opaque type might be forward-referenced. If so, we
-                    // fill in the previous type's name. Otherwise, we create
-                    // a new structure type with no body.
-                    if let Some(PartialType::Struct(s)) = partial_types.last_mut() {
-                        if s.name.is_some() {
-                            return Err(MapError::Invalid(
-                                "forward-declared opaque type already has name".into(),
-                            )
-                            .into());
-                        }
-
-                        s.name = Some(last_type_name.clone());
-                    } else {
-                        partial_types.add(PartialType::Struct(PartialStructType {
-                            name: Some(last_type_name.clone()),
-                            field_types: vec![],
-                            is_packed: false,
-                        }));
-                    }
+                    partial_types.add(PartialType::Struct(PartialStructType {
+                        name: Some(last_type_name.clone()),
+                        field_types: vec![],
+                        is_packed: false,
+                    }));
 
                     last_type_name.clear();
                 }
@@ -502,27 +484,11 @@ impl TryFrom<&'_ Block> for TypeTable {
                         .map(|f| TypeRef(*f as usize))
                         .collect::<Vec<_>>();
 
-                    // Like with opaque types, we might be forward-referenced here.
-                    // If so, we update our pre-existing structure type with its
-                    // correct name and fields.
-                    if let Some(PartialType::Struct(s)) = partial_types.last_mut() {
-                        if s.name.is_some() || !s.field_types.is_empty() {
-                            return Err(MapError::Invalid(
-                                "forward-declared struct type already has name and/or type fields"
-                                    .into(),
-                            )
-                            .into());
-                        }
-
-                        s.name = Some(last_type_name.clone());
-                        s.field_types = field_types;
-                    } else {
-                        partial_types.add(PartialType::Struct(PartialStructType {
-                            name: Some(last_type_name.clone()),
-                            field_types,
-                            is_packed,
-                        }));
-                    }
+                    partial_types.add(PartialType::Struct(PartialStructType {
+                        name: Some(last_type_name.clone()),
+                        field_types,
+                        is_packed,
+                    }));
 
                     last_type_name.clear();
                 }
-- 
2.43.0


From bc327860b66e3a1ff12b952cac5e5434a678d9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:44 +0000
Subject: [PATCH 20/41] fix: refuse integer types whose width doesn't fit into
 32 bits

---
 llvm-mapper/src/block/type_table.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/llvm-mapper/src/block/type_table.rs b/llvm-mapper/src/block/type_table.rs
index 065b22f..e6573c4 100644
--- a/llvm-mapper/src/block/type_table.rs
+++ b/llvm-mapper/src/block/type_table.rs
@@ -394,7 +394,8 @@ impl TryFrom<&'_ Block> for TypeTable {
                     last_type_name.clear();
                 }
                 TypeCode::Integer => {
-                    let bit_width = type_field!(0) as u32;
+                    let bit_width =
+                        u32::try_from(type_field!(0)).map_err(|_| IntegerTypeError::BadWidth)?;
                     partial_types.add(PartialType::Integer(PartialIntegerType { bit_width }));
                 }
                 TypeCode::Pointer => {
-- 
2.43.0


From 161b4b6954857ca45f437ed0112573ddb9c94dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:22 +0000
Subject: [PATCH 21/41] fix: account for the address space field of alias
 records

An alias record is [strtab_offset, strtab_size, type, address space,
aliasee, linkage, ...]; every field from the aliasee on was off by one.
---
 llvm-mapper/src/record/alias.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/llvm-mapper/src/record/alias.rs b/llvm-mapper/src/record/alias.rs
index 4bad8d2..5e7581a 100644
--- a/llvm-mapper/src/record/alias.rs
+++ b/llvm-mapper/src/record/alias.rs
@@ -16,7 +16,7 @@ use crate::unroll::Record;
 #[derive(Debug, Error)]
 pub enum AliasError {
     /// The alias record is too short to be well-formed.
-    #[error("alias record too short: {0} < 5 fields")]
+    #[error("alias record too short: {0} < 6 fields")]
     TooShort(usize),
 
     /// The alias record is in an old unsupported format.
@@ -81,10 +81,10 @@ impl<'ctx> CtxMappable<'ctx, Record> for Alias<'ctx> {
             return Err(AliasError::V1Unsupported);
         }
 
-        // Every alias record has at least 5 fields, corresponding to
-        // [strtab_offset, strtab_size, *v1], where v1 has 3 mandatory fields:
-        // [alias type, aliasee value#, linkage, ...]
-        if fields.len() < 5 {
+        // Every alias record has at least 6 fields, corresponding to
+        // [strtab_offset, strtab_size, *v1], where v1 has 4 mandatory fields:
+        // [alias type, address space, aliasee value#, linkage, ...]
+        if fields.len() < 6 {
             return Err(AliasError::TooShort(fields.len()));
         }
 
@@ -93,32 +93,32 @@ impl<'ctx> CtxMappable<'ctx, Record> for Alias<'ctx> {
             .type_table
             .get(fields[2])
             .ok_or(AliasError::Type(fields[2]))?;
-        let value_index = fields[3];
-        let linkage = Linkage::from(fields[4]);
+        let value_index = fields[4];
+        let linkage = Linkage::from(fields[5]);
 
         let visibility = fields
-            .get(5)
+            .get(6)
             .map_or_else(|| Ok(Visibility::Default), |v| Visibility::try_from(*v))?;
 
-        let storage_class = fields.get(6).map_or_else(
+        let storage_class = fields.get(7).map_or_else(
             || Ok(DllStorageClass::Default),
             |v| DllStorageClass::try_from(*v),
         )?;
 
         let tls_mode = fields
-            .get(7)
+            .get(8)
             .copied()
             .map(ThreadLocalMode::from)
             .unwrap_or(ThreadLocalMode::NotThreadLocal);
 
         let unnamed_addr = fields
-            .get(8)
+            .get(9)
             .copied()
             .map(UnnamedAddr::from)
             .unwrap_or(UnnamedAddr::None);
 
         let preemption_specifier = fields
-            .get(9)
+            .get(10)
             .copied()
             .map(RuntimePreemption::from)
             .unwrap_or(RuntimePreemption::DsoPreemptable);
-- 
2.43.0


From 4a33f816578f7e78e04d0077982f87f803599cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:24 +0000
Subject: [PATCH 22/41] fix: use the bitcode encoding of COMDAT selection
 kinds, which starts at 1

---
 llvm-mapper/src/record/comdat.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/llvm-mapper/src/record/comdat.rs b/llvm-mapper/src/record/comdat.rs
index 38a97ab..99fc841 100644
--- a/llvm-mapper/src/record/comdat.rs
+++ b/llvm-mapper/src/record/comdat.rs
@@ -43,15 +43,15 @@ pub enum ComdatError {
 #[repr(u64)]
 pub enum SelectionKind {
     /// The linker may choose any COMDAT.
-    Any,
+    Any = 1,
     /// The data referenced by the COMDAT must be the same.
-    ExactMatch,
+    ExactMatch = 2,
     /// The linker will choose the largest COMDAT.
-    Largest,
+    Largest = 3,
     /// No deduplication is performed.
-    NoDeduplicate,
+    NoDeduplicate = 4,
     /// The data referenced by the COMDAT must be the same size.
-    SameSize,
+    SameSize = 5,
 }
 
 /// Models the `MODULE_CODE_COMDAT` record.
-- 
2.43.0


From 5749a50795edabb2e515842915de6b71d1069ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:27 +0000
Subject: [PATCH 23/41] fix: interpret the value of align and alignstack
 attributes as bytes

The value was taken for a logarithm, as in records, so that for example
align(8) was read as an alignment of 128 bytes.
---
 llvm-mapper/src/block/attributes.rs | 43 ++++++++++-------------------
 llvm-support/src/align.rs           |  6 ++++
 2 files changed, 20 insertions(+), 29 deletions(-)

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index 99bd606..cd4fc31 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -4,7 +4,7 @@ use std::convert::{TryFrom, TryInto};
 
 use hashbrown::HashMap;
 use llvm_support::bitcodes::AttributeCode;
-use llvm_support::{AttributeId, AttributeKind, MaybeAlign};
+use llvm_support::{Align, AttributeId, AttributeKind, MaybeAlign};
 use num_enum::{TryFromPrimitive, TryFromPrimitiveError};
 use thiserror::Error;
 
@@ -270,6 +270,17 @@ pub enum IntAttribute {
     MemoryKind(u64),
 }
 
+/// Interprets the value of an alignment attribute, which is the alignment in bytes
+/// (or zero, for no alignment).
+fn byte_align(key: AttributeId, value: u64) -> Result<MaybeAlign, AttributeError> {
+    match value {
+        0 => Ok(None.into()),
+        _ => Align::from_byte_align(value)
+            .map(|align| Some(align).into())
+            .map_err(|_| AttributeError::AttributeMalformed("invalid alignment", key)),
+    }
+}
+
 impl TryFrom<(AttributeId, u64)> for IntAttribute {
     type Error = AttributeError;
 
@@ -285,34 +296,8 @@ impl TryFrom<(AttributeId, u64)> for IntAttribute {
         }
 
         Ok(match key {
-            AttributeId::Alignment => {
-                let value = u8::try_from(value).map_err(|_| {
-                    AttributeError::AttributeMalformed(
-                        "attribute value too large (invalid alignment)",
-                        key,
-                    )
-                })?;
-
-                IntAttribute::Alignment(
-                    MaybeAlign::try_from(value).map_err(|_| {
-                        AttributeError::AttributeMalformed("invalid alignment", key)
-                    })?,
-                )
-            }
-            AttributeId::StackAlignment => {
-                let value = u8::try_from(value).map_err(|_| {
-                    AttributeError::AttributeMalformed(
-                        "attribute value too large (invalid alignment)",
-                        key,
-                    )
-                })?;
-
-                IntAttribute::StackAlignment(
-                    MaybeAlign::try_from(value).map_err(|_| {
-                        AttributeError::AttributeMalformed("invalid alignment", key)
-                    })?,
-                )
-            }
+            AttributeId::Alignment => IntAttribute::Alignment(byte_align(key, value)?),
+            AttributeId::StackAlignment => IntAttribute::StackAlignment(byte_align(key, value)?),
             AttributeId::Dereferenceable => IntAttribute::Dereferenceable(value),
             AttributeId::DereferenceableOrNull => IntAttribute::DereferenceableOrNull(value),
             AttributeId::AllocSize => {
diff --git a/llvm-support/src/align.rs b/llvm-support/src/align.rs
index 163c2ba..b903643 100644
--- a/llvm-support/src/align.rs
+++ b/llvm-support/src/align.rs
@@ -138,6 +138,12 @@ pub enum AlignedTypeWidthError {
 #[derive(Copy, Clone, Debug, PartialEq, Eq)]
 pub struct MaybeAlign(Option<Align>);
 
+impl From<Option<Align>> for MaybeAlign {
+    fn from(value: Option<Align>) -> MaybeAlign {
+        MaybeAlign(value)
+    }
+}
+
 impl TryFrom<u8> for MaybeAlign {
     type Error = AlignError;
 
-- 
2.43.0


From 7a51c4ce6d0230d7031ab2d80fe8ab5567a5f490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:43 +0000
Subject: [PATCH 24/41] fix: read vscale_range as its minimum and maximum, in
 that order

---
 llvm-mapper/src/block/attributes.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index cd4fc31..b6e83a8 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -260,7 +260,7 @@ pub enum IntAttribute {
     DereferenceableOrNull(u64),
     /// `allocsize(<EltSizeParam>[, <NumEltsParam>])`
     AllocSize(u32, Option<u32>),
-    /// `vscale_range(<Min>[, <Max>])`
+    /// `vscale_range(<Min>[, <Max>])`, with a maximum of zero if there is none
     VScaleRange(u32, u32),
     /// `uwTable ([variant])`
     UwTable(UwTableVariant),
@@ -320,13 +320,9 @@ impl TryFrom<(AttributeId, u64)> for IntAttribute {
                 IntAttribute::AllocSize(elt_size, num_elts)
             }
             AttributeId::VScaleRange => {
-                let min = (value >> 32) as u32;
-                let max = match value as u32 {
-                    0 => min,
-                    max => max,
-                };
-
-                IntAttribute::VScaleRange(max, min)
+                // The upper 32 bits are the minimum, the lower 32 bits the maximum
+                // (or zero, for no maximum).
+                IntAttribute::VScaleRange((value >> 32) as u32, value as u32)
             }
             AttributeId::UwTable => {
                 IntAttribute::UwTable(UwTableVariant::try_from(value).map_err(|_| {
-- 
2.43.0


From b18465157d39850058f1ad2608f5cbb65984345d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:45 +0000
Subject: [PATCH 25/41] fix: support the nosanitize_bounds attribute

---
 llvm-mapper/src/block/attributes.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index b6e83a8..6fab355 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -208,6 +208,8 @@ pub enum EnumAttribute {
     SwiftAsync = AttributeId::SwiftAsync as u64,
     /// `nosanitize_coverage`
     NoSanitizeCoverage = AttributeId::NoSanitizeCoverage as u64,
+    /// `nosanitize_bounds`
+    NoSanitizeBounds = AttributeId::NoSanitizeBounds as u64,
     /// `elementtype`
     ElementType = AttributeId::ElementType as u64,
     /// `disable_sanitizer_instrumentation`
-- 
2.43.0


From db3d49deaa15aa7bb2b37d1299bb55bede0d872f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:51 +0000
Subject: [PATCH 26/41] fix: don't truncate the alignment of a function record

---
 llvm-mapper/src/record/function.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/llvm-mapper/src/record/function.rs b/llvm-mapper/src/record/function.rs
index ed1966a..033811f 100644
--- a/llvm-mapper/src/record/function.rs
+++ b/llvm-mapper/src/record/function.rs
@@ -155,7 +155,9 @@ impl<'ctx> CtxMappable<'ctx, Record> for Function<'ctx> {
 
         // TODO: Upgrade attributes here? It's what LLVM does.
 
-        let alignment = MaybeAlign::try_from(fields[7] as u8)?;
+        let alignment = u8::try_from(fields[7])
+            .map_err(|_| AlignError::ShiftTooBig(u8::MAX))
+            .and_then(MaybeAlign::try_from)?;
 
         let section = match fields[8] as usize {
             0 => None,
-- 
2.43.0


From a50aecd686d68fdccd6147fbf39d250893a052bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:03 +0000
Subject: [PATCH 27/41] fix: accept binary operations on integer and
 floating-point types

Every type was refused, since none is both; and the operations that only
apply to integers were matched with floating-point types.
---
 llvm-support/src/opcode.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/llvm-support/src/opcode.rs b/llvm-support/src/opcode.rs
index 694f31d..1d09f9d 100644
--- a/llvm-support/src/opcode.rs
+++ b/llvm-support/src/opcode.rs
@@ -155,7 +155,7 @@ impl TryFrom<(u64, &Type)> for BinaryOp {
         let is_fp = ty.is_floating_or_floating_vector();
 
         // Binary operations are only valid on integer/fp types or vectors thereof.
-        if !is_fp || !ty.is_integer_or_integer_vector() {
+        if !is_fp && !ty.is_integer_or_integer_vector() {
             return Err(BinaryOpError::InvalidType(ty.clone()));
         }
 
@@ -177,13 +177,13 @@ impl TryFrom<(u64, &Type)> for BinaryOp {
             (BinaryOpcode::SRem, false) => BinaryOp::SRem,
             (BinaryOpcode::SRem, true) => BinaryOp::FRem,
             // The rest are all integer-type only.
-            (BinaryOpcode::Shl, true) => BinaryOp::Shl,
-            (BinaryOpcode::LShr, true) => BinaryOp::LShr,
-            (BinaryOpcode::AShr, true) => BinaryOp::AShr,
-            (BinaryOpcode::And, true) => BinaryOp::And,
-            (BinaryOpcode::Or, true) => BinaryOp::Or,
-            (BinaryOpcode::Xor, true) => BinaryOp::Xor,
-            (_, false) => return Err(BinaryOpError::IncompatibleType(ty.clone())),
+            (BinaryOpcode::Shl, false) => BinaryOp::Shl,
+            (BinaryOpcode::LShr, false) => BinaryOp::LShr,
+            (BinaryOpcode::AShr, false) => BinaryOp::AShr,
+            (BinaryOpcode::And, false) => BinaryOp::And,
+            (BinaryOpcode::Or, false) => BinaryOp::Or,
+            (BinaryOpcode::Xor, false) => BinaryOp::Xor,
+            (_, true) => return Err(BinaryOpError::IncompatibleType(ty.clone())),
         })
     }
 }
-- 
2.43.0


From 823c0f04f76d7e8c700e6f82a89ec143c633adb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:05 +0000
Subject: [PATCH 28/41] fix: accept opaque pointers as vector elements

---
 llvm-support/src/ty.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/llvm-support/src/ty.rs b/llvm-support/src/ty.rs
index f015dff..a5c2bec 100644
--- a/llvm-support/src/ty.rs
+++ b/llvm-support/src/ty.rs
@@ -166,7 +166,11 @@ impl Type {
     /// assert!(!Type::Metadata.is_vector_element());
     /// ```
     pub fn is_vector_element(&self) -> bool {
-        self.is_floating() || matches!(self, Type::Integer(_) | Type::Pointer(_))
+        self.is_floating()
+            || matches!(
+                self,
+                Type::Integer(_) | Type::Pointer(_) | Type::OpaquePointer(_)
+            )
     }
 
     /// Returns whether this type is "first class", i.e. is a valid type for an LLVM value.
-- 
2.43.0


From 3f212e0e971c939f7edb836348a5fcd6f7ecca5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 29/41] fix: don't panic on alignment specs that start with a
 multi-byte character

---
 llvm-support/src/align.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/llvm-support/src/align.rs b/llvm-support/src/align.rs
index b903643..1235e2b 100644
--- a/llvm-support/src/align.rs
+++ b/llvm-support/src/align.rs
@@ -347,7 +347,7 @@ impl FromStr for TypeAlignSpec {
         // Unwrap safety: we check for a nonempty string above.
         #[allow(clippy::unwrap_used)]
         let id = value.chars().next().unwrap();
-        let body = &value[1..];
+        let body = &value[id.len_utf8()..];
         let parts: Vec<&str> = body.split(':').collect();
 
         match id {
@@ -617,7 +617,10 @@ impl FromStr for PointerAlignSpec {
             ));
         }
 
-        let parts: Vec<&str> = value[1..].split(':').collect();
+        let body = value.strip_prefix('p').ok_or_else(|| {
+            AlignSpecError::Parse("pointer align spec doesn't start with 'p'".into())
+        })?;
+        let parts: Vec<&str> = body.split(':').collect();
 
         // We expect no less than 3 parts: `p[n]`, `size`, and `abi`, with
         // `pref` and `idx` being optional.
-- 
2.43.0


From 2f5f6adbbeb3119dba6cb9b4560035c5be72b9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:24 +0000
Subject: [PATCH 30/41] fix: replace the pointer alignment spec of an address
 space as a whole

A spec for an address space that already has one was added next to it.
---
 llvm-support/src/align.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/llvm-support/src/align.rs b/llvm-support/src/align.rs
index 1235e2b..93ab0f7 100644
--- a/llvm-support/src/align.rs
+++ b/llvm-support/src/align.rs
@@ -731,15 +731,8 @@ impl PointerAlignSpecs {
             // If we have a match, then we need to either insert or update
             // depending on whether our match is the same spec as us.
             // Panic safety: `pos` is a valid index returned above.
-            Some(pos) => match self.0[pos] == spec {
-                true => {
-                    // Unwrap safety: `pos` is a valid index returned above.
-                    #[allow(clippy::unwrap_used)]
-                    let other = self.0.get_mut(pos).unwrap();
-
-                    other.abi_alignment = spec.abi_alignment;
-                    other.preferred_alignment = spec.preferred_alignment;
-                }
+            Some(pos) => match self.0[pos].address_space == spec.address_space {
+                true => self.0[pos] = spec,
                 false => {
                     self.0.insert(pos + 1, spec);
                 }
-- 
2.43.0


From b5c3d6f913510fb6c2ce79356e2e69ee71cd6417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:25 +0000
Subject: [PATCH 31/41] fix: refuse pointer specs whose preferred alignment is
 below the ABI alignment

---
 llvm-support/src/align.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/llvm-support/src/align.rs b/llvm-support/src/align.rs
index 93ab0f7..2e59bbf 100644
--- a/llvm-support/src/align.rs
+++ b/llvm-support/src/align.rs
@@ -653,13 +653,7 @@ impl FromStr for PointerAlignSpec {
             .map(|idx| idx.parse::<u64>())
             .unwrap_or(Ok(pointer_size))?;
 
-        Ok(Self {
-            address_space: address_space,
-            abi_alignment: abi,
-            preferred_alignment: pref,
-            pointer_size: pointer_size,
-            index_size: index_size,
-        })
+        Self::new(address_space, abi, pref, pointer_size, index_size)
     }
 }
 
-- 
2.43.0


From 6465ad7f4599327f56e0d386850c90fe629ad09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:44 +0000
Subject: [PATCH 32/41] fix: accept an ABI alignment of zero for aggregates

LLVM's data layouts for several targets (ARM and Hexagon among them) use it.
---
 llvm-support/src/align.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/llvm-support/src/align.rs b/llvm-support/src/align.rs
index 2e59bbf..e1728d2 100644
--- a/llvm-support/src/align.rs
+++ b/llvm-support/src/align.rs
@@ -371,10 +371,15 @@ impl FromStr for TypeAlignSpec {
                         parts.len()
                     )));
                 }
+                // Unlike other types, aggregates can have an ABI alignment of zero:
+                // they're then only as aligned as their elements need to be.
                 let abi = parts[0]
                     .parse::<u64>()
                     .map_err(|e| AlignSpecError::Parse(e.to_string()))
-                    .and_then(|a| Align::from_bit_align(a).map_err(Into::into))?;
+                    .and_then(|a| match a {
+                        0 => Ok(Align::ALIGN8),
+                        _ => Align::from_bit_align(a).map_err(Into::into),
+                    })?;
 
                 let pref = parts
                     .get(1)
-- 
2.43.0


From 0712ad14d82be6e69765ff11cfb7010d6ffa6b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:46 +0000
Subject: [PATCH 33/41] fix: report the aggregate alignment that a data layout
 specifies

---
 llvm-mapper/src/record/datalayout.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/llvm-mapper/src/record/datalayout.rs b/llvm-mapper/src/record/datalayout.rs
index 5d55d8c..2d4a048 100644
--- a/llvm-mapper/src/record/datalayout.rs
+++ b/llvm-mapper/src/record/datalayout.rs
@@ -5,7 +5,7 @@ use std::num::ParseIntError;
 use std::str::FromStr;
 
 use llvm_support::{
-    AddressSpace, AddressSpaceError, Align, AlignError, AlignSpecError, Endian,
+    AddressSpace, AddressSpaceError, Align, AlignError, AlignSpecError, AlignedType, Endian,
     FunctionPointerAlign, Mangling, PointerAlignSpec, PointerAlignSpecs, TypeAlignSpec,
     TypeAlignSpecs,
 };
@@ -138,6 +138,9 @@ impl FromStr for DataLayout {
                 'i' | 'v' | 'f' | 'a' => {
                     // Pass the entire spec in here, since we need the spec identifier as well.
                     let align_spec = spec.parse::<TypeAlignSpec>()?;
+                    if let AlignedType::Aggregate = align_spec.aligned_type {
+                        datalayout.aggregate_alignment = align_spec.abi_alignment;
+                    }
                     datalayout.type_alignments.update(align_spec);
                 }
                 'F' => match body.chars().next() {
-- 
2.43.0


From 25ef89a464a623e6950c9b69e8c074a27a18f724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 34/41] fix: accept an unspecified (zero) stack alignment in
 data layouts

---
 llvm-mapper/src/record/datalayout.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/llvm-mapper/src/record/datalayout.rs b/llvm-mapper/src/record/datalayout.rs
index 2d4a048..aa153e9 100644
--- a/llvm-mapper/src/record/datalayout.rs
+++ b/llvm-mapper/src/record/datalayout.rs
@@ -118,8 +118,11 @@ impl FromStr for DataLayout {
                 'e' => datalayout.endianness = Endian::Little,
                 'E' => datalayout.endianness = Endian::Big,
                 'S' => {
-                    datalayout.natural_stack_alignment =
-                        Some(Align::from_bit_align(body.parse::<u64>()?)?);
+                    // A stack alignment of zero leaves it unspecified.
+                    datalayout.natural_stack_alignment = match body.parse::<u64>()? {
+                        0 => None,
+                        align => Some(Align::from_bit_align(align)?),
+                    };
                 }
                 'P' => {
                     datalayout.program_address_space = body.parse::<u32>()?.try_into()?;
-- 
2.43.0


From 12f74f67276d75905b227dbc76b9d135c9a518d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:49 +0000
Subject: [PATCH 35/41] fix: refuse stray characters in mangling and
 non-integral specs

---
 llvm-mapper/src/record/datalayout.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/llvm-mapper/src/record/datalayout.rs b/llvm-mapper/src/record/datalayout.rs
index aa153e9..b60e8e9 100644
--- a/llvm-mapper/src/record/datalayout.rs
+++ b/llvm-mapper/src/record/datalayout.rs
@@ -174,7 +174,7 @@ impl FromStr for DataLayout {
                 'm' => {
                     // The mangling spec is `m:X`, where `X` is the mangling kind.
                     // We've already parsed `m`, so we expect exactly two characters.
-                    let mut mangling = body.chars().take(2);
+                    let mut mangling = body.chars();
                     match mangling.next() {
                         Some(':') => {}
                         Some(u) => {
@@ -211,6 +211,12 @@ impl FromStr for DataLayout {
                         }
                     };
 
+                    if mangling.next().is_some() {
+                        return Err(DataLayoutError::BadSpecParse(
+                            "trailing characters in mangling spec".into(),
+                        ));
+                    }
+
                     datalayout.mangling = Some(kind);
                 }
                 'n' => {
@@ -222,7 +228,9 @@ impl FromStr for DataLayout {
                                     "cannot find address space 0".into(),
                                 ));
                             }
-                            datalayout.non_integral_address_spaces = body[2..]
+                            datalayout.non_integral_address_spaces = body[1..]
+                                .strip_prefix(':')
+                                .unwrap_or_default()
                                 .split(':')
                                 .map(|s| {
                                     s.parse::<u32>()
-- 
2.43.0


From ea62182949a9ee0f52cb995d4f92e1f87c29dbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:58 +0000
Subject: [PATCH 36/41] fix: use LLVM's default type alignments

An i64 is only 32-bit aligned by default, aggregates have no ABI alignment
of their own, and 64- and 128-bit vectors are naturally aligned.
---
 llvm-support/src/align.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/llvm-support/src/align.rs b/llvm-support/src/align.rs
index e1728d2..e8c98f7 100644
--- a/llvm-support/src/align.rs
+++ b/llvm-support/src/align.rs
@@ -266,6 +266,8 @@ impl AlignedType {
     make_const_aligned!(Integer, 16);
     make_const_aligned!(Integer, 32);
     make_const_aligned!(Integer, 64);
+    make_const_aligned!(Vector, 64);
+    make_const_aligned!(Vector, 128);
 }
 
 /// Errors that can occur when constructing a [`TypeAlignSpec`](TypeAlignSpec)
@@ -480,7 +482,7 @@ impl Default for TypeAlignSpecs {
         // into an infallible constant.
         #[allow(clippy::unwrap_used)]
         Self(vec![
-            TypeAlignSpec::new(AlignedType::Aggregate, Align::ALIGN64, Align::ALIGN64).unwrap(),
+            TypeAlignSpec::new(AlignedType::Aggregate, Align::ALIGN8, Align::ALIGN64).unwrap(),
             TypeAlignSpec::new(AlignedType::FLOAT16, Align::ALIGN16, Align::ALIGN16).unwrap(),
             TypeAlignSpec::new(AlignedType::FLOAT32, Align::ALIGN32, Align::ALIGN32).unwrap(),
             TypeAlignSpec::new(AlignedType::FLOAT64, Align::ALIGN64, Align::ALIGN64).unwrap(),
@@ -489,7 +491,9 @@ impl Default for TypeAlignSpecs {
             TypeAlignSpec::new(AlignedType::INTEGER8, Align::ALIGN8, Align::ALIGN8).unwrap(),
             TypeAlignSpec::new(AlignedType::INTEGER16, Align::ALIGN16, Align::ALIGN16).unwrap(),
             TypeAlignSpec::new(AlignedType::INTEGER32, Align::ALIGN32, Align::ALIGN32).unwrap(),
-            TypeAlignSpec::new(AlignedType::INTEGER64, Align::ALIGN64, Align::ALIGN64).unwrap(),
+            TypeAlignSpec::new(AlignedType::INTEGER64, Align::ALIGN32, Align::ALIGN64).unwrap(),
+            TypeAlignSpec::new(AlignedType::VECTOR64, Align::ALIGN64, Align::ALIGN64).unwrap(),
+            TypeAlignSpec::new(AlignedType::VECTOR128, Align::ALIGN128, Align::ALIGN128).unwrap(),
         ])
     }
 }
-- 
2.43.0


From 1f9ec1baca3385fc7e332d388399bcc7c511cb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:03 +0000
Subject: [PATCH 37/41] fix: refuse empty vector types

---
 llvm-support/src/ty.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/llvm-support/src/ty.rs b/llvm-support/src/ty.rs
index a5c2bec..55b1315 100644
--- a/llvm-support/src/ty.rs
+++ b/llvm-support/src/ty.rs
@@ -462,6 +462,9 @@ pub enum VectorTypeError {
     /// The requested element type is invalid.
     #[error("invalid vector element type: {0:?}")]
     BadElement(Type),
+    /// The requested number of elements is zero.
+    #[error("invalid vector length: vectors can't be empty")]
+    Empty,
 }
 
 /// Represents an vector type.
@@ -478,6 +481,11 @@ pub struct VectorType {
 impl VectorType {
     /// Create a new `VectorType`.
     pub fn new(num_elements: u64, element_type: Type) -> Result<Self, VectorTypeError> {
+        // Unlike arrays, vectors can't be empty.
+        if num_elements == 0 {
+            return Err(VectorTypeError::Empty);
+        }
+
         if element_type.is_vector_element() {
             Ok(Self {
                 num_elements,
-- 
2.43.0


From fecc5d833bf0df3aa3fcea01066e00457e6d0add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:41 +0000
Subject: [PATCH 38/41] fix: refuse string and symbol tables between an
 identification and its module

---
 llvm-mapper/src/unroll.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/llvm-mapper/src/unroll.rs b/llvm-mapper/src/unroll.rs
index 10dee6f..432ff04 100644
--- a/llvm-mapper/src/unroll.rs
+++ b/llvm-mapper/src/unroll.rs
@@ -329,7 +329,7 @@ impl<T: AsRef<[u8]>> TryFrom<Bitstream<T>> for Bitcode {
             Ok(unrolled_block)
         }
 
-        let mut partial_modules = Vec::new();
+        let mut partial_modules: Vec<PartialBitcodeModule> = Vec::new();
 
         // Unrolling a bitstream into a `Bitcode` is a little involved:
         //
@@ -356,6 +356,17 @@ impl<T: AsRef<[u8]>> TryFrom<Bitstream<T>> for Bitcode {
                 enter_block(&mut bitstream, block, 1)?
             };
 
+            // Each IDENTIFICATION_BLOCK is directly followed by the MODULE_BLOCK that it identifies;
+            // in particular, no string or symbol table can come before that module.
+            if top_block.id != BlockId::Ir(IrBlockId::Module)
+                && partial_modules.last().map_or(false, |p| p.module.is_none())
+            {
+                return Err(Error::Unroll(
+                    "malformed bitstream: IDENTIFICATION_BLOCK with no following MODULE_BLOCK"
+                        .into(),
+                ));
+            }
+
             // Our top-level block can be one of four cases, if it's valid.
             //
             // Handle each accordingly.
-- 
2.43.0


From db546f273de0d6258c4ae8d0f278e1a5fca2d26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:05 +0000
Subject: [PATCH 39/41] fix: report an error when a stream ends inside a block

---
 llvm-bitstream/src/parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/llvm-bitstream/src/parser.rs b/llvm-bitstream/src/parser.rs
index 16f3a32..15baf3c 100644
--- a/llvm-bitstream/src/parser.rs
+++ b/llvm-bitstream/src/parser.rs
@@ -400,6 +400,13 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
         // between two entries, so this is a loop rather than a recursive call for each of them.
         loop {
             if self.cursor.exhausted() {
+                // A stream ends after its last top-level block, not inside of a block.
+                if self.scopes.len() > 1 {
+                    return Err(Error::BadScope(
+                        "malformed stream: data ends inside a block".into(),
+                    ));
+                }
+
                 return Err(Error::Exhausted);
             }
 
-- 
2.43.0


From 1100292fc4344bf2cdcf5a52ff5dfdd2648c7391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:01 +0000
Subject: [PATCH 40/41] fix: let each BLOCKINFO block replace the ones before
 it

Like LLVM's reader and writer: every module in a multi-module file has a
BLOCKINFO block of its own, whose abbreviations take the same IDs.
---
 llvm-bitstream/src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/llvm-bitstream/src/parser.rs b/llvm-bitstream/src/parser.rs
index 15baf3c..87b25de 100644
--- a/llvm-bitstream/src/parser.rs
+++ b/llvm-bitstream/src/parser.rs
@@ -240,8 +240,10 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
         }
 
         // If we've just entered a BLOCKINFO block, return `None` to avoid
-        // surfacing parse details to the `advance()` API.
+        // surfacing parse details to the `advance()` API. A BLOCKINFO block replaces
+        // the ones before it: each module in a multi-module file has its own.
         if self.scope().is_blockinfo() {
+            self.blockinfo.clear();
             return Ok(None);
         }
 
-- 
2.43.0


From bd3ecb5c517178c70deb29d8206d61a58e6b926a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:12 +0000
Subject: [PATCH 41/41] fix: accept non-ASCII characters as LLVM's writer
 stores them

LLVM stores the characters of most strings (the target triple, module
assembly, section and GC names, struct names, ...) as signed chars converted
to unsigned 32-bit or 64-bit operands, so modules with non-ASCII text in
them were refused.
---
 llvm-mapper/src/block/attributes.rs |  4 ++--
 llvm-mapper/src/unroll.rs           | 16 ++++++++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index 6fab355..234c2fe 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -9,7 +9,7 @@ use num_enum::{TryFromPrimitive, TryFromPrimitiveError};
 use thiserror::Error;
 
 use crate::map::{MapError, PartialMapCtx};
-use crate::unroll::{Block, Record};
+use crate::unroll::{decode_char, Block, Record};
 
 /// Errors that can occur when mapping attribute blocks.
 #[derive(Debug, Error)]
@@ -382,7 +382,7 @@ impl Attribute {
                     .ok_or(AttributeError::TooShort)?
                     .iter()
                     .take_while(|f| **f != 0)
-                    .map(|f| u8::try_from(*f))
+                    .map(|f| decode_char(*f))
                     .collect::<Result<Vec<_>, _>>()
                     .map_err(|_| AttributeError::BadString)?;
 
diff --git a/llvm-mapper/src/unroll.rs b/llvm-mapper/src/unroll.rs
index 432ff04..393deaf 100644
--- a/llvm-mapper/src/unroll.rs
+++ b/llvm-mapper/src/unroll.rs
@@ -2,6 +2,7 @@
 //! into a block-and-record hierarchy.
 
 use std::convert::{TryFrom, TryInto};
+use std::num::TryFromIntError;
 
 use indexmap::IndexMap;
 use llvm_bitstream::parser::StreamEntry;
@@ -20,6 +21,17 @@ use crate::record::{RecordBlobError, RecordStringError};
 /// Real bitcode nests only a handful of blocks.
 const MAX_BLOCK_DEPTH: usize = 128;
 
+/// Interpret a record field as a character of a string.
+///
+/// LLVM stores strings as (on most hosts, signed) `char`s, so characters outside of ASCII
+/// are found sign-extended to 32 or 64 bits as well as plain.
+pub(crate) fn decode_char(field: u64) -> Result<u8, TryFromIntError> {
+    match field {
+        0xffff_ff80..=0xffff_ffff | 0xffff_ffff_ffff_ff80..=u64::MAX => Ok(field as u8),
+        _ => u8::try_from(field),
+    }
+}
+
 /// An "unrolled" record. This is internally indistinguishable from a raw bitstream
 /// [`Record`](llvm_bitstream::record::Record), but is newtyped to enforce proper
 /// isolation of concerns.
@@ -52,10 +64,10 @@ impl Record {
     }
 
     fn decode_string(fields: &[u64]) -> Result<String, RecordStringError> {
-        // Each individual field in our string must fit into a byte.
+        // Each individual field in our string must be a character.
         let raw = fields
             .iter()
-            .map(|f| u8::try_from(*f))
+            .map(|f| decode_char(*f))
             .collect::<Result<Vec<_>, _>>()?;
 
         // Finally, the buffer itself must decode correctly.
-- 
2.43.0

