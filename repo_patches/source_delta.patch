From 8346102314958449f15744f3e249e03875e34006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:48 +0000
Subject: [PATCH 01/18] fix: read segments without meta data according to the
 ToC flag

---
 src/io/reader.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/io/reader.rs b/src/io/reader.rs
index 7d200b7..28d8cda 100644
--- a/src/io/reader.rs
+++ b/src/io/reader.rs
@@ -46,14 +46,17 @@ pub trait TdmsReader<R: Read + Seek>: Sized {
         let next_segment_offset = self.read_value()?;
         let raw_data_offset = self.read_value()?;
 
-        //todo handle no meta data mode.
-        let meta_data = self.read_meta()?;
+        let meta_data = if toc.contains_meta_data {
+            Some(self.read_meta()?)
+        } else {
+            None
+        };
 
         Ok(Segment {
             toc,
             next_segment_offset,
             raw_data_offset,
-            meta_data: Some(meta_data),
+            meta_data,
         })
     }
 }
-- 
2.43.0


From 6392c6f73613d2362cf1d345c04817e52f416364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:50 +0000
Subject: [PATCH 02/18] fix: use the TDMS codes for the double and extended
 with unit types

---
 src/io/data_types/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/data_types/mod.rs b/src/io/data_types/mod.rs
index cf11837..8e5bdc3 100644
--- a/src/io/data_types/mod.rs
+++ b/src/io/data_types/mod.rs
@@ -51,8 +51,8 @@ pub enum DataType {
     DoubleFloat = 10,
     ExtendedFloat = 11,
     SingleFloatWithUnit = 0x19,
-    DoubleFloatWithUnit = 12,
-    ExtendedFloatWithUnit = 13,
+    DoubleFloatWithUnit = 0x1A,
+    ExtendedFloatWithUnit = 0x1B,
     TdmsString = 0x20,
     Boolean = 0x21,
     Timestamp = 0x44,
-- 
2.43.0


From 98bc39a89c88f9b8a803c651bcc172956252137d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:52 +0000
Subject: [PATCH 03/18] fix: report the stored size of timestamps and extended
 floats

---
 src/io/data_types/extended.rs | 2 ++
 src/io/data_types/mod.rs      | 6 +++---
 src/raw_data/write.rs         | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/io/data_types/extended.rs b/src/io/data_types/extended.rs
index 33d11ef..f933f76 100644
--- a/src/io/data_types/extended.rs
+++ b/src/io/data_types/extended.rs
@@ -33,6 +33,8 @@ impl TdmsStorageType for ExtendedRaw {
 
     const NATURAL_TYPE: DataType = DataType::ExtendedFloat;
 
+    const SIZE_BYTES: usize = EXT_SIZE;
+
     fn read_le(reader: &mut impl Read) -> StorageResult<Self> {
         let mut buffer = [0u8; U128_SIZE];
         reader.read_exact(&mut buffer[0..EXT_SIZE])?;
diff --git a/src/io/data_types/mod.rs b/src/io/data_types/mod.rs
index 8e5bdc3..14c7c4d 100644
--- a/src/io/data_types/mod.rs
+++ b/src/io/data_types/mod.rs
@@ -73,13 +73,13 @@ impl DataType {
             DataType::I64 | DataType::U64 => 8,
             DataType::SingleFloat => 4,
             DataType::DoubleFloat => 8,
-            DataType::ExtendedFloat => 16,
+            DataType::ExtendedFloat => 10,
             DataType::SingleFloatWithUnit => 4,
             DataType::DoubleFloatWithUnit => 8,
-            DataType::ExtendedFloatWithUnit => 16,
+            DataType::ExtendedFloatWithUnit => 10,
             DataType::TdmsString => 0,
             DataType::Boolean => 1,
-            DataType::Timestamp => 8,
+            DataType::Timestamp => 16,
             DataType::FixedPoint => 8,
             DataType::ComplexSingleFloat => 8,
             DataType::ComplexDoubleFloat => 16,
diff --git a/src/raw_data/write.rs b/src/raw_data/write.rs
index 4650416..6cc38ff 100644
--- a/src/raw_data/write.rs
+++ b/src/raw_data/write.rs
@@ -33,7 +33,7 @@ impl<D: TdmsStorageType> WriteBlock for &[D] {
     }
 
     fn size(&self) -> usize {
-        std::mem::size_of_val(*self)
+        self.iter().map(|item| item.size()).sum()
     }
 }
 
-- 
2.43.0


From 945a32f32cf67cedfced8c96bd02417292cf3928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:55 +0000
Subject: [PATCH 04/18] fix: reject data blocks outside the file address range
 without overflowing

---
 src/index/mod.rs    |  2 +-
 src/raw_data/mod.rs | 12 +++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/index/mod.rs b/src/index/mod.rs
index e79241b..107e1f0 100644
--- a/src/index/mod.rs
+++ b/src/index/mod.rs
@@ -172,7 +172,7 @@ impl Index {
                 .data_locations
                 .iter()
                 .map(|location| location.number_of_samples)
-                .sum()
+                .fold(0u64, u64::saturating_add)
         })
     }
 
diff --git a/src/raw_data/mod.rs b/src/raw_data/mod.rs
index a437311..4d0477c 100644
--- a/src/raw_data/mod.rs
+++ b/src/raw_data/mod.rs
@@ -142,8 +142,18 @@ impl DataBlock {
             return Err(TdmsError::NoActiveChannelsInDataBlock);
         }
 
+        // Every position in the block must be usable as a (signed) file offset.
+        let start = segment_start
+            .checked_add(LEAD_IN_BYTES)
+            .and_then(|start| start.checked_add(segment.raw_data_offset))
+            .ok_or(TdmsError::SegmentAddressOverflow)?;
+        match start.checked_add(length.get()) {
+            Some(end) if end <= i64::MAX as u64 => {}
+            _ => return Err(TdmsError::SegmentAddressOverflow),
+        }
+
         Ok(DataBlock {
-            start: segment.raw_data_offset + LEAD_IN_BYTES + segment_start,
+            start,
             length,
             layout,
             channels: active_channels_meta,
-- 
2.43.0


From aed835da072df8d8ef34b7c3866f147939505f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:11 +0000
Subject: [PATCH 05/18] fix: only skip the meta data when the channels and
 formats are unchanged

---
 src/file/file_writer.rs | 8 ++++++--
 src/index/writing.rs    | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/file/file_writer.rs b/src/file/file_writer.rs
index 05d9b4b..bf2f7bb 100644
--- a/src/file/file_writer.rs
+++ b/src/file/file_writer.rs
@@ -2,7 +2,7 @@ use crate::error::TdmsError;
 use crate::index::{DataFormat, Index};
 use crate::io::data_types::TdmsStorageType;
 use crate::io::writer::TdmsWriter;
-use crate::meta_data::{MetaData, ObjectMetaData, Segment, ToC};
+use crate::meta_data::{MetaData, ObjectMetaData, RawDataIndex, Segment, ToC};
 use crate::paths::ChannelPath;
 use crate::raw_data::{MultiChannelSlice, WriteBlock};
 use crate::{DataLayout, PropertyPath, PropertyValue};
@@ -129,7 +129,11 @@ impl<'a, F: Write, W: TdmsWriter<F>> DataStreamWriter<'a, F, W> {
 
         let (matches_live, channels) = index.check_write_values(channels);
 
-        let meta = if matches_live {
+        let formats_match = channels
+            .iter()
+            .all(|(_, raw_index)| *raw_index == RawDataIndex::MatchPrevious);
+
+        let meta = if matches_live && formats_match {
             None
         } else {
             let objects: Vec<ObjectMetaData> = channels
diff --git a/src/index/writing.rs b/src/index/writing.rs
index 4ad8ed3..f8241ca 100644
--- a/src/index/writing.rs
+++ b/src/index/writing.rs
@@ -14,7 +14,9 @@ impl Index {
         &self,
         objects: Vec<(&'b str, DataFormat)>,
     ) -> (bool, Vec<(&'b str, RawDataIndex)>) {
-        let live_matches = if !self.active_objects.is_empty() {
+        let live_matches = if !self.active_objects.is_empty()
+            && self.active_objects.len() == objects.len()
+        {
             self.active_objects
                 .iter()
                 .zip(objects.iter())
-- 
2.43.0


From 2719d4085c9248f9805dc09efc92f6d847e679f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:13 +0000
Subject: [PATCH 06/18] fix: reject empty channel data before writing a segment

---
 src/file/file_writer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/file/file_writer.rs b/src/file/file_writer.rs
index bf2f7bb..9c37c1a 100644
--- a/src/file/file_writer.rs
+++ b/src/file/file_writer.rs
@@ -115,6 +115,10 @@ impl<'a, F: Write, W: TdmsWriter<F>> DataStreamWriter<'a, F, W> {
         layout: DataLayout,
     ) -> Result<Self, TdmsError> {
         let channel_count = NonZeroUsize::new(channels.len()).ok_or(TdmsError::NoChannels)?;
+        if values.is_empty() {
+            // The index rejects empty data blocks so don't write one.
+            return Err(TdmsError::ZeroLengthDataBlock);
+        }
         let raw_data = MultiChannelSlice::from_slice(values, channel_count)?;
         let data_structures = raw_data
             .data_structure()
-- 
2.43.0


From 16779bc7879a65126b745f355e92af0dcdcd972b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:15 +0000
Subject: [PATCH 07/18] fix: append new segments where the index expects them

---
 src/file/mod.rs  | 5 +++--
 src/index/mod.rs | 5 +++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/file/mod.rs b/src/file/mod.rs
index 7f37a88..ebfae50 100644
--- a/src/file/mod.rs
+++ b/src/file/mod.rs
@@ -179,8 +179,9 @@ impl<F: Write + Read + Seek> TdmsFile<F> {
     pub fn writer(
         &mut self,
     ) -> Result<TdmsFileWriter<'_, F, LittleEndianWriter<&mut F>>, TdmsError> {
-        //make sure we are at the end.
-        self.file.seek(SeekFrom::End(0))?;
+        //make sure we are at the end of the last segment.
+        self.file
+            .seek(SeekFrom::Start(self.index.next_segment_start()))?;
         Ok(TdmsFileWriter::new(
             &mut self.index,
             LittleEndianWriter::from_writer(&mut self.file),
diff --git a/src/index/mod.rs b/src/index/mod.rs
index 107e1f0..3c6c902 100644
--- a/src/index/mod.rs
+++ b/src/index/mod.rs
@@ -176,6 +176,11 @@ impl Index {
         })
     }
 
+    /// The position in the file where the next segment begins.
+    pub fn next_segment_start(&self) -> u64 {
+        self.next_segment_start
+    }
+
     pub fn get_data_block(&self, index: usize) -> Option<&DataBlock> {
         self.data_blocks.get(index)
     }
-- 
2.43.0


From 26c6ca827a269ed014ecf389d54e6327bc58a9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:10 +0000
Subject: [PATCH 08/18] fix: skip samples per channel in contiguous data

---
 src/raw_data/contigious_multi_channel_read.rs | 68 +++++--------------
 1 file changed, 17 insertions(+), 51 deletions(-)

diff --git a/src/raw_data/contigious_multi_channel_read.rs b/src/raw_data/contigious_multi_channel_read.rs
index a724010..10ff3dc 100644
--- a/src/raw_data/contigious_multi_channel_read.rs
+++ b/src/raw_data/contigious_multi_channel_read.rs
@@ -54,53 +54,11 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelContiguousReader<R, T> {
     /// To skip samples, we need to skip within each channel's contiguous data.
     pub fn read_from<D: TdmsStorageType>(
         &mut self,
-        mut channels: RecordPlan<D>,
+        channels: RecordPlan<D>,
         start_sample: u64,
     ) -> Result<usize, TdmsError> {
-        self.reader.to_file_position(self.block_start)?;
-
-        let total_sub_blocks = self.block_size.get() / channels.block_size() as u64;
-
-        // Calculate how many complete sub-blocks to skip and the remainder
-        let sub_block_length = channels.read_instructions()[0].length as u64;
-        let sub_blocks_to_skip = start_sample / sub_block_length;
-        let remainder_skip = start_sample % sub_block_length;
-
-        let mut length = 0;
-
-        for sub_block_idx in 0..total_sub_blocks {
-            if sub_block_idx < sub_blocks_to_skip {
-                // Skip entire sub-block by seeking past it
-                let skip_bytes = channels.block_size() as i64;
-                self.reader.move_position(skip_bytes)?;
-            } else if sub_block_idx == sub_blocks_to_skip {
-                // First sub-block to read - apply remainder skip
-                for channel in channels.read_instructions() {
-                    if let RecordEntryPlan::Read {
-                        block_skip: skip_first_samples,
-                        ..
-                    } = &mut channel.plan
-                    {
-                        *skip_first_samples = remainder_skip;
-                    }
-                }
-                length += self.read_sub_block(&mut channels)?;
-            } else {
-                for channel in channels.read_instructions() {
-                    if let RecordEntryPlan::Read {
-                        block_skip: skip_first_samples,
-                        ..
-                    } = &mut channel.plan
-                    {
-                        *skip_first_samples = 0;
-                    }
-                }
-                // Subsequent sub-blocks - no skip
-                length += self.read_sub_block(&mut channels)?;
-            }
-        }
-
-        Ok(length)
+        let skip_amounts = vec![start_sample; channels.block_skips().count()];
+        self.read_with_per_channel_skip(channels, &skip_amounts)
     }
 
     /// Read the data from the block with per-channel skip amounts.
@@ -116,21 +74,29 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelContiguousReader<R, T> {
         let total_sub_blocks = self.block_size.get() / channels.block_size() as u64;
 
         // Calculate per-channel sub-blocks to skip and remainders
-        let sub_block_length = channels.read_instructions()[0].length as u64;
+        // Each channel can have a different length (including zero) in the sub-block.
+        let sub_block_lengths: Vec<u64> = channels
+            .read_instructions()
+            .iter()
+            .filter(|entry| matches!(entry.plan, RecordEntryPlan::Read { .. }))
+            .map(|entry| (entry.length as u64).max(1))
+            .collect();
         let sub_blocks_to_skip: Vec<u64> = skip_amounts
             .iter()
-            .map(|&skip| skip / sub_block_length)
+            .zip(sub_block_lengths.iter())
+            .map(|(&skip, &length)| skip / length)
             .collect();
         let remainder_skips: Vec<u64> = skip_amounts
             .iter()
-            .map(|&skip| skip % sub_block_length)
+            .zip(sub_block_lengths.iter())
+            .map(|(&skip, &length)| skip % length)
             .collect();
 
         let mut length = 0;
 
         for sub_block_idx in 0..total_sub_blocks {
             // Check if any channel needs to read from this sub-block
-            let any_channel_reads = sub_blocks_to_skip.iter().all(|&skip| sub_block_idx >= skip);
+            let any_channel_reads = sub_blocks_to_skip.iter().any(|&skip| sub_block_idx >= skip);
 
             if !any_channel_reads {
                 // Skip entire sub-block
@@ -183,8 +149,8 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelContiguousReader<R, T> {
             // Subsequent sub-blocks - no skip
             0
         } else {
-            // Should not happen if any_channel_reads is correct
-            0
+            // This channel hasn't reached its start yet - skip the whole sub-block.
+            u64::MAX
         }
     }
 
-- 
2.43.0


From af8423467b6686f8e46610382bd58e8535eff2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:36 +0000
Subject: [PATCH 09/18] fix: track read progress per channel

---
 src/file/channel_reader.rs                    | 18 +++++++++++-------
 src/raw_data/contigious_multi_channel_read.rs |  3 ++-
 src/raw_data/mod.rs                           |  8 ++++++++
 3 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/file/channel_reader.rs b/src/file/channel_reader.rs
index 60b9d93..6e0868a 100644
--- a/src/file/channel_reader.rs
+++ b/src/file/channel_reader.rs
@@ -170,24 +170,28 @@ impl<F: std::io::Read + std::io::Seek> TdmsFile<F> {
                 })?;
 
             // Use fast path if no skip needed, slow path otherwise
-            let location_samples_read = if any_skip_needed {
+            if any_skip_needed {
                 let mut channels_with_skip =
                     get_block_read_data_with_skip(&location, output, &channel_progress);
-                block.read_with_per_channel_skip(&mut self.file, &mut channels_with_skip)?
+                block.read_with_per_channel_skip(&mut self.file, &mut channels_with_skip)?;
             } else {
                 let mut channels_to_read =
                     get_block_read_data(&location, output, &channel_progress);
-                block.read(&mut self.file, &mut channels_to_read)?
-            };
+                block.read(&mut self.file, &mut channels_to_read)?;
+            }
 
-            // Update progress
+            // Update progress. Channels can have different skips and lengths in the block.
             for (plan, progress) in location
                 .channel_indexes
                 .iter()
                 .zip(channel_progress.iter_mut())
             {
-                if plan.is_some() {
-                    progress.add_samples(location_samples_read);
+                if let Some(plan) = plan {
+                    let available = block
+                        .channel_samples(plan.index)?
+                        .saturating_sub(plan.samples_to_skip);
+                    let remaining = progress.samples_target.saturating_sub(progress.samples_read);
+                    progress.add_samples(available.min(remaining as u64) as usize);
                 }
             }
 
diff --git a/src/raw_data/contigious_multi_channel_read.rs b/src/raw_data/contigious_multi_channel_read.rs
index 10ff3dc..d505038 100644
--- a/src/raw_data/contigious_multi_channel_read.rs
+++ b/src/raw_data/contigious_multi_channel_read.rs
@@ -177,7 +177,8 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelContiguousReader<R, T> {
                     }
 
                     // Read the remaining samples
-                    length = self.read_sequential_samples(output, samples_to_read)?;
+                    let read_length = self.read_sequential_samples(output, samples_to_read)?;
+                    length = length.max(read_length);
                 }
                 RecordEntryPlan::Skip(bytes) => {
                     let skip_bytes = *bytes * read_instruction.length as i64;
diff --git a/src/raw_data/mod.rs b/src/raw_data/mod.rs
index 4d0477c..abf2a9f 100644
--- a/src/raw_data/mod.rs
+++ b/src/raw_data/mod.rs
@@ -196,6 +196,14 @@ impl DataBlock {
         Ok(chunk_count)
     }
 
+    /// The number of samples that the channel at the given index has in the block.
+    pub fn channel_samples(&self, channel_index: usize) -> Result<u64, TdmsError> {
+        self.channels[channel_index]
+            .number_of_values
+            .checked_mul(self.number_of_chunks()? as u64)
+            .ok_or(TdmsError::ChunkSizeOverflow)
+    }
+
     /// Read the data from the block for the channels specified into the output slices.
     ///
     /// We assume all channels in the block have the same length and so return the maximum
-- 
2.43.0


From 336e612b82d13224275f65868e771335883c2f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:39 +0000
Subject: [PATCH 10/18] fix: apply per channel skips in block order

---
 src/raw_data/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/raw_data/mod.rs b/src/raw_data/mod.rs
index abf2a9f..fecd22b 100644
--- a/src/raw_data/mod.rs
+++ b/src/raw_data/mod.rs
@@ -341,6 +341,9 @@ impl DataBlock {
         reader: &mut (impl Read + Seek),
         channels_to_read: &'b mut [BlockReadChannelConfig<'b, D>],
     ) -> Result<usize, TdmsError> {
+        // The record plan is in block order so the skips must match.
+        channels_to_read.sort_by_key(|config| config.channel_index);
+
         // Extract skip amounts first (before mutable borrow)
         let skip_amounts: Vec<u64> = channels_to_read
             .iter()
-- 
2.43.0


From a34ee03cdf44e92ac3c06e1a79d8c88effe2289b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:41 +0000
Subject: [PATCH 11/18] fix: keep reading interleaved rows while a channel is
 still skipping

---
 src/raw_data/interleaved_multi_channel_read.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/raw_data/interleaved_multi_channel_read.rs b/src/raw_data/interleaved_multi_channel_read.rs
index e39e548..364ceb6 100644
--- a/src/raw_data/interleaved_multi_channel_read.rs
+++ b/src/raw_data/interleaved_multi_channel_read.rs
@@ -51,6 +51,11 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelInterleavedReader<R, T> {
         // Find minimum skip (we can skip entire rows up to this point)
         let min_skip = channels.block_skips().min().unwrap_or(0);
 
+        // The whole block can be skipped.
+        if min_skip >= total_row_count {
+            return Ok(0);
+        }
+
         // Skip entire rows
         if min_skip > 0 {
             let skip_bytes = min_skip as i64 * channels.row_size() as i64;
@@ -68,15 +73,16 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelInterleavedReader<R, T> {
         let mut samples_read = 0;
         for row in 0..rows_to_process {
             let mut any_values_read = false;
+            let mut any_values_skipped = false;
             for read_instruction in channels.read_instructions().iter_mut() {
                 match &mut read_instruction.plan {
                     RecordEntryPlan::Read { output, block_skip } => {
                         let read_value = self.reader.read_value()?;
 
                         // Only write if we've skipped enough for this channel
-                        if row >= *block_skip
-                            && let Some(value) = output.next()
-                        {
+                        if row < *block_skip {
+                            any_values_skipped = true;
+                        } else if let Some(value) = output.next() {
                             *value = read_value;
                             any_values_read = true;
                         }
@@ -86,10 +92,11 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelInterleavedReader<R, T> {
                     }
                 };
             }
-            if !any_values_read {
+            if any_values_read {
+                samples_read += 1;
+            } else if !any_values_skipped {
                 break;
             }
-            samples_read += 1;
         }
 
         Ok(samples_read)
-- 
2.43.0


From c19cf3af3b69ddb053f2f41d5fd8067177f20ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:15 +0000
Subject: [PATCH 12/18] fix: handle separators and lone quotes in object names

---
 src/paths.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/paths.rs b/src/paths.rs
index f22f764..b14c154 100644
--- a/src/paths.rs
+++ b/src/paths.rs
@@ -33,9 +33,7 @@ fn parse_path(path: ObjectPath<'_>) -> Result<(Option<&str>, Option<&str>), Tdms
         return Ok((None, None));
     }
 
-    let mut parts = path
-        .split('/')
-        .skip(1)
+    let mut parts = split_levels(path)
         .map(|p| parse_name(p).ok_or_else(|| TdmsError::InvalidObjectPath(path.to_string())));
     let group = invert(parts.next())?;
     let channel = invert(parts.next())?;
@@ -48,13 +46,21 @@ fn parse_path(path: ObjectPath<'_>) -> Result<(Option<&str>, Option<&str>), Tdms
     Ok((group, channel))
 }
 
+/// Splits the path into the (still quoted) names. A separator inside quotes is part of the name.
+fn split_levels(path: ObjectPath<'_>) -> impl Iterator<Item = &str> {
+    let mut in_quotes = false;
+    path.split(move |c| {
+        if c == '\'' {
+            in_quotes = !in_quotes;
+        }
+        c == '/' && !in_quotes
+    })
+    .skip(1)
+}
+
 //expects name with quotes and removes the quotes.
 fn parse_name(name: &str) -> Option<&str> {
-    if !name.starts_with('\'') || !name.ends_with('\'') {
-        return None;
-    }
-
-    Some(&name[1..name.len() - 1])
+    name.strip_prefix('\'')?.strip_suffix('\'')
 }
 
 /// Get the group name for the path, if one exists.
@@ -118,13 +124,7 @@ impl PropertyPath {
 
     /// Get the levels of the path structure
     fn path_levels(&self) -> impl Iterator<Item = &str> {
-        self.0.split('/').skip(1).filter_map(|value| {
-            if value.starts_with("'") && value.ends_with("'") {
-                Some(&value[1..value.len() - 1])
-            } else {
-                None
-            }
-        })
+        split_levels(&self.0).filter_map(parse_name)
     }
 
     /// Get the group name from the path, if there is one.
@@ -164,7 +164,7 @@ impl PropertyPath {
     }
 
     fn path_depth(&self) -> usize {
-        self.0.chars().filter(|c| *c == '/').count()
+        split_levels(&self.0).count()
     }
 
     fn is_channel(&self) -> bool {
-- 
2.43.0


From 92b0e1942f4ff9fecb43ed9555f944f45b09fa3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:44 +0000
Subject: [PATCH 13/18] fix: read the size of string channels and refuse string
 channel data

---
 src/file/file_writer.rs |  6 +++++-
 src/meta_data.rs        |  8 +++++++-
 src/raw_data/records.rs | 23 +++++++++++++++++++----
 3 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/file/file_writer.rs b/src/file/file_writer.rs
index 9c37c1a..ef30e55 100644
--- a/src/file/file_writer.rs
+++ b/src/file/file_writer.rs
@@ -1,6 +1,6 @@
 use crate::error::TdmsError;
 use crate::index::{DataFormat, Index};
-use crate::io::data_types::TdmsStorageType;
+use crate::io::data_types::{DataType, TdmsStorageType};
 use crate::io::writer::TdmsWriter;
 use crate::meta_data::{MetaData, ObjectMetaData, RawDataIndex, Segment, ToC};
 use crate::paths::ChannelPath;
@@ -115,6 +115,10 @@ impl<'a, F: Write, W: TdmsWriter<F>> DataStreamWriter<'a, F, W> {
         layout: DataLayout,
     ) -> Result<Self, TdmsError> {
         let channel_count = NonZeroUsize::new(channels.len()).ok_or(TdmsError::NoChannels)?;
+        if D::NATURAL_TYPE == DataType::TdmsString {
+            // The offset table of string data is not supported.
+            return Err(TdmsError::UnsupportedType(D::NATURAL_TYPE));
+        }
         if values.is_empty() {
             // The index rejects empty data blocks so don't write one.
             return Err(TdmsError::ZeroLengthDataBlock);
diff --git a/src/meta_data.rs b/src/meta_data.rs
index c6138c4..4c36543 100644
--- a/src/meta_data.rs
+++ b/src/meta_data.rs
@@ -286,10 +286,16 @@ impl TdmsMetaData for RawDataIndex {
                 let data_type: DataType = reader.read_meta()?;
                 let _array_dims: u32 = reader.read_value()?; //always 1.
                 let number_of_values: u64 = reader.read_value()?;
+                //only stored for variable length types.
+                let total_size_bytes = if data_type == DataType::TdmsString {
+                    Some(reader.read_value()?)
+                } else {
+                    None
+                };
                 let meta = RawDataMeta {
                     data_type,
                     number_of_values,
-                    total_size_bytes: None,
+                    total_size_bytes,
                 };
                 RawDataIndex::RawData(meta)
             }
diff --git a/src/raw_data/records.rs b/src/raw_data/records.rs
index 913cd21..0d5d62b 100644
--- a/src/raw_data/records.rs
+++ b/src/raw_data/records.rs
@@ -4,7 +4,11 @@
 //! This is used to define a read pattern for a data segment and
 //! is used by the data readers to efficiently read the data.
 
-use crate::{error::TdmsError, io::data_types::TdmsStorageType, meta_data::RawDataMeta};
+use crate::{
+    error::TdmsError,
+    io::data_types::{DataType, TdmsStorageType},
+    meta_data::RawDataMeta,
+};
 
 /// An instruction on how to move through the record based on the read instructions.
 ///
@@ -129,9 +133,16 @@ impl<'o, 'b: 'o, T: TdmsStorageType> RecordPlan<'o, T> {
     fn build_base_record(channels: &[RawDataMeta]) -> Self {
         let mut plan = Vec::with_capacity(channels.len());
         for channel in channels {
-            plan.push(RecordEntry {
-                length: channel.number_of_values as usize,
-                plan: RecordEntryPlan::Skip(channel.data_type.size() as i64),
+            plan.push(match channel.total_size_bytes {
+                // Variable length data can only be skipped as a whole.
+                Some(total_size) => RecordEntry {
+                    length: 1,
+                    plan: RecordEntryPlan::Skip(total_size as i64),
+                },
+                None => RecordEntry {
+                    length: channel.number_of_values as usize,
+                    plan: RecordEntryPlan::Skip(channel.data_type.size() as i64),
+                },
             })
         }
         Self(plan)
@@ -156,6 +167,10 @@ fn validate_types_match<T: TdmsStorageType>(
     channels: &[RawDataMeta],
 ) -> Result<(), TdmsError> {
     for (output_idx, _) in outputs.iter() {
+        if channels[*output_idx].data_type == DataType::TdmsString {
+            // The offset table of string data is not supported.
+            return Err(TdmsError::UnsupportedType(DataType::TdmsString));
+        }
         if !T::SUPPORTED_TYPES.contains(&channels[*output_idx].data_type) {
             return Err(TdmsError::DataTypeMismatch(
                 channels[*output_idx].data_type,
-- 
2.43.0


From 113208f92153e713078ef075a04f82218bd086a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:46 +0000
Subject: [PATCH 14/18] fix: reading a block without sized data is not a
 division by zero

---
 src/raw_data/contigious_multi_channel_read.rs  | 7 ++++++-
 src/raw_data/interleaved_multi_channel_read.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/raw_data/contigious_multi_channel_read.rs b/src/raw_data/contigious_multi_channel_read.rs
index d505038..0b93bae 100644
--- a/src/raw_data/contigious_multi_channel_read.rs
+++ b/src/raw_data/contigious_multi_channel_read.rs
@@ -71,7 +71,12 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelContiguousReader<R, T> {
     ) -> Result<usize, TdmsError> {
         self.reader.to_file_position(self.block_start)?;
 
-        let total_sub_blocks = self.block_size.get() / channels.block_size() as u64;
+        // No sub-blocks if none of the channels have any data.
+        let total_sub_blocks = self
+            .block_size
+            .get()
+            .checked_div(channels.block_size() as u64)
+            .unwrap_or(0);
 
         // Calculate per-channel sub-blocks to skip and remainders
         // Each channel can have a different length (including zero) in the sub-block.
diff --git a/src/raw_data/interleaved_multi_channel_read.rs b/src/raw_data/interleaved_multi_channel_read.rs
index 364ceb6..95bd8b6 100644
--- a/src/raw_data/interleaved_multi_channel_read.rs
+++ b/src/raw_data/interleaved_multi_channel_read.rs
@@ -46,7 +46,12 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelInterleavedReader<R, T> {
         mut channels: RecordPlan<D>,
     ) -> Result<usize, TdmsError> {
         self.reader.to_file_position(self.block_start)?;
-        let total_row_count = self.block_size.get() / channels.row_size() as u64;
+        // No rows if none of the channels have any data.
+        let total_row_count = self
+            .block_size
+            .get()
+            .checked_div(channels.row_size() as u64)
+            .unwrap_or(0);
 
         // Find minimum skip (we can skip entire rows up to this point)
         let min_skip = channels.block_skips().min().unwrap_or(0);
-- 
2.43.0


From ad88bb7323b436a7913187d1b463b8dfd5c346e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:24 +0000
Subject: [PATCH 15/18] fix: do not hand uninitialised memory to the stream
 when reading strings

---
 src/io/data_types/strings.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/io/data_types/strings.rs b/src/io/data_types/strings.rs
index 6670d7e..3da7ccd 100644
--- a/src/io/data_types/strings.rs
+++ b/src/io/data_types/strings.rs
@@ -10,16 +10,11 @@ fn read_string_with_length(reader: &mut impl Read, length: u32) -> Result<String
     buffer
         .try_reserve(length as usize)
         .map_err(|_| TdmsError::StringAllocationFailed)?;
-    // SAFETY: This is safe because:
-    // 1. We just allocated capacity
-    // 2. The memory will be immediately filled by read_exact
-    // 3. No drop checks are needed since we're dealing with u8 (no destructors)
-    //
-    // If we can get a fallible allocation with fill in the future, we should use that.
-    unsafe {
-        buffer.set_len(length as usize);
+    // Read into the spare capacity: a stream must never get to see uninitialised memory.
+    let read = reader.take(length as u64).read_to_end(&mut buffer)?;
+    if read < length as usize {
+        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
     }
-    reader.read_exact(&mut buffer[..])?;
     let value = String::from_utf8(buffer)?;
     Ok(value)
 }
-- 
2.43.0


From 9c7b56216f9133c09114e3258f8c4d69ccfc1993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:30 +0000
Subject: [PATCH 16/18] fix: refuse timestamps whose epoch conversion overflows

---
 src/properties.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/properties.rs b/src/properties.rs
index e67d479..e96629c 100644
--- a/src/properties.rs
+++ b/src/properties.rs
@@ -269,16 +269,22 @@ impl<'a> TryFrom<&'a PropertyValue> for &'a str {
 mod chrono_support {
     use super::*;
     use chrono::{DateTime, Utc};
+    use labview_interop::types::timestamp::{LVTimeError, UNIX_EPOCH_IN_LV_SECONDS_I64};
+
+    fn to_chrono(lvtime: LVTime) -> Result<DateTime<Utc>, TdmsError> {
+        // The conversion between the epochs does not check for overflow.
+        let result = match lvtime.seconds().checked_sub(UNIX_EPOCH_IN_LV_SECONDS_I64) {
+            Some(_) => lvtime.try_into(),
+            None => Err(LVTimeError::ChronoOutOfRange),
+        };
+        result.map_err(TdmsError::ChronoDateTimeConversionFailed)
+    }
 
     impl TryFrom<PropertyValue> for DateTime<Utc> {
         type Error = TdmsError;
 
         fn try_from(value: PropertyValue) -> Result<Self, Self::Error> {
-            let lvtime: LVTime = value.try_into()?;
-            let chrono_time: DateTime<Utc> = lvtime
-                .try_into()
-                .map_err(TdmsError::ChronoDateTimeConversionFailed)?;
-            Ok(chrono_time)
+            to_chrono(value.try_into()?)
         }
     }
 
@@ -286,11 +292,7 @@ mod chrono_support {
         type Error = TdmsError;
 
         fn try_from(value: &'a PropertyValue) -> Result<Self, Self::Error> {
-            let lvtime: LVTime = value.try_into()?;
-            let chrono_time: DateTime<Utc> = lvtime
-                .try_into()
-                .map_err(TdmsError::ChronoDateTimeConversionFailed)?;
-            Ok(chrono_time)
+            to_chrono(value.try_into()?)
         }
     }
 
-- 
2.43.0


From b9068047dba481d8a8c266944d827e008728d900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:17 +0000
Subject: [PATCH 17/18] fix: parsing the text of a path keeps it, so that
 channels whose stored name contains doubled quotes can be addressed

---
 src/paths.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/paths.rs b/src/paths.rs
index b14c154..53b2e29 100644
--- a/src/paths.rs
+++ b/src/paths.rs
@@ -188,13 +188,9 @@ impl<'a> TryFrom<ObjectPath<'a>> for PropertyPath {
     type Error = TdmsError;
 
     fn try_from(value: ObjectPath) -> Result<Self, Self::Error> {
-        let parsed = parse_path(value)?;
-        match parsed {
-            (None, None) => Ok(Self::file()),
-            (Some(group), None) => Ok(Self::group(group)),
-            (Some(group), Some(channel)) => Ok(Self::channel(group, channel)),
-            _ => unreachable!(),
-        }
+        parse_path(value)?;
+        // Escaping the names again could give the path of another object.
+        Ok(Self(value.to_string()))
     }
 }
 
-- 
2.43.0


From bd8a9aeb7606dd4e65c51afbb70f52a03ae5fb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:19 +0000
Subject: [PATCH 18/18] fix: listing the channels of a group leaves out those
 of a group whose name continues after a quote

---
 src/file/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/file/mod.rs b/src/file/mod.rs
index ebfae50..0b2857c 100644
--- a/src/file/mod.rs
+++ b/src/file/mod.rs
@@ -148,7 +148,14 @@ impl<F: Read + Seek> TdmsFile<F> {
         group: &'b PropertyPath,
     ) -> impl Iterator<Item = ChannelPath> + 'c {
         let paths = self.index.paths_starting_with(group.path());
-        paths.filter_map(|path| ChannelPath::try_from(path).ok())
+        // The path of another group can start with this path if its name contains quotes.
+        paths
+            .filter_map(|path| ChannelPath::try_from(path).ok())
+            .filter(|channel| {
+                group
+                    .group_name()
+                    .is_none_or(|name| channel.group_name() == name)
+            })
     }
 }
 
-- 
2.43.0

