From 6e8ee7d69e79ec34e07075dd02da39c398304e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:21 +0000
Subject: [PATCH 01/49] fix: never store compressed data that is as long as the
 original

compress() kept data one byte shorter than the original; with the method byte the
stored sector is exactly as long as the original and readers take it as raw.
---
 mopaq/src/compression/compress.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mopaq/src/compression/compress.rs b/mopaq/src/compression/compress.rs
index 0582737..80d2473 100644
--- a/mopaq/src/compression/compress.rs
+++ b/mopaq/src/compression/compress.rs
@@ -14,8 +14,9 @@ pub fn compress(data: &[u8], method: u8) -> Result<Vec<u8>> {
     let compressed = compress_internal(data, method)?;
 
     // MPQ format requires that compression saves at least 2 bytes
-    // If it doesn't, we return the original data uncompressed
-    if compressed.len() >= data.len() {
+    // If it doesn't, we return the original data uncompressed: readers recognise
+    // an uncompressed sector by its stored size being the full sector size
+    if compressed.len() + 1 >= data.len() {
         // Return uncompressed data (no compression byte prefix)
         Ok(data.to_vec())
     } else {
-- 
2.43.0


From d8eb225793fe81b3bb74ead5ae0316f94368b610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:21 +0000
Subject: [PATCH 02/49] fix: sparse compression emitted the end marker for runs
 of 127 zeros

---
 mopaq/src/compression/algorithms/sparse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mopaq/src/compression/algorithms/sparse.rs b/mopaq/src/compression/algorithms/sparse.rs
index fa82cd8..85e5888 100644
--- a/mopaq/src/compression/algorithms/sparse.rs
+++ b/mopaq/src/compression/algorithms/sparse.rs
@@ -59,7 +59,8 @@ pub(crate) fn compress(data: &[u8]) -> Result<Vec<u8>> {
         if zero_count > 0 {
             // Encode runs of zeros
             while zero_count > 0 {
-                let chunk = zero_count.min(0x7F);
+                // 0x80 | 0x7F is the end marker, so a run holds at most 0x7E zeros
+                let chunk = zero_count.min(0x7E);
                 output.push(0x80 | (chunk as u8));
                 zero_count -= chunk;
             }
-- 
2.43.0


From e417d1852f3ac774838e2c5788618022ddb72dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:21 +0000
Subject: [PATCH 03/49] fix: multi-sector files without a compressed sector
 could not be read back

The builder writes a sector offset table for every multi-sector file, but readers
only expect one when FLAG_COMPRESS is set.
---
 mopaq/src/builder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index c2fe5d8..1508683 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -987,6 +987,10 @@ impl ArchiveBuilder {
             // Multi-sector file
             let sector_count = file_data.len().div_ceil(*sector_size);
 
+            // A sector offset table is only looked for in files marked as compressed;
+            // sectors that did not shrink are stored raw at their full size
+            flags |= BlockEntry::FLAG_COMPRESS;
+
             // Set CRC flag early if enabled (needed for encryption key calculation)
             if self.generate_crcs {
                 flags |= BlockEntry::FLAG_SECTOR_CRC;
-- 
2.43.0


From 97ba4c12d831b2114b90ea9f4648a7fcad174b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:35 +0000
Subject: [PATCH 04/49] fix: write archive data to disk before renaming it into
 place

---
 mopaq/src/builder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index 1508683..c3e729b 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -557,6 +557,10 @@ impl ArchiveBuilder {
             }
         }
 
+        // The data has to be on disk before the rename is, or a power loss could leave
+        // an empty or partial archive at the destination
+        temp_file.as_file().sync_all()?;
+
         // Atomically rename temp file to final destination
         temp_file.persist(path).map_err(|e| Error::Io(e.error))?;
 
-- 
2.43.0


From cb32f144f7d7b3c0360732a40853170c24eac7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:07 +0000
Subject: [PATCH 05/49] fix: confirm HET hits with the full name hash

A HET entry keeps only a few hash bits, so names that were never added, or other
files' names, were resolved to the first file of v3/v4 archives.
---
 mopaq/src/archive.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 7deb01e..76ec3bc 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -11,7 +11,7 @@
 use crate::{
     builder::ArchiveBuilder,
     compression,
-    crypto::{decrypt_block, decrypt_dword, hash_string, hash_type},
+    crypto::{decrypt_block, decrypt_dword, hash_string, hash_type, jenkins_hash},
     header::{self, MpqHeader, UserDataHeader},
     special_files,
     tables::{BetTable, BlockTable, HashTable, HetTable, HiBlockTable},
@@ -876,7 +876,12 @@ impl Archive {
         if let (Some(het), Some(bet)) = (&self.het_table, &self.bet_table) {
             // Check if tables have actual entries
             if het.header.max_file_count > 0 && bet.header.file_count > 0 {
-                if let Some(file_index) = het.find_file(filename) {
+                // The HET table only holds a few bits of the name hash: a hit has to be
+                // confirmed with the full hash kept in the BET table
+                let confirmed = het.find_file(filename).filter(|&index| {
+                    bet.bet_hashes.get(index as usize) == Some(&jenkins_hash(filename))
+                });
+                if let Some(file_index) = confirmed {
                     if let Some(bet_info) = bet.get_file_info(file_index) {
                         return Ok(Some(FileInfo {
                             filename: filename.to_string(),
-- 
2.43.0


From 2f15729d50014794908b0744dc1ad5646c0a98a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:59 +0000
Subject: [PATCH 06/49] fix: BET entries wider than 57 bits were cut off, the
 last ones unreadable

Entries of larger archives need more than 64 bits; they were packed into and read
from a u64, and entries in the last 8 bytes of the file table were not found.
---
 mopaq/src/builder.rs    | 36 ++++++++++++++++++------------------
 mopaq/src/tables/bet.rs | 33 ++++++++++++++++++---------------
 2 files changed, 36 insertions(+), 33 deletions(-)

diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index c3e729b..2572725 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -1492,7 +1492,7 @@ impl ArchiveBuilder {
                     self.write_bit_entry(
                         &mut hash_table,
                         current_index,
-                        hash_entry,
+                        hash_entry as u128,
                         hash_entry_size + index_size,
                     )?;
 
@@ -1542,7 +1542,7 @@ impl ArchiveBuilder {
         &self,
         data: &mut [u8],
         index: usize,
-        value: u64,
+        value: u128,
         bit_size: u32,
     ) -> Result<()> {
         let bit_offset = index * bit_size as usize;
@@ -1566,20 +1566,20 @@ impl ArchiveBuilder {
             return Err(Error::invalid_format("Bit entry out of bounds"));
         }
 
-        // Read existing bits (limit to 8 bytes for u64)
-        let mut existing = 0u64;
-        let max_bytes = bytes_needed.min(8);
+        // Read existing bits (limit to 16 bytes for u128)
+        let mut existing = 0u128;
+        let max_bytes = bytes_needed.min(16);
         for i in 0..max_bytes {
-            if byte_offset + i < data.len() && i * 8 < 64 {
-                existing |= (data[byte_offset + i] as u64) << (i * 8);
+            if byte_offset + i < data.len() && i * 8 < 128 {
+                existing |= (data[byte_offset + i] as u128) << (i * 8);
             }
         }
 
         // Clear the bits we're about to write
-        let value_mask = if bit_size >= 64 {
-            u64::MAX
+        let value_mask = if bit_size >= 128 {
+            u128::MAX
         } else {
-            (1u64 << bit_size) - 1
+            (1u128 << bit_size) - 1
         };
         let mask = value_mask << bit_shift;
         existing &= !mask;
@@ -1587,9 +1587,9 @@ impl ArchiveBuilder {
         // Write the new value
         existing |= (value & value_mask) << bit_shift;
 
-        // Write back (limit to 8 bytes for u64)
+        // Write back (limit to 16 bytes for u128)
         for i in 0..max_bytes {
-            if byte_offset + i < data.len() && i * 8 < 64 {
+            if byte_offset + i < data.len() && i * 8 < 128 {
                 data[byte_offset + i] = (existing >> (i * 8)) as u8;
             }
         }
@@ -1758,11 +1758,11 @@ impl ArchiveBuilder {
                 let flag_index = flag_index_map.get(&entry.flags).unwrap();
 
                 // Pack entry data
-                let mut entry_bits = 0u64;
-                entry_bits |= (entry.file_pos as u64) << bit_index_file_pos;
-                entry_bits |= (entry.file_size as u64) << bit_index_file_size;
-                entry_bits |= (entry.compressed_size as u64) << bit_index_cmp_size;
-                entry_bits |= (*flag_index as u64) << bit_index_flag_index;
+                let mut entry_bits = 0u128;
+                entry_bits |= (entry.file_pos as u128) << bit_index_file_pos;
+                entry_bits |= (entry.file_size as u128) << bit_index_file_size;
+                entry_bits |= (entry.compressed_size as u128) << bit_index_cmp_size;
+                entry_bits |= (*flag_index as u128) << bit_index_flag_index;
 
                 // Write to file table
                 self.write_bit_entry(&mut file_table, i, entry_bits, table_entry_size)?;
@@ -1824,7 +1824,7 @@ impl ArchiveBuilder {
         // Write BET hashes (bit-packed)
         let mut hash_bytes = vec![0u8; bet_hash_array_size as usize];
         for (i, &hash) in bet_hashes.iter().enumerate() {
-            self.write_bit_entry(&mut hash_bytes, i, hash, bet_hash_size)?;
+            self.write_bit_entry(&mut hash_bytes, i, hash as u128, bet_hash_size)?;
         }
         result.extend_from_slice(&hash_bytes);
 
diff --git a/mopaq/src/tables/bet.rs b/mopaq/src/tables/bet.rs
index c15b61a..7816314 100644
--- a/mopaq/src/tables/bet.rs
+++ b/mopaq/src/tables/bet.rs
@@ -267,36 +267,39 @@ impl BetTable {
     }
 
     /// Read a table entry from bit-packed data
-    fn read_table_entry(&self, index: usize) -> Option<u64> {
+    fn read_table_entry(&self, index: usize) -> Option<u128> {
         let bit_offset = index * self.header.table_entry_size as usize;
         let byte_offset = bit_offset / 8;
         let bit_shift = bit_offset % 8;
 
-        if byte_offset + 8 > self.file_table.len() {
+        // Read enough bytes to get the full entry
+        let mut value = 0u128;
+        let bytes_needed = (bit_shift + self.header.table_entry_size as usize).div_ceil(8);
+
+        if self.header.table_entry_size >= 128
+            || bytes_needed > 16
+            || byte_offset + bytes_needed > self.file_table.len()
+        {
             return None;
         }
 
-        // Read enough bytes to get the full entry
-        let mut value = 0u64;
-        let bytes_needed = (bit_shift + self.header.table_entry_size as usize)
-            .div_ceil(8)
-            .min(8);
-
         for i in 0..bytes_needed {
-            if byte_offset + i < self.file_table.len() {
-                value |= (self.file_table[byte_offset + i] as u64) << (i * 8);
-            }
+            value |= (self.file_table[byte_offset + i] as u128) << (i * 8);
         }
 
         // Shift and mask to get the actual entry
-        let entry = (value >> bit_shift) & ((1u64 << self.header.table_entry_size) - 1);
+        let entry = (value >> bit_shift) & ((1u128 << self.header.table_entry_size) - 1);
         Some(entry)
     }
 
     /// Extract bits from a value
-    fn extract_bits(&self, value: u64, bit_offset: u32, bit_count: u32) -> u64 {
-        let mask = (1u64 << bit_count) - 1;
-        (value >> bit_offset) & mask
+    fn extract_bits(&self, value: u128, bit_offset: u32, bit_count: u32) -> u64 {
+        let mask = if bit_count >= 64 {
+            u64::MAX
+        } else {
+            (1u64 << bit_count) - 1
+        };
+        value.checked_shr(bit_offset).unwrap_or(0) as u64 & mask
     }
 }
 
-- 
2.43.0


From 3cebcf169607b77d0defe544b1a77dd933bd77f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:19 +0000
Subject: [PATCH 07/49] fix: reject multi-sector files whose stored checksums
 do not match

The reader compared the checksum of the stored sector with the builder's checksum of
the uncompressed sector, logged the mismatch and returned the data anyway.
---
 mopaq/src/archive.rs | 46 ++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 76ec3bc..365e5f3 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -1385,7 +1385,11 @@ impl Archive {
             let expected_crc_table_start = offset_table_size;
             let expected_crc_table_size = sector_count * 4;
 
-            if first_data_offset >= expected_crc_table_start + expected_crc_table_size {
+            // (with a single sector, that space can also be a third sector offset, for
+            // a checksum sector behind the data)
+            if sector_count > 1
+                && first_data_offset >= expected_crc_table_start + expected_crc_table_size
+            {
                 // CRC table follows the offset table
                 let mut crc_data = vec![0u8; expected_crc_table_size];
                 self.reader.read_exact(&mut crc_data)?;
@@ -1458,24 +1462,6 @@ impl Archive {
                 decrypt_file_data(&mut sector_data, sector_key);
             }
 
-            // Validate CRC if present - MUST be done AFTER decryption but BEFORE decompression
-            if let Some(ref crcs) = sector_crcs {
-                let expected_crc = crcs[i];
-                // MPQ uses ADLER32 for sector checksums, calculated on the raw (possibly compressed) data
-                let actual_crc = adler::adler32_slice(&sector_data);
-
-                if actual_crc != expected_crc {
-                    log::error!(
-                        "CRC mismatch for sector {}: expected {:08x}, got {:08x}",
-                        i,
-                        expected_crc,
-                        actual_crc
-                    );
-                    // For now, just log the error and continue
-                    // Some MPQ files have incorrect CRCs
-                }
-            }
-
             // Decompress sector
             let decompressed_sector =
                 if file_info.is_compressed() && sector_size_compressed < expected_size {
@@ -1493,6 +1479,28 @@ impl Archive {
                     sector_data[..expected_size.min(sector_data.len())].to_vec()
                 };
 
+            // Validate CRC if present - like for single unit files, it covers the
+            // decompressed data
+            if let Some(ref crcs) = sector_crcs {
+                let expected_crc = crcs[i];
+                // MPQ uses ADLER32 for sector checksums
+                let actual_crc = adler::adler32_slice(&decompressed_sector);
+
+                if actual_crc != expected_crc {
+                    log::error!(
+                        "CRC mismatch for sector {}: expected {:08x}, got {:08x}",
+                        i,
+                        expected_crc,
+                        actual_crc
+                    );
+                    return Err(Error::ChecksumMismatch {
+                        file: file_info.filename.clone(),
+                        expected: expected_crc,
+                        actual: actual_crc,
+                    });
+                }
+            }
+
             decompressed_data.extend_from_slice(&decompressed_sector);
         }
 
-- 
2.43.0


From 8760317ac8b72d54e78b2c4423672a60b2d546a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:20 +0000
Subject: [PATCH 08/49] fix: do not store PKWare streams that do not decode to
 the input

pklib's encoder and decoder disagree on many inputs of more than 4 KB, so files added
with PKWare compression came back altered or not at all. Such data is stored raw.
---
 mopaq/src/compression/algorithms/pkware.rs | 12 ++++++++++--
 mopaq/src/compression/compress.rs          |  5 ++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/mopaq/src/compression/algorithms/pkware.rs b/mopaq/src/compression/algorithms/pkware.rs
index 27ec900..9f62977 100644
--- a/mopaq/src/compression/algorithms/pkware.rs
+++ b/mopaq/src/compression/algorithms/pkware.rs
@@ -12,8 +12,16 @@ pub(crate) fn compress(data: &[u8]) -> Result<Vec<u8>> {
 
     // Use ASCII mode with 2KB dictionary as default for MPQ archives
     // This provides good compression ratio for most data types
-    implode_bytes(data, CompressionMode::ASCII, DictionarySize::Size2K)
-        .map_err(|e| Error::compression(format!("PKWare compression failed: {}", e)))
+    let compressed = implode_bytes(data, CompressionMode::ASCII, DictionarySize::Size2K)
+        .map_err(|e| Error::compression(format!("PKWare compression failed: {}", e)))?;
+
+    // The encoder loses data on some inputs longer than its 4 KB work buffer
+    match explode_bytes(&compressed) {
+        Ok(decompressed) if decompressed == data => Ok(compressed),
+        _ => Err(Error::compression(
+            "PKWare compression failed: stream does not decode to the input",
+        )),
+    }
 }
 
 /// Decompress PKWare compressed data
diff --git a/mopaq/src/compression/compress.rs b/mopaq/src/compression/compress.rs
index 80d2473..3b356b3 100644
--- a/mopaq/src/compression/compress.rs
+++ b/mopaq/src/compression/compress.rs
@@ -40,7 +40,10 @@ fn compress_internal(data: &[u8], method: u8) -> Result<Vec<u8>> {
         CompressionMethod::Sparse => algorithms::sparse::compress(data),
         CompressionMethod::AdpcmMono => algorithms::adpcm::compress_mono(data, 5), // Default compression level
         CompressionMethod::AdpcmStereo => algorithms::adpcm::compress_stereo(data, 5), // Default compression level
-        CompressionMethod::PKWare => algorithms::pkware::compress(data),
+        CompressionMethod::PKWare => algorithms::pkware::compress(data).or_else(|e| {
+            log::warn!("Storing {} bytes uncompressed: {}", data.len(), e);
+            Ok(data.to_vec())
+        }),
         CompressionMethod::Implode => algorithms::implode::compress(data),
         CompressionMethod::Huffman => algorithms::huffman::compress(data),
         CompressionMethod::Multiple(flags) => compress_multiple(data, flags),
-- 
2.43.0


From fb52c4f2629443979a7109fc14937d3065e0fddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:03 +0000
Subject: [PATCH 09/49] fix: a read error while searching for the archive
 header was taken for foreign data

---
 mopaq/src/header.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mopaq/src/header.rs b/mopaq/src/header.rs
index c4dac24..23909ae 100644
--- a/mopaq/src/header.rs
+++ b/mopaq/src/header.rs
@@ -293,10 +293,14 @@ pub fn find_header<R: Read + Seek>(
         // Try to read a signature
         let signature = match reader.read_u32_le() {
             Ok(sig) => sig,
-            Err(_) => {
+            // Less than a signature left in the file
+            Err(Error::Io(e)) if e.kind() == std::io::ErrorKind::UnexpectedEof => {
                 offset += HEADER_ALIGNMENT;
                 continue;
             }
+            // A failed read says nothing about this offset: skipping it could end up in
+            // another archive stored further behind
+            Err(e) => return Err(e),
         };
 
         match signature {
-- 
2.43.0


From 96445b34b52624a39cbd86c8673688c2f7fdc07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:56 +0000
Subject: [PATCH 10/49] fix: sizes claimed by a damaged archive were allocated
 before reading the data

---
 mopaq/src/archive.rs       | 19 +++++++------------
 mopaq/src/tables/bet.rs    | 14 ++++++--------
 mopaq/src/tables/block.rs  |  9 ++++-----
 mopaq/src/tables/common.rs | 10 ++++++++++
 mopaq/src/tables/hash.rs   |  7 +++----
 mopaq/src/tables/het.rs    |  5 ++---
 mopaq/src/tables/mod.rs    |  2 +-
 7 files changed, 33 insertions(+), 33 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 365e5f3..1ca90ce 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -14,7 +14,7 @@ use crate::{
     crypto::{decrypt_block, decrypt_dword, hash_string, hash_type, jenkins_hash},
     header::{self, MpqHeader, UserDataHeader},
     special_files,
-    tables::{BetTable, BlockTable, HashTable, HetTable, HiBlockTable},
+    tables::{common::read_bytes, BetTable, BlockTable, HashTable, HetTable, HiBlockTable},
     Error, Result,
 };
 use std::fs::File;
@@ -541,8 +541,7 @@ impl Archive {
                 // Read raw table data
                 self.reader
                     .seek(SeekFrom::Start(self.archive_offset + offset))?;
-                let mut table_data = vec![0u8; size as usize];
-                self.reader.read_exact(&mut table_data)?;
+                let table_data = read_bytes(&mut self.reader, size)?;
 
                 // Calculate MD5
                 let mut hasher = Md5::new();
@@ -1257,8 +1256,7 @@ impl Archive {
 
         if file_info.is_single_unit() || !file_info.is_compressed() {
             // Single unit or uncompressed file - read directly
-            let mut data = vec![0u8; file_info.compressed_size as usize];
-            self.reader.read_exact(&mut data)?;
+            let mut data = read_bytes(&mut self.reader, file_info.compressed_size)?;
 
             // Decrypt if needed
             if file_info.is_encrypted() {
@@ -1354,8 +1352,7 @@ impl Archive {
         // Read sector offset table
         self.reader.seek(SeekFrom::Start(file_info.file_pos))?;
         let offset_table_size = (sector_count + 1) * 4;
-        let mut offset_data = vec![0u8; offset_table_size];
-        self.reader.read_exact(&mut offset_data)?;
+        let mut offset_data = read_bytes(&mut self.reader, offset_table_size as u64)?;
 
         // Decrypt sector offset table if needed
         if file_info.is_encrypted() {
@@ -1391,8 +1388,7 @@ impl Archive {
                 && first_data_offset >= expected_crc_table_start + expected_crc_table_size
             {
                 // CRC table follows the offset table
-                let mut crc_data = vec![0u8; expected_crc_table_size];
-                self.reader.read_exact(&mut crc_data)?;
+                let crc_data = read_bytes(&mut self.reader, expected_crc_table_size as u64)?;
 
                 // CRC table is not encrypted
                 let mut crcs = Vec::with_capacity(sector_count);
@@ -1420,7 +1416,7 @@ impl Archive {
         }
 
         // Read and decompress each sector
-        let mut decompressed_data = Vec::with_capacity(file_info.file_size as usize);
+        let mut decompressed_data = Vec::new();
 
         for i in 0..sector_count {
             let sector_start = sector_offsets[i] as u64;
@@ -1444,8 +1440,7 @@ impl Archive {
                 .seek(SeekFrom::Start(file_info.file_pos + sector_start))?;
 
             // Read sector data
-            let mut sector_data = vec![0u8; sector_size_compressed];
-            self.reader.read_exact(&mut sector_data)?;
+            let mut sector_data = read_bytes(&mut self.reader, sector_size_compressed as u64)?;
 
             if i == 0 {
                 log::debug!(
diff --git a/mopaq/src/tables/bet.rs b/mopaq/src/tables/bet.rs
index 7816314..be29f61 100644
--- a/mopaq/src/tables/bet.rs
+++ b/mopaq/src/tables/bet.rs
@@ -1,6 +1,6 @@
 //! BET (Block Extended Table) implementation for MPQ v3+ archives
 
-use super::common::{decrypt_table_data, ReadLittleEndian};
+use super::common::{decrypt_table_data, read_bytes, ReadLittleEndian};
 use crate::compression::decompress;
 use crate::{Error, Result};
 use std::io::{Read, Seek, SeekFrom};
@@ -76,8 +76,7 @@ impl BetTable {
         reader.seek(SeekFrom::Start(offset))?;
 
         // Read the compressed/encrypted data
-        let mut data = vec![0u8; compressed_size as usize];
-        reader.read_exact(&mut data)?;
+        let mut data = read_bytes(reader, compressed_size)?;
 
         // Check if we have at least the extended header (12 bytes)
         if data.len() < 12 {
@@ -164,20 +163,19 @@ impl BetTable {
         let mut cursor = std::io::Cursor::new(&table_data[data_start..]);
 
         // Read file flags
-        let mut file_flags = Vec::with_capacity(header.flag_count as usize);
+        let mut file_flags = Vec::new();
         for _ in 0..header.flag_count {
             file_flags.push(cursor.read_u32_le()?);
         }
 
         // Calculate sizes
         let file_table_size =
-            (header.file_count as usize * header.table_entry_size as usize).div_ceil(8);
-        let mut file_table = vec![0u8; file_table_size];
-        cursor.read_exact(&mut file_table)?;
+            (header.file_count as u64 * header.table_entry_size as u64).div_ceil(8);
+        let file_table = read_bytes(&mut cursor, file_table_size)?;
 
         // Read BET hashes
         let hash_count = header.bet_hash_array_size / 8; // Each hash is 8 bytes
-        let mut bet_hashes = Vec::with_capacity(hash_count as usize);
+        let mut bet_hashes = Vec::new();
         for _ in 0..hash_count {
             bet_hashes.push(cursor.read_u64_le()?);
         }
diff --git a/mopaq/src/tables/block.rs b/mopaq/src/tables/block.rs
index 4cf8183..c5dae7b 100644
--- a/mopaq/src/tables/block.rs
+++ b/mopaq/src/tables/block.rs
@@ -1,6 +1,6 @@
 //! Block table implementation for MPQ archives
 
-use super::common::ReadLittleEndian;
+use super::common::{read_bytes, ReadLittleEndian};
 use crate::crypto::{decrypt_block, hash_string, hash_type};
 use crate::{Error, Result};
 use std::io::{Read, Seek, SeekFrom};
@@ -113,9 +113,8 @@ impl BlockTable {
         reader.seek(SeekFrom::Start(offset))?;
 
         // Read raw data
-        let byte_size = size as usize * 16; // 16 bytes per entry
-        let mut raw_data = vec![0u8; byte_size];
-        reader.read_exact(&mut raw_data)?;
+        let byte_size = size as u64 * 16; // 16 bytes per entry
+        let mut raw_data = read_bytes(reader, byte_size)?;
 
         // Decrypt the table - SAFE VERSION
         let key = hash_string("(block table)", hash_type::FILE_KEY);
@@ -207,7 +206,7 @@ impl HiBlockTable {
     pub fn read<R: Read + Seek>(reader: &mut R, offset: u64, size: u32) -> Result<Self> {
         reader.seek(SeekFrom::Start(offset))?;
 
-        let mut entries = Vec::with_capacity(size as usize);
+        let mut entries = Vec::new();
         for _ in 0..size {
             entries.push(reader.read_u16_le()?);
         }
diff --git a/mopaq/src/tables/common.rs b/mopaq/src/tables/common.rs
index ffa5809..709259d 100644
--- a/mopaq/src/tables/common.rs
+++ b/mopaq/src/tables/common.rs
@@ -26,6 +26,16 @@ pub(crate) trait ReadLittleEndian: Read {
 
 impl<R: Read> ReadLittleEndian for R {}
 
+/// Read exactly `size` bytes, without trusting `size` for the allocation: it usually comes
+/// from the archive, and the memory used should follow the data that is really there
+pub(crate) fn read_bytes<R: Read>(reader: &mut R, size: u64) -> Result<Vec<u8>> {
+    let mut data = Vec::new();
+    if reader.by_ref().take(size).read_to_end(&mut data)? as u64 != size {
+        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+    }
+    Ok(data)
+}
+
 /// Helper function to decrypt table data
 pub(crate) fn decrypt_table_data(data: &mut [u8], key: u32) {
     use crate::crypto::decrypt_block;
diff --git a/mopaq/src/tables/hash.rs b/mopaq/src/tables/hash.rs
index 43800a8..b9847e4 100644
--- a/mopaq/src/tables/hash.rs
+++ b/mopaq/src/tables/hash.rs
@@ -1,6 +1,6 @@
 //! Hash table implementation for MPQ archives
 
-use super::common::ReadLittleEndian;
+use super::common::{read_bytes, ReadLittleEndian};
 use crate::crypto::{decrypt_block, hash_string, hash_type};
 use crate::{Error, Result};
 use std::io::{Read, Seek, SeekFrom};
@@ -99,9 +99,8 @@ impl HashTable {
         reader.seek(SeekFrom::Start(offset))?;
 
         // Read raw data
-        let byte_size = size as usize * 16; // 16 bytes per entry
-        let mut raw_data = vec![0u8; byte_size];
-        reader.read_exact(&mut raw_data)?;
+        let byte_size = size as u64 * 16; // 16 bytes per entry
+        let mut raw_data = read_bytes(reader, byte_size)?;
 
         // Decrypt the table - SAFE VERSION
         let key = hash_string("(hash table)", hash_type::FILE_KEY);
diff --git a/mopaq/src/tables/het.rs b/mopaq/src/tables/het.rs
index 731a0dc..49572b6 100644
--- a/mopaq/src/tables/het.rs
+++ b/mopaq/src/tables/het.rs
@@ -1,6 +1,6 @@
 //! HET (Hash Extended Table) implementation for MPQ v3+ archives
 
-use super::common::{decrypt_table_data, ReadLittleEndian};
+use super::common::{decrypt_table_data, read_bytes, ReadLittleEndian};
 use crate::compression::decompress;
 use crate::crypto::jenkins_hash;
 use crate::{Error, Result};
@@ -66,8 +66,7 @@ impl HetTable {
         reader.seek(SeekFrom::Start(offset))?;
 
         // Read the compressed/encrypted data
-        let mut data = vec![0u8; compressed_size as usize];
-        reader.read_exact(&mut data)?;
+        let mut data = read_bytes(reader, compressed_size)?;
 
         // Check if we have at least the extended header (12 bytes)
         if data.len() < 12 {
diff --git a/mopaq/src/tables/mod.rs b/mopaq/src/tables/mod.rs
index ac8ae00..8f6ed95 100644
--- a/mopaq/src/tables/mod.rs
+++ b/mopaq/src/tables/mod.rs
@@ -2,7 +2,7 @@
 
 mod bet;
 mod block;
-mod common;
+pub(crate) mod common;
 mod hash;
 mod het;
 
-- 
2.43.0


From 2a7546251e1e8a940b8c5c92028c1a06040f8604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:03 +0000
Subject: [PATCH 11/49] fix: decompressors reserved the output size claimed by
 a damaged archive

---
 mopaq/src/compression/algorithms/adpcm.rs   |  2 +-
 mopaq/src/compression/algorithms/bzip2.rs   |  2 +-
 mopaq/src/compression/algorithms/huffman.rs |  2 +-
 mopaq/src/compression/algorithms/lzma.rs    |  4 ++--
 mopaq/src/compression/algorithms/mod.rs     |  6 ++++++
 mopaq/src/compression/algorithms/sparse.rs  |  9 +++++++--
 mopaq/src/compression/algorithms/zlib.rs    |  2 +-
 mopaq/src/compression/decompress.rs         | 15 ++++++++++-----
 8 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/mopaq/src/compression/algorithms/adpcm.rs b/mopaq/src/compression/algorithms/adpcm.rs
index b7e118a..f648108 100644
--- a/mopaq/src/compression/algorithms/adpcm.rs
+++ b/mopaq/src/compression/algorithms/adpcm.rs
@@ -219,7 +219,7 @@ fn decompress_internal(input: &[u8], output_size: usize, channel_count: usize) -
     let mut step_indexes = vec![INITIAL_ADPCM_STEP_INDEX; channel_count];
 
     // Allocate output buffer
-    let mut output = Vec::with_capacity(output_size);
+    let mut output = super::output_buffer(output_size, input);
 
     // Read initial samples for each channel
     for predicted_sample in predicted_samples.iter_mut().take(channel_count) {
diff --git a/mopaq/src/compression/algorithms/bzip2.rs b/mopaq/src/compression/algorithms/bzip2.rs
index 6cb1ab7..c14a1ba 100644
--- a/mopaq/src/compression/algorithms/bzip2.rs
+++ b/mopaq/src/compression/algorithms/bzip2.rs
@@ -9,7 +9,7 @@ use std::io::{Read, Write};
 /// Decompress using BZip2
 pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
     let mut decoder = BzDecoder::new(data);
-    let mut decompressed = Vec::with_capacity(expected_size);
+    let mut decompressed = super::output_buffer(expected_size, data);
 
     decoder
         .read_to_end(&mut decompressed)
diff --git a/mopaq/src/compression/algorithms/huffman.rs b/mopaq/src/compression/algorithms/huffman.rs
index 5b26581..3605c2e 100644
--- a/mopaq/src/compression/algorithms/huffman.rs
+++ b/mopaq/src/compression/algorithms/huffman.rs
@@ -375,7 +375,7 @@ pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
     );
 
     let mut reader = BitReader::new(data);
-    let mut output = Vec::with_capacity(expected_size);
+    let mut output = super::output_buffer(expected_size, data);
 
     // Get compression type from the first byte
     let compression_type = reader.get_8_bits()?;
diff --git a/mopaq/src/compression/algorithms/lzma.rs b/mopaq/src/compression/algorithms/lzma.rs
index 1537d3b..09c9d2a 100644
--- a/mopaq/src/compression/algorithms/lzma.rs
+++ b/mopaq/src/compression/algorithms/lzma.rs
@@ -7,7 +7,7 @@ use std::io::{BufReader, Cursor};
 pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
     let cursor = Cursor::new(data);
     let mut input = BufReader::new(cursor);
-    let mut output = Vec::with_capacity(expected_size);
+    let mut output = super::output_buffer(expected_size, data);
 
     // Try LZMA format first
     match lzma_rs::lzma_decompress(&mut input, &mut output) {
@@ -25,7 +25,7 @@ pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
             // If LZMA fails, try XZ format
             let cursor = Cursor::new(data);
             let mut input = BufReader::new(cursor);
-            let mut output = Vec::with_capacity(expected_size);
+            let mut output = super::output_buffer(expected_size, data);
 
             match lzma_rs::xz_decompress(&mut input, &mut output) {
                 Ok(()) => Ok(output),
diff --git a/mopaq/src/compression/algorithms/mod.rs b/mopaq/src/compression/algorithms/mod.rs
index 4c67e04..443e573 100644
--- a/mopaq/src/compression/algorithms/mod.rs
+++ b/mopaq/src/compression/algorithms/mod.rs
@@ -8,3 +8,9 @@ pub(super) mod lzma;
 pub(super) mod pkware;
 pub(super) mod sparse;
 pub(super) mod zlib;
+
+/// An output buffer for `expected_size` bytes; the expectation comes from the archive, so the
+/// memory reserved in advance is kept in proportion to the compressed data
+fn output_buffer(expected_size: usize, data: &[u8]) -> Vec<u8> {
+    Vec::with_capacity(expected_size.min(data.len().saturating_mul(32)))
+}
diff --git a/mopaq/src/compression/algorithms/sparse.rs b/mopaq/src/compression/algorithms/sparse.rs
index 85e5888..8eb43c2 100644
--- a/mopaq/src/compression/algorithms/sparse.rs
+++ b/mopaq/src/compression/algorithms/sparse.rs
@@ -4,8 +4,13 @@ use crate::{Error, Result};
 
 /// Decompress sparse/RLE compressed data
 pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
-    // Sparse compression is a simple RLE format
-    let mut output = Vec::with_capacity(expected_size);
+    // Sparse compression is a simple RLE format, one byte stands for at most 0x7F bytes
+    if expected_size > data.len().saturating_mul(0x7F) {
+        return Err(Error::compression(
+            "Sparse decompression: not enough data for the expected size",
+        ));
+    }
+    let mut output = super::output_buffer(expected_size, data);
     let mut pos = 0;
 
     while pos < data.len() && output.len() < expected_size {
diff --git a/mopaq/src/compression/algorithms/zlib.rs b/mopaq/src/compression/algorithms/zlib.rs
index 19bd08c..31178fa 100644
--- a/mopaq/src/compression/algorithms/zlib.rs
+++ b/mopaq/src/compression/algorithms/zlib.rs
@@ -22,7 +22,7 @@ pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
 
     // ZlibDecoder can handle both zlib-wrapped and raw deflate data
     let mut decoder = ZlibDecoder::new(data);
-    let mut decompressed = Vec::with_capacity(expected_size);
+    let mut decompressed = super::output_buffer(expected_size, data);
 
     match decoder.read_to_end(&mut decompressed) {
         Ok(_) => {
diff --git a/mopaq/src/compression/decompress.rs b/mopaq/src/compression/decompress.rs
index 0330108..0a89b43 100644
--- a/mopaq/src/compression/decompress.rs
+++ b/mopaq/src/compression/decompress.rs
@@ -94,20 +94,25 @@ fn decompress_multiple(data: &[u8], flags: u8, expected_size: usize) -> Result<V
     if has_huffman {
         log::debug!("Decompressing Huffman");
         // For Huffman, we don't know the intermediate size, so we estimate conservatively
-        let huffman_output_size = std::cmp::max(expected_size * 2, current_data.len() * 2);
+        let huffman_output_size =
+            std::cmp::max(expected_size.saturating_mul(2), current_data.len() * 2);
         current_data = algorithms::huffman::decompress(&current_data, huffman_output_size)?;
     } else if has_zlib {
         log::debug!("Decompressing Zlib");
-        current_data = algorithms::zlib::decompress(&current_data, expected_size * 4)?;
+        current_data =
+            algorithms::zlib::decompress(&current_data, expected_size.saturating_mul(4))?;
     } else if has_bzip2 {
         log::debug!("Decompressing BZip2");
-        current_data = algorithms::bzip2::decompress(&current_data, expected_size * 4)?;
+        current_data =
+            algorithms::bzip2::decompress(&current_data, expected_size.saturating_mul(4))?;
     } else if has_sparse {
         log::debug!("Decompressing Sparse");
-        current_data = algorithms::sparse::decompress(&current_data, expected_size * 4)?;
+        current_data =
+            algorithms::sparse::decompress(&current_data, expected_size.saturating_mul(4))?;
     } else if has_implode {
         log::debug!("Decompressing Implode");
-        current_data = algorithms::implode::decompress(&current_data, expected_size * 4)?;
+        current_data =
+            algorithms::implode::decompress(&current_data, expected_size.saturating_mul(4))?;
     }
 
     // Step 2: Decompress PKWare if present
-- 
2.43.0


From 88e1183be2137995db2f9e7e968982f5580015ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:09 +0000
Subject: [PATCH 12/49] fix: invalid ADPCM bit shift overflowed

---
 mopaq/src/compression/algorithms/adpcm.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mopaq/src/compression/algorithms/adpcm.rs b/mopaq/src/compression/algorithms/adpcm.rs
index f648108..87d1ba3 100644
--- a/mopaq/src/compression/algorithms/adpcm.rs
+++ b/mopaq/src/compression/algorithms/adpcm.rs
@@ -213,6 +213,9 @@ fn decompress_internal(input: &[u8], output_size: usize, channel_count: usize) -
     input_pos += 1;
     let bit_shift = input[input_pos];
     input_pos += 1;
+    if u32::from(bit_shift) >= i32::BITS {
+        return Err(Error::compression("Invalid ADPCM bit shift"));
+    }
 
     // Initialize state for each channel
     let mut predicted_samples = vec![0i16; channel_count];
-- 
2.43.0


From 80029b97c2c532aa2c40394eb7f1e947976dba4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:42 +0000
Subject: [PATCH 13/49] fix: damaged sizes and positions overflowed or indexed
 out of bounds

---
 mopaq/src/archive.rs    | 44 +++++++++++++++++++++++++++--------------
 mopaq/src/header.rs     |  8 ++++++++
 mopaq/src/tables/het.rs | 11 ++++++++---
 3 files changed, 45 insertions(+), 18 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 1ca90ce..42b496f 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -373,7 +373,7 @@ impl Archive {
 
                         match HetTable::read(
                             &mut self.reader,
-                            self.archive_offset + het_pos,
+                            self.archive_offset.saturating_add(het_pos),
                             het_size,
                             key,
                         ) {
@@ -429,7 +429,7 @@ impl Archive {
 
                         match BetTable::read(
                             &mut self.reader,
-                            self.archive_offset + bet_pos,
+                            self.archive_offset.saturating_add(bet_pos),
                             bet_size,
                             key,
                         ) {
@@ -482,7 +482,7 @@ impl Archive {
         // Load hi-block table if present (v2+)
         if let Some(hi_block_pos) = self.header.hi_block_table_pos {
             if hi_block_pos != 0 {
-                let hi_block_offset = self.archive_offset + hi_block_pos;
+                let hi_block_offset = self.archive_offset.saturating_add(hi_block_pos);
                 self.hi_block_table = Some(HiBlockTable::read(
                     &mut self.reader,
                     hi_block_offset,
@@ -540,7 +540,7 @@ impl Archive {
 
                 // Read raw table data
                 self.reader
-                    .seek(SeekFrom::Start(self.archive_offset + offset))?;
+                    .seek(SeekFrom::Start(self.archive_offset.saturating_add(offset)))?;
                 let table_data = read_bytes(&mut self.reader, size)?;
 
                 // Calculate MD5
@@ -886,7 +886,7 @@ impl Archive {
                             filename: filename.to_string(),
                             hash_index: 0, // Not applicable for HET/BET
                             block_index: file_index as usize,
-                            file_pos: self.archive_offset + bet_info.file_pos,
+                            file_pos: self.archive_offset.saturating_add(bet_info.file_pos),
                             compressed_size: bet_info.compressed_size,
                             file_size: bet_info.file_size,
                             flags: bet_info.flags,
@@ -1284,8 +1284,9 @@ impl Archive {
                 // CRC is calculated on the decompressed data
                 let data_to_check = if file_info.is_compressed() {
                     // We need to decompress first to check CRC
-                    let compression_type = data[0];
-                    let compressed_data = &data[1..];
+                    let (&compression_type, compressed_data) = data
+                        .split_first()
+                        .ok_or_else(|| Error::compression("Empty compressed data"))?;
                     compression::decompress(
                         compressed_data,
                         compression_type,
@@ -1432,12 +1433,15 @@ impl Archive {
             let sector_size_compressed = (sector_end - sector_start) as usize;
 
             // Calculate expected decompressed size for this sector
-            let remaining = file_info.file_size as usize - decompressed_data.len();
+            let remaining = (file_info.file_size as usize)
+                .checked_sub(decompressed_data.len())
+                .ok_or_else(|| Error::compression("Sectors exceed the file size"))?;
             let expected_size = remaining.min(sector_size);
 
             // Seek to sector data - offsets are absolute from file position
-            self.reader
-                .seek(SeekFrom::Start(file_info.file_pos + sector_start))?;
+            self.reader.seek(SeekFrom::Start(
+                file_info.file_pos.saturating_add(sector_start),
+            ))?;
 
             // Read sector data
             let mut sector_data = read_bytes(&mut self.reader, sector_size_compressed as u64)?;
@@ -1604,11 +1608,11 @@ impl Archive {
                 bet_pos - het_pos
             } else {
                 // Calculate from hash table position
-                self.header.get_hash_table_pos() - het_pos
+                self.table_size_up_to_hash_table(het_pos)?
             }
         } else {
             // Calculate from hash table position
-            self.header.get_hash_table_pos() - het_pos
+            self.table_size_up_to_hash_table(het_pos)?
         };
 
         log::debug!(
@@ -1626,7 +1630,7 @@ impl Archive {
         log::debug!("Determining BET table size from file structure");
 
         // Calculate the actual size based on what comes after BET table (usually hash table)
-        let actual_size = self.header.get_hash_table_pos() - bet_pos;
+        let actual_size = self.table_size_up_to_hash_table(bet_pos)?;
 
         log::debug!(
             "BET table position: 0x{:X}, calculated size: {} bytes",
@@ -1637,6 +1641,14 @@ impl Archive {
         Ok(actual_size)
     }
 
+    /// Size of a table that ends where the hash table starts
+    fn table_size_up_to_hash_table(&self, table_pos: u64) -> Result<u64> {
+        self.header
+            .get_hash_table_pos()
+            .checked_sub(table_pos)
+            .ok_or_else(|| Error::invalid_format("Table starts behind the hash table"))
+    }
+
     /// Verify the digital signature of the archive
     pub fn verify_signature(&mut self) -> Result<SignatureStatus> {
         // First check for strong signature (external to archive)
@@ -1709,10 +1721,12 @@ impl Archive {
         let file_size = self.reader.get_ref().metadata()?.len();
 
         // Calculate expected archive end position
-        let archive_end = self.archive_offset + self.header.get_archive_size();
+        let archive_end = self
+            .archive_offset
+            .saturating_add(self.header.get_archive_size());
 
         // Check if there's enough space for a strong signature after the archive
-        if file_size < archive_end + STRONG_SIGNATURE_SIZE as u64 {
+        if file_size < archive_end.saturating_add(STRONG_SIGNATURE_SIZE as u64) {
             log::debug!("File too small for strong signature");
             return Ok(SignatureStatus::None);
         }
diff --git a/mopaq/src/header.rs b/mopaq/src/header.rs
index 23909ae..449c7bc 100644
--- a/mopaq/src/header.rs
+++ b/mopaq/src/header.rs
@@ -183,6 +183,14 @@ impl MpqHeader {
             )));
         }
 
+        // Validate sector size
+        if u32::from(block_size) > 512usize.leading_zeros() {
+            return Err(Error::invalid_format(format!(
+                "Block size {} too large",
+                block_size
+            )));
+        }
+
         let mut header = MpqHeader {
             header_size,
             archive_size,
diff --git a/mopaq/src/tables/het.rs b/mopaq/src/tables/het.rs
index 49572b6..1f6a484 100644
--- a/mopaq/src/tables/het.rs
+++ b/mopaq/src/tables/het.rs
@@ -239,8 +239,10 @@ impl HetTable {
         };
 
         // Calculate hash table index
-        let hash_table_entries = self.header.hash_table_size * 8 / self.header.hash_entry_size;
-        let hash_index = (hash & (hash_table_entries as u64 - 1)) as usize;
+        let hash_table_entries = (self.header.hash_table_size as u64 * 8)
+            .checked_div(self.header.hash_entry_size as u64)
+            .filter(|&entries| entries > 0)?;
+        let hash_index = (hash & (hash_table_entries - 1)) as usize;
 
         // Read hash entry
         let hash_entry = self.read_hash_entry(hash_index)?;
@@ -251,7 +253,10 @@ impl HetTable {
         }
 
         // Extract file index from hash entry
-        let file_index = (hash_entry >> self.header.hash_entry_size) & index_mask;
+        let file_index = hash_entry
+            .checked_shr(self.header.hash_entry_size)
+            .unwrap_or(0)
+            & index_mask;
 
         // Verify file index is valid
         if file_index >= self.header.max_file_count as u64 {
-- 
2.43.0


From 8dfaca823df318a7d1d57cf3111708b52ec1d571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:41 +0000
Subject: [PATCH 14/49] fix: Huffman decoding of damaged data produced output
 without consuming input

---
 mopaq/src/compression/algorithms/huffman.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mopaq/src/compression/algorithms/huffman.rs b/mopaq/src/compression/algorithms/huffman.rs
index 3605c2e..920c8af 100644
--- a/mopaq/src/compression/algorithms/huffman.rs
+++ b/mopaq/src/compression/algorithms/huffman.rs
@@ -419,6 +419,11 @@ pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
         if output.len() >= expected_size {
             break;
         }
+
+        // Every byte takes at least one bit of input
+        if output.len() > data.len().saturating_mul(8) {
+            return Err(Error::compression("Huffman data exceeds its input"));
+        }
     }
 
     log::debug!(
-- 
2.43.0


From a98606bc718e9dd107367de6698e48b8a1fd2d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:29 +0000
Subject: [PATCH 15/49] hook: let the simulation harness use its own signature
 keys (cfg mopaq_sim, off by default)

---
 mopaq/src/crypto/signature.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/mopaq/src/crypto/signature.rs b/mopaq/src/crypto/signature.rs
index c614b4f..dba90df 100644
--- a/mopaq/src/crypto/signature.rs
+++ b/mopaq/src/crypto/signature.rs
@@ -4,6 +4,9 @@
 //! - Weak signatures (v1+): 512-bit RSA with MD5, stored in (signature) file
 //! - Strong signatures (v2+): 2048-bit RSA with SHA-1, appended after archive
 
+// `mopaq_sim` is only ever set by the simulation harness
+#![allow(unexpected_cfgs)]
+
 use crate::{Error, Result};
 use md5::{Digest, Md5};
 use num_bigint::BigUint;
@@ -99,8 +102,19 @@ pub mod public_keys {
     /// Strong signature public exponent
     pub const BLIZZARD_STRONG_PUBLIC_KEY_E: u32 = 0x10001; // 65537
 
+    /// Moduli used instead of Blizzard's by the simulation harness, which needs to sign
+    /// archives: (weak, strong), in hexadecimal
+    #[cfg(mopaq_sim)]
+    pub static SIM_MODULI: std::sync::OnceLock<(String, String)> = std::sync::OnceLock::new();
+
     /// Get the weak signature public key
     pub fn weak_public_key() -> Result<RsaPublicKey> {
+        #[cfg(mopaq_sim)]
+        if let Some((weak, _)) = SIM_MODULI.get() {
+            let n = RsaBigUint::from_str_radix(weak, 16).expect("modulus");
+            return Ok(RsaPublicKey::new(n, RsaBigUint::from(0x10001u32)).expect("key"));
+        }
+
         let n = RsaBigUint::from_str_radix(BLIZZARD_WEAK_PUBLIC_KEY_N, 16)
             .map_err(|e| Error::invalid_format(format!("Invalid weak key modulus: {}", e)))?;
         let e = RsaBigUint::from(BLIZZARD_WEAK_PUBLIC_KEY_E);
@@ -111,6 +125,12 @@ pub mod public_keys {
 
     /// Get the strong signature public key
     pub fn strong_public_key() -> Result<RsaPublicKey> {
+        #[cfg(mopaq_sim)]
+        if let Some((_, strong)) = SIM_MODULI.get() {
+            let n = RsaBigUint::from_str_radix(strong, 16).expect("modulus");
+            return Ok(RsaPublicKey::new(n, RsaBigUint::from(0x10001u32)).expect("key"));
+        }
+
         let n = RsaBigUint::from_str_radix(BLIZZARD_STRONG_PUBLIC_KEY_N, 16)
             .map_err(|e| Error::invalid_format(format!("Invalid strong key modulus: {}", e)))?;
         let e = RsaBigUint::from(BLIZZARD_STRONG_PUBLIC_KEY_E);
-- 
2.43.0


From c0f881f63946dc0a1dbe2545516d063f2a9866d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:01 +0000
Subject: [PATCH 16/49] fix: correctly padded weak signatures never verified

---
 mopaq/src/crypto/signature.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/mopaq/src/crypto/signature.rs b/mopaq/src/crypto/signature.rs
index dba90df..b07d640 100644
--- a/mopaq/src/crypto/signature.rs
+++ b/mopaq/src/crypto/signature.rs
@@ -293,7 +293,7 @@ pub fn verify_weak_signature_stormlib<R: Read + std::io::Seek>(
 
     // Perform RSA operation: signature^e mod n
     let decrypted = signature_int.modpow(&e, &n);
-    let decrypted_bytes = decrypted.to_bytes_be();
+    let decrypted_bytes = to_fixed_bytes_be(&decrypted, WEAK_SIGNATURE_SIZE);
 
     // Verify PKCS#1 v1.5 padding
     verify_pkcs1_v15_md5(&decrypted_bytes, &hash)
@@ -336,7 +336,7 @@ pub fn verify_weak_signature<R: Read>(
 
     // Perform RSA operation: signature^e mod n
     let decrypted = signature_int.modpow(&e, &n);
-    let decrypted_bytes = decrypted.to_bytes_be();
+    let decrypted_bytes = to_fixed_bytes_be(&decrypted, WEAK_SIGNATURE_SIZE);
 
     // Verify PKCS#1 v1.5 padding
     verify_pkcs1_v15_md5(&decrypted_bytes, &hash)
@@ -485,6 +485,15 @@ fn verify_mpq_strong_signature_padding(decrypted: &[u8], expected_hash: &[u8]) -
     Ok(true)
 }
 
+/// Big-endian bytes of a decrypted signature at its full length: PKCS#1 blocks start with
+/// a zero byte, which the number itself does not keep
+fn to_fixed_bytes_be(value: &BigUint, len: usize) -> Vec<u8> {
+    let bytes = value.to_bytes_be();
+    let mut fixed = vec![0u8; len.saturating_sub(bytes.len())];
+    fixed.extend_from_slice(&bytes);
+    fixed
+}
+
 /// Reverse byte order (little-endian to big-endian conversion)
 fn reverse_bytes(data: &[u8]) -> Vec<u8> {
     data.iter().rev().copied().collect()
-- 
2.43.0


From 6f96654f57f25dd3244609f5bae9d5d5d58e4cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:09 +0000
Subject: [PATCH 17/49] fix: an interrupted read made a valid signature invalid

---
 mopaq/src/crypto/signature.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/mopaq/src/crypto/signature.rs b/mopaq/src/crypto/signature.rs
index b07d640..c503f6a 100644
--- a/mopaq/src/crypto/signature.rs
+++ b/mopaq/src/crypto/signature.rs
@@ -221,7 +221,7 @@ pub fn calculate_mpq_hash_md5<R: Read + std::io::Seek>(
 
         // Seek to current position and read chunk
         reader.seek(std::io::SeekFrom::Start(current_pos))?;
-        let bytes_read = reader.read(&mut buffer[..to_read])?;
+        let bytes_read = read_chunk(&mut reader, &mut buffer[..to_read])?;
         if bytes_read == 0 {
             break; // EOF reached
         }
@@ -316,7 +316,7 @@ pub fn verify_weak_signature<R: Read>(
     // Read up to archive_size (which should exclude the signature)
     while bytes_read < archive_size {
         let to_read = ((archive_size - bytes_read) as usize).min(buffer.len());
-        let n = reader.read(&mut buffer[..to_read])?;
+        let n = read_chunk(&mut reader, &mut buffer[..to_read])?;
         if n == 0 {
             break;
         }
@@ -359,7 +359,7 @@ pub fn verify_strong_signature<R: Read>(
     // Read up to archive_size (which should exclude the signature)
     while bytes_read < archive_size {
         let to_read = ((archive_size - bytes_read) as usize).min(buffer.len());
-        let n = reader.read(&mut buffer[..to_read])?;
+        let n = read_chunk(&mut reader, &mut buffer[..to_read])?;
         if n == 0 {
             break;
         }
@@ -485,6 +485,16 @@ fn verify_mpq_strong_signature_padding(decrypted: &[u8], expected_hash: &[u8]) -
     Ok(true)
 }
 
+/// Read what is available, trying again when the read is interrupted by a signal
+fn read_chunk<R: Read>(reader: &mut R, buffer: &mut [u8]) -> std::io::Result<usize> {
+    loop {
+        match reader.read(buffer) {
+            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
+            result => return result,
+        }
+    }
+}
+
 /// Big-endian bytes of a decrypted signature at its full length: PKCS#1 blocks start with
 /// a zero byte, which the number itself does not keep
 fn to_fixed_bytes_be(value: &BigUint, len: usize) -> Vec<u8> {
-- 
2.43.0


From c973bbc38fac11cd5dd59d387318a10969f3219f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:56 +0000
Subject: [PATCH 18/49] fix: closing an archive could leave file handles opened
 meanwhile

SFileCloseArchive purged the archive's files and then removed the archive, so a
file opened by another thread in between survived its archive for ever. Also, the
files of a handle that is no archive were left alone only by accident. Remove the
archive first and purge its files before the archive table is released.
---
 storm-ffi/src/lib.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index 8f59f25..6cdc7fc 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -290,14 +290,16 @@ pub unsafe extern "C" fn SFileCreateArchive(
 #[no_mangle]
 pub extern "C" fn SFileCloseArchive(handle: HANDLE) -> bool {
     if let Some(handle_id) = handle_to_id(handle) {
-        // Remove any open files from this archive
-        FILES
-            .lock()
-            .unwrap()
-            .retain(|_, file| file.archive_handle != handle_id);
-
-        // Close the archive
-        if ARCHIVES.lock().unwrap().remove(&handle_id).is_some() {
+        // Close the archive; the lock is held until its files are gone too, so that
+        // no other thread can open a file of this archive in between
+        let mut archives = ARCHIVES.lock().unwrap();
+        if archives.remove(&handle_id).is_some() {
+            // Remove any open files from this archive
+            FILES
+                .lock()
+                .unwrap()
+                .retain(|_, file| file.archive_handle != handle_id);
+
             set_last_error(ERROR_SUCCESS);
             true
         } else {
-- 
2.43.0


From e6b8d81cbcd0964c4422412f91d8908863a816ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:56 +0000
Subject: [PATCH 19/49] fix: seeking before the start of a file jumped to its
 end

A negative target was converted to a huge unsigned position and clamped to the end;
wide offsets could overflow and abort the process, and a negative low part
destroyed the high part. Clamp to the start, and combine the parts as documented.
---
 storm-ffi/src/lib.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index 6cdc7fc..978dec6 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -528,25 +528,25 @@ pub unsafe extern "C" fn SFileSetFilePointer(
     };
 
     // Combine high and low parts into 64-bit offset
-    let mut offset = file_pos as i64;
-    if !file_pos_high.is_null() {
-        let high = *file_pos_high as i64;
-        offset |= high << 32;
-    }
+    let offset = if file_pos_high.is_null() {
+        file_pos as i64
+    } else {
+        ((*file_pos_high as i64) << 32) | (file_pos as u32 as i64)
+    };
 
     // Calculate new position
     let new_pos = match move_method {
-        0 => offset as usize,                                   // FILE_BEGIN
-        1 => (file_handle.position as i64 + offset) as usize,   // FILE_CURRENT
-        2 => (file_handle.data.len() as i64 + offset) as usize, // FILE_END
+        0 => offset,                                                 // FILE_BEGIN
+        1 => (file_handle.position as i64).saturating_add(offset),   // FILE_CURRENT
+        2 => (file_handle.data.len() as i64).saturating_add(offset), // FILE_END
         _ => {
             set_last_error(ERROR_INVALID_PARAMETER);
             return 0xFFFFFFFF;
         }
     };
 
-    // Clamp to file size
-    file_handle.position = new_pos.min(file_handle.data.len());
+    // Clamp to the file
+    file_handle.position = new_pos.clamp(0, file_handle.data.len() as i64) as usize;
 
     // Return new position
     let pos = file_handle.position as u64;
-- 
2.43.0


From a1f39f0bb61a75a02463750639b66dea9b8fcf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:56 +0000
Subject: [PATCH 20/49] fix: SFileHasFile left a stale last error when it
 returned false

---
 storm-ffi/src/lib.rs | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index 978dec6..44fdff3 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -566,23 +566,42 @@ pub unsafe extern "C" fn SFileSetFilePointer(
 #[no_mangle]
 pub unsafe extern "C" fn SFileHasFile(archive: HANDLE, filename: *const c_char) -> bool {
     if filename.is_null() {
+        set_last_error(ERROR_INVALID_PARAMETER);
         return false;
     }
 
     let Some(archive_id) = handle_to_id(archive) else {
+        set_last_error(ERROR_INVALID_HANDLE);
         return false;
     };
 
     let filename_str = match CStr::from_ptr(filename).to_str() {
         Ok(s) => s,
-        Err(_) => return false,
+        Err(_) => {
+            set_last_error(ERROR_INVALID_PARAMETER);
+            return false;
+        }
     };
 
     let archives = ARCHIVES.lock().unwrap();
-    if let Some(archive_handle) = archives.get(&archive_id) {
-        matches!(archive_handle.archive.find_file(filename_str), Ok(Some(_)))
-    } else {
-        false
+    let Some(archive_handle) = archives.get(&archive_id) else {
+        set_last_error(ERROR_INVALID_HANDLE);
+        return false;
+    };
+
+    match archive_handle.archive.find_file(filename_str) {
+        Ok(Some(_)) => {
+            set_last_error(ERROR_SUCCESS);
+            true
+        }
+        Ok(None) => {
+            set_last_error(ERROR_FILE_NOT_FOUND);
+            false
+        }
+        Err(_) => {
+            set_last_error(ERROR_FILE_CORRUPT);
+            false
+        }
     }
 }
 
-- 
2.43.0


From d190346f5a24a563beb38bccafa8c4e1870adcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:56 +0000
Subject: [PATCH 21/49] fix: SFileGetFileInfo wrote through misaligned buffers

The buffer is an untyped pointer without an alignment requirement.
---
 storm-ffi/src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index 44fdff3..0213323 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -662,7 +662,7 @@ unsafe fn get_file_info(
                 *size_needed = needed;
             }
             if buffer_size >= needed {
-                *(buffer as *mut u64) = file_handle.size;
+                ptr::write_unaligned(buffer as *mut u64, file_handle.size);
                 set_last_error(ERROR_SUCCESS);
                 true
             } else {
@@ -676,7 +676,7 @@ unsafe fn get_file_info(
                 *size_needed = needed;
             }
             if buffer_size >= needed {
-                *(buffer as *mut u64) = file_handle.position as u64;
+                ptr::write_unaligned(buffer as *mut u64, file_handle.position as u64);
                 set_last_error(ERROR_SUCCESS);
                 true
             } else {
@@ -708,7 +708,7 @@ unsafe fn get_archive_info(
                 *size_needed = needed;
             }
             if buffer_size >= needed {
-                *(buffer as *mut u64) = header.get_archive_size();
+                ptr::write_unaligned(buffer as *mut u64, header.get_archive_size());
                 set_last_error(ERROR_SUCCESS);
                 true
             } else {
@@ -722,7 +722,7 @@ unsafe fn get_archive_info(
                 *size_needed = needed;
             }
             if buffer_size >= needed {
-                *(buffer as *mut u32) = header.hash_table_size;
+                ptr::write_unaligned(buffer as *mut u32, header.hash_table_size);
                 set_last_error(ERROR_SUCCESS);
                 true
             } else {
@@ -736,7 +736,7 @@ unsafe fn get_archive_info(
                 *size_needed = needed;
             }
             if buffer_size >= needed {
-                *(buffer as *mut u32) = header.block_table_size;
+                ptr::write_unaligned(buffer as *mut u32, header.block_table_size);
                 set_last_error(ERROR_SUCCESS);
                 true
             } else {
@@ -750,7 +750,7 @@ unsafe fn get_archive_info(
                 *size_needed = needed;
             }
             if buffer_size >= needed {
-                *(buffer as *mut u32) = header.sector_size() as u32;
+                ptr::write_unaligned(buffer as *mut u32, header.sector_size() as u32);
                 set_last_error(ERROR_SUCCESS);
                 true
             } else {
-- 
2.43.0


From ea74daf066d5922f8a1b3c12c587cae75069ae6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:22 +0000
Subject: [PATCH 22/49] fix: verifying all files of an archive waited for its
 own lock for ever

SFileVerifyArchive called SFileVerifyFile while holding the archive table's lock.
---
 storm-ffi/src/lib.rs | 86 +++++++++++++++++++++-----------------------
 1 file changed, 41 insertions(+), 45 deletions(-)

diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index 0213323..43d970f 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -1080,16 +1080,28 @@ pub unsafe extern "C" fn SFileVerifyFile(
         return false;
     };
 
+    match verify_file(&mut archive_handle.archive, filename_str, flags) {
+        Ok(()) => {
+            set_last_error(ERROR_SUCCESS);
+            true
+        }
+        Err(error) => {
+            set_last_error(error);
+            false
+        }
+    }
+}
+
+// Helper function for file verification; returns the error code on failure
+fn verify_file(archive: &mut Archive, filename_str: &str, flags: u32) -> Result<(), u32> {
     // Find the file first to get file info
-    let file_info = match archive_handle.archive.find_file(filename_str) {
+    let file_info = match archive.find_file(filename_str) {
         Ok(Some(info)) => info,
         Ok(None) => {
-            set_last_error(ERROR_FILE_NOT_FOUND);
-            return false;
+            return Err(ERROR_FILE_NOT_FOUND);
         }
         Err(_) => {
-            set_last_error(ERROR_FILE_CORRUPT);
-            return false;
+            return Err(ERROR_FILE_CORRUPT);
         }
     };
 
@@ -1099,17 +1111,15 @@ pub unsafe extern "C" fn SFileVerifyFile(
     // Verify sector CRC (if requested and available)
     if (verify_flags & SFILE_VERIFY_SECTOR_CRC) != 0 && file_info.has_sector_crc() {
         // Reading the file automatically validates sector CRCs
-        match archive_handle.archive.read_file(filename_str) {
+        match archive.read_file(filename_str) {
             Ok(_) => {
                 // File read successfully, CRCs validated automatically
             }
             Err(mopaq::Error::ChecksumMismatch { .. }) => {
-                set_last_error(ERROR_FILE_CORRUPT);
-                return false;
+                return Err(ERROR_FILE_CORRUPT);
             }
             Err(_) => {
-                set_last_error(ERROR_FILE_CORRUPT);
-                return false;
+                return Err(ERROR_FILE_CORRUPT);
             }
         }
     }
@@ -1117,25 +1127,20 @@ pub unsafe extern "C" fn SFileVerifyFile(
     // Verify file CRC32 from attributes (if requested and available)
     if (verify_flags & SFILE_VERIFY_FILE_CRC) != 0 {
         // Load attributes if not already loaded
-        let _ = archive_handle.archive.load_attributes();
+        let _ = archive.load_attributes();
 
-        if let Some(attrs) = archive_handle
-            .archive
-            .get_file_attributes(file_info.block_index)
-        {
+        if let Some(attrs) = archive.get_file_attributes(file_info.block_index) {
             if let Some(expected_crc) = attrs.crc32 {
                 // Read file data to calculate CRC
-                match archive_handle.archive.read_file(filename_str) {
+                match archive.read_file(filename_str) {
                     Ok(data) => {
                         let actual_crc = crc32fast::hash(&data);
                         if actual_crc != expected_crc {
-                            set_last_error(ERROR_FILE_CORRUPT);
-                            return false;
+                            return Err(ERROR_FILE_CORRUPT);
                         }
                     }
                     Err(_) => {
-                        set_last_error(ERROR_FILE_CORRUPT);
-                        return false;
+                        return Err(ERROR_FILE_CORRUPT);
                     }
                 }
             }
@@ -1145,36 +1150,30 @@ pub unsafe extern "C" fn SFileVerifyFile(
     // Verify file MD5 from attributes (if requested and available)
     if (verify_flags & SFILE_VERIFY_FILE_MD5) != 0 {
         // Load attributes if not already loaded
-        let _ = archive_handle.archive.load_attributes();
+        let _ = archive.load_attributes();
 
-        if let Some(attrs) = archive_handle
-            .archive
-            .get_file_attributes(file_info.block_index)
-        {
+        if let Some(attrs) = archive.get_file_attributes(file_info.block_index) {
             if let Some(expected_md5) = attrs.md5 {
                 // Read file data to calculate MD5
-                match archive_handle.archive.read_file(filename_str) {
+                match archive.read_file(filename_str) {
                     Ok(data) => {
                         use md5::{Digest, Md5};
                         let mut hasher = Md5::new();
                         hasher.update(&data);
                         let actual_md5: [u8; 16] = hasher.finalize().into();
                         if actual_md5 != expected_md5 {
-                            set_last_error(ERROR_FILE_CORRUPT);
-                            return false;
+                            return Err(ERROR_FILE_CORRUPT);
                         }
                     }
                     Err(_) => {
-                        set_last_error(ERROR_FILE_CORRUPT);
-                        return false;
+                        return Err(ERROR_FILE_CORRUPT);
                     }
                 }
             }
         }
     }
 
-    set_last_error(ERROR_SUCCESS);
-    true
+    Ok(())
 }
 
 /// Verify archive integrity
@@ -1269,19 +1268,16 @@ pub unsafe extern "C" fn SFileVerifyArchive(archive: HANDLE, flags: u32) -> bool
             let all_verify_flags =
                 file_verify_flags | SFILE_VERIFY_FILE_CRC | SFILE_VERIFY_FILE_MD5;
 
-            // Use our own SFileVerifyFile function for consistency
-            unsafe {
-                let filename_cstr = match std::ffi::CString::new(file_entry.name.as_str()) {
-                    Ok(s) => s,
-                    Err(_) => continue, // Skip files with invalid names
-                };
-
-                if !SFileVerifyFile(archive, filename_cstr.as_ptr(), all_verify_flags) {
-                    let last_error = SFileGetLastError();
-                    // Only fail on corruption, not missing attributes
-                    if last_error == ERROR_FILE_CORRUPT {
-                        return false;
-                    }
+            // Same verification as SFileVerifyFile (which would wait for our own lock)
+            if let Err(error) = verify_file(
+                &mut archive_handle.archive,
+                &file_entry.name,
+                all_verify_flags,
+            ) {
+                // Only fail on corruption, not missing attributes
+                if error == ERROR_FILE_CORRUPT {
+                    set_last_error(error);
+                    return false;
                 }
             }
         }
-- 
2.43.0


From 249c1ad98bfc0cc645f8578be0f853fdc45fe738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:23 +0000
Subject: [PATCH 23/49] fix: enumeration callbacks that use the API blocked for
 ever

SFileEnumFiles called the callback with the archive table locked, so any archive call
made by the callback deadlocked, and a slow callback blocked all other threads.
---
 storm-ffi/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index 43d970f..394a0f3 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -859,8 +859,11 @@ pub unsafe extern "C" fn SFileEnumFiles(
         return false;
     };
 
-    // List files
-    match archive_handle.archive.list() {
+    // List files; the callback may use the API, so it must not be called with the lock held
+    let list = archive_handle.archive.list();
+    drop(archives);
+
+    match list {
         Ok(entries) => {
             for entry in entries {
                 // Simple pattern matching (just * for now)
-- 
2.43.0


From 4f2a18a9ef57703d448e2a6efbee81de30b6d554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:23 +0000
Subject: [PATCH 24/49] fix: a failed listing was reported as a successful
 enumeration or verification

Archive::list() already copes with archives without a listfile, so an error from it is a
real one (a damaged listfile, an I/O error). SFileEnumFiles reported success without
calling the callback, and SFileVerifyArchive went on with made-up names, none of which
exists, and so verified nothing.
---
 storm-ffi/src/lib.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index 394a0f3..755c8d1 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -884,9 +884,8 @@ pub unsafe extern "C" fn SFileEnumFiles(
             true
         }
         Err(_) => {
-            // No listfile, but that's okay
-            set_last_error(ERROR_SUCCESS);
-            true
+            set_last_error(ERROR_FILE_CORRUPT);
+            false
         }
     }
 }
@@ -1239,14 +1238,8 @@ pub unsafe extern "C" fn SFileVerifyArchive(archive: HANDLE, flags: u32) -> bool
         let file_list = match archive_handle.archive.list() {
             Ok(list) => list,
             Err(_) => {
-                // If we can't get the file list, try to enumerate from tables
-                match archive_handle.archive.list_all() {
-                    Ok(list) => list,
-                    Err(_) => {
-                        set_last_error(ERROR_FILE_CORRUPT);
-                        return false;
-                    }
-                }
+                set_last_error(ERROR_FILE_CORRUPT);
+                return false;
             }
         };
 
-- 
2.43.0


From 5627e5d58dca86606c3ab814c1f7e06dd3c691ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:43 +0000
Subject: [PATCH 25/49] fix: creating an archive overwrote a file whose
 existence could not be determined

When the file could not be examined (an I/O error, a directory without permission), it
was taken to be absent: CREATE_NEW and OPEN_ALWAYS then replaced an existing archive.
---
 storm-ffi/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index 755c8d1..cb7464f 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -219,7 +219,13 @@ pub unsafe extern "C" fn SFileCreateArchive(
     };
 
     // Check if file exists for creation disposition handling
-    let file_exists = Path::new(filename_str).exists();
+    let file_exists = match Path::new(filename_str).try_exists() {
+        Ok(exists) => exists,
+        Err(_) => {
+            set_last_error(ERROR_ACCESS_DENIED);
+            return false;
+        }
+    };
     match creation_disposition {
         CREATE_NEW => {
             if file_exists {
-- 
2.43.0


From 156681fb4a27a6861f987743bab71f395823830b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:43 +0000
Subject: [PATCH 26/49] fix: extraction followed member names out of the target
 directory

---
 storm-cli/src/commands/file.rs | 41 +++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/storm-cli/src/commands/file.rs b/storm-cli/src/commands/file.rs
index dee6577..90608e2 100644
--- a/storm-cli/src/commands/file.rs
+++ b/storm-cli/src/commands/file.rs
@@ -71,6 +71,37 @@ pub fn list(
     Ok(())
 }
 
+/// Path below `base` for a file stored in an archive
+///
+/// Names in an archive are not trustworthy: whatever they contain, the result never leaves `base`.
+fn output_path_for(base: &Path, filename: &str, preserve_path: bool) -> Result<PathBuf> {
+    // Archives use either slash as separator, independent of the platform
+    let mut components = Vec::new();
+    for component in filename.split(['/', '\\']) {
+        match component {
+            "" | "." => {}
+            ".." => anyhow::bail!("Refusing to extract file outside the target: {}", filename),
+            // Drive letters and alternate data streams
+            c if cfg!(windows) && c.contains(':') => {
+                anyhow::bail!("Refusing to extract file outside the target: {}", filename)
+            }
+            c => components.push(c),
+        }
+    }
+
+    let last = *components
+        .last()
+        .with_context(|| format!("Not a valid file name: {}", filename))?;
+
+    Ok(if preserve_path {
+        components
+            .iter()
+            .fold(base.to_path_buf(), |path, component| path.join(component))
+    } else {
+        base.join(last)
+    })
+}
+
 /// Extract files from an archive
 pub fn extract(
     archive_path: &str,
@@ -90,10 +121,8 @@ pub fn extract(
 
         let output_path = if let Some(out) = output {
             PathBuf::from(out)
-        } else if preserve_path {
-            PathBuf::from(filename)
         } else {
-            PathBuf::from(Path::new(filename).file_name().unwrap())
+            output_path_for(Path::new(""), filename, preserve_path)?
         };
 
         // Create parent directories if needed
@@ -121,11 +150,7 @@ pub fn extract(
                 }
             };
 
-            let output_path = if preserve_path {
-                PathBuf::from(output_dir).join(filename)
-            } else {
-                PathBuf::from(output_dir).join(Path::new(filename).file_name().unwrap())
-            };
+            let output_path = output_path_for(Path::new(output_dir), filename, preserve_path)?;
 
             // Create parent directories if needed
             if let Some(parent) = output_path.parent() {
-- 
2.43.0


From d77c3d844572bfedabfad938a7d39fdbf3a935de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:43 +0000
Subject: [PATCH 27/49] fix: files that could not be extracted were reported as
 success

---
 storm-cli/src/commands/file.rs | 35 +++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/storm-cli/src/commands/file.rs b/storm-cli/src/commands/file.rs
index 90608e2..8e151fe 100644
--- a/storm-cli/src/commands/file.rs
+++ b/storm-cli/src/commands/file.rs
@@ -5,6 +5,7 @@ use colored::Colorize;
 use glob::Pattern;
 use mopaq::Archive;
 use regex::Regex;
+use std::collections::HashMap;
 use std::fs;
 use std::path::{Path, PathBuf};
 
@@ -141,16 +142,44 @@ pub fn extract(
         let file_entries = archive.list()?;
         let files: Vec<String> = file_entries.into_iter().map(|e| e.name).collect();
 
+        // Which file was written to which path, and how many could not be extracted
+        let mut written: HashMap<PathBuf, String> = HashMap::new();
+        let mut failed = 0;
+
         for filename in &files {
             let data = match archive.read_file(filename) {
                 Ok(data) => data,
                 Err(e) => {
                     eprintln!("Failed to extract {}: {}", filename, e);
+                    failed += 1;
+                    continue;
+                }
+            };
+
+            let output_path = match output_path_for(Path::new(output_dir), filename, preserve_path)
+            {
+                Ok(path) => path,
+                Err(e) => {
+                    eprintln!("Failed to extract {}: {}", filename, e);
+                    failed += 1;
                     continue;
                 }
             };
 
-            let output_path = output_path_for(Path::new(output_dir), filename, preserve_path)?;
+            // Different files must not silently replace each other
+            let identity = filename.replace('/', "\\").to_ascii_uppercase();
+            match written.get(&output_path) {
+                Some(other) if *other != identity => {
+                    eprintln!(
+                        "Failed to extract {}: {} was already extracted from another file",
+                        filename,
+                        output_path.display()
+                    );
+                    failed += 1;
+                    continue;
+                }
+                _ => written.insert(output_path.clone(), identity),
+            };
 
             // Create parent directories if needed
             if let Some(parent) = output_path.parent() {
@@ -164,6 +193,10 @@ pub fn extract(
             }
         }
 
+        if failed > 0 {
+            anyhow::bail!("Failed to extract {} of {} files", failed, files.len());
+        }
+
         if !global_opts.quiet {
             println!("{} Extracted {} files", "✓".green(), files.len());
         }
-- 
2.43.0


From 6e6fc2b08c59f5fb2808655a7666d489fe1c81eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:43 +0000
Subject: [PATCH 28/49] fix: settings that could not be looked up were replaced
 by the defaults

---
 storm-cli/src/config.rs | 6 +++---
 storm-cli/src/main.rs   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/storm-cli/src/config.rs b/storm-cli/src/config.rs
index 84f65d6..2436efa 100644
--- a/storm-cli/src/config.rs
+++ b/storm-cli/src/config.rs
@@ -43,11 +43,11 @@ pub fn load_config(path: Option<&PathBuf>) -> Result<Config> {
         // Try default locations
         if let Some(home) = dirs::home_dir() {
             let storm_config = home.join(".storm-cli").join("config.toml");
-            if storm_config.exists() {
+            if storm_config.try_exists()? {
                 storm_config
             } else {
                 let config_dir = home.join(".config").join("storm-cli").join("config.toml");
-                if config_dir.exists() {
+                if config_dir.try_exists()? {
                     config_dir
                 } else {
                     // Return default config if no file found
@@ -59,7 +59,7 @@ pub fn load_config(path: Option<&PathBuf>) -> Result<Config> {
         }
     };
 
-    if config_path.exists() {
+    if config_path.try_exists()? {
         let contents = fs::read_to_string(&config_path)?;
         let config: Config = toml::from_str(&contents)?;
         Ok(config)
diff --git a/storm-cli/src/main.rs b/storm-cli/src/main.rs
index 86c3685..e64f305 100644
--- a/storm-cli/src/main.rs
+++ b/storm-cli/src/main.rs
@@ -722,7 +722,7 @@ fn handle_config_command(
             let xdg_config = home.join(".config").join("storm-cli").join("config.toml");
 
             // Prefer XDG location for new configs
-            if storm_config.exists() {
+            if storm_config.try_exists()? {
                 storm_config
             } else {
                 xdg_config
-- 
2.43.0


From 1797ddebc246310e97d430b385013b06eb0c1441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:43 +0000
Subject: [PATCH 29/49] fix: a failed or interrupted 'config set' destroyed the
 configuration

---
 storm-cli/src/config.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/storm-cli/src/config.rs b/storm-cli/src/config.rs
index 2436efa..c9e37c1 100644
--- a/storm-cli/src/config.rs
+++ b/storm-cli/src/config.rs
@@ -3,6 +3,7 @@
 use anyhow::Result;
 use serde::{Deserialize, Serialize};
 use std::fs;
+use std::io::Write;
 use std::path::{Path, PathBuf};
 
 #[derive(Debug, Clone, Serialize, Deserialize)]
@@ -72,11 +73,24 @@ pub fn load_config(path: Option<&PathBuf>) -> Result<Config> {
 pub fn save_config(config: &Config, path: &Path) -> Result<()> {
     let contents = toml::to_string_pretty(config)?;
 
+    // A link to the configuration stays a link
+    let path = &if path.is_symlink() {
+        fs::canonicalize(path)?
+    } else {
+        path.to_path_buf()
+    };
+
     // Create parent directories if needed
-    if let Some(parent) = path.parent() {
-        fs::create_dir_all(parent)?;
-    }
+    let parent = match path.parent() {
+        Some(parent) if !parent.as_os_str().is_empty() => parent,
+        _ => Path::new("."),
+    };
+    fs::create_dir_all(parent)?;
 
-    fs::write(path, contents)?;
+    // Replace the file in one step, so that it is complete at any time
+    let mut file = tempfile::NamedTempFile::new_in(parent)?;
+    file.write_all(contents.as_bytes())?;
+    file.as_file().sync_all()?;
+    file.persist(path)?;
     Ok(())
 }
-- 
2.43.0


From 54de3411f45429e49b74eefa3d53bd525ca00909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:20 +0000
Subject: [PATCH 30/49] fix: verification reported damaged tables and missing
 files as success, and archives without a listfile as damaged

---
 storm-cli/src/commands/archive.rs | 52 +++++++++++++++++++++++++++++--
 1 file changed, 49 insertions(+), 3 deletions(-)

diff --git a/storm-cli/src/commands/archive.rs b/storm-cli/src/commands/archive.rs
index ce1c57f..b97a6ca 100644
--- a/storm-cli/src/commands/archive.rs
+++ b/storm-cli/src/commands/archive.rs
@@ -218,9 +218,19 @@ pub fn verify(archive_path: &str, check_crc: bool, check_contents: bool) -> Resu
     verification_results.header_checks.signature_status =
         Some(archive_info.signature_status.clone());
 
-    // Verify individual files
-    let file_entries = archive.list()?;
-    let files: Vec<String> = file_entries.into_iter().map(|e| e.name).collect();
+    verification_results.collect_structure_errors();
+
+    // Verify individual files. Listed names that are missing from the tables are errors, too.
+    // Without a (listfile) the names are unknown, and so are the files behind them.
+    let files: Vec<String> = if archive_info.has_listfile {
+        let listfile = archive.read_file("(listfile)")?;
+        mopaq::special_files::parse_listfile(&listfile)?
+    } else {
+        verification_results
+            .warnings
+            .push("No (listfile) found, file contents were not verified".to_string());
+        Vec::new()
+    };
     verification_results.total_files = files.len();
 
     for filename in &files {
@@ -314,6 +324,42 @@ struct VerificationResults {
     file_checks: FileChecks,
 }
 
+impl VerificationResults {
+    /// Record every failed check of the header and the tables as an error
+    fn collect_structure_errors(&mut self) {
+        let tables = &self.table_checks;
+        let mut checks = vec![
+            ("Format version", self.header_checks.version_supported),
+            ("Hash table", tables.hash_table_loaded),
+            ("Block table", tables.block_table_loaded),
+            ("HET table", tables.het_table_loaded.unwrap_or(true)),
+            ("BET table", tables.bet_table_loaded.unwrap_or(true)),
+        ];
+        if let Some(md5) = &tables.md5_checksums {
+            checks.extend([
+                ("Header MD5", md5.header_valid),
+                ("Hash table MD5", md5.hash_table_valid),
+                ("Block table MD5", md5.block_table_valid),
+                ("Hi-block table MD5", md5.hi_block_table_valid),
+                ("HET table MD5", md5.het_table_valid),
+                ("BET table MD5", md5.bet_table_valid),
+            ]);
+        }
+        let signature_valid = !matches!(
+            self.header_checks.signature_status,
+            Some(SignatureStatus::WeakInvalid | SignatureStatus::StrongInvalid)
+        );
+        checks.push(("Digital signature", signature_valid));
+
+        for (what, valid) in checks {
+            if !valid {
+                self.errors
+                    .push((what.to_string(), "Verification failed".to_string()));
+            }
+        }
+    }
+}
+
 #[derive(Debug, Default)]
 struct HeaderChecks {
     signature_valid: bool,
-- 
2.43.0


From 0a5ed396dce8b8a6a0110f90af0f611bd470dec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:05 +0000
Subject: [PATCH 31/49] fix: the default_output setting had no effect

---
 storm-cli/src/main.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/storm-cli/src/main.rs b/storm-cli/src/main.rs
index e64f305..a521313 100644
--- a/storm-cli/src/main.rs
+++ b/storm-cli/src/main.rs
@@ -41,9 +41,9 @@ pub enum OutputFormat {
 )]
 #[command(version)]
 struct Cli {
-    /// Output format
-    #[arg(global = true, short = 'o', long, value_enum, default_value = "text")]
-    output: OutputFormat,
+    /// Output format [default: text, or as configured]
+    #[arg(global = true, short = 'o', long, value_enum)]
+    output: Option<OutputFormat>,
 
     /// Increase verbosity (-v, -vv, -vvv)
     #[arg(global = true, short = 'v', long, action = clap::ArgAction::Count)]
@@ -440,8 +440,16 @@ fn main() -> Result<()> {
         config::load_config(None)?
     };
 
+    let output = cli.output.unwrap_or_else(|| {
+        config
+            .default_output
+            .as_deref()
+            .and_then(|format| OutputFormat::from_str(format, false).ok())
+            .unwrap_or(OutputFormat::Text)
+    });
+
     // Set up colored output based on flags
-    if cli.no_color || cli.output != OutputFormat::Text {
+    if cli.no_color || output != OutputFormat::Text {
         colored::control::set_override(false);
     }
 
@@ -460,7 +468,7 @@ fn main() -> Result<()> {
 
     // Store global options for commands to access
     let global_opts = GlobalOptions {
-        output: cli.output,
+        output,
         verbose: cli.verbose,
         quiet: cli.quiet,
         no_color: cli.no_color,
-- 
2.43.0


From e3b84ca47ec8fe54d1af3c412d66191298025063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:38 +0000
Subject: [PATCH 32/49] fix: compressed HET and BET tables carried the
 compression type twice and could not be loaded

compress() already returns the type byte followed by the data, or the
unchanged data if it does not shrink.
---
 mopaq/src/builder.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index 2572725..745d678 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -1635,11 +1635,9 @@ impl ArchiveBuilder {
                 (100 * (processed_data.len() - compressed.len()) / processed_data.len())
             );
 
-            // Prepend compression type byte
-            let mut compressed_with_type = Vec::with_capacity(1 + compressed.len());
-            compressed_with_type.push(self.table_compression);
-            compressed_with_type.extend_from_slice(&compressed);
-            processed_data = compressed_with_type;
+            // compress() has already put the compression type byte in front,
+            // or returned the data as it is if compression does not pay
+            processed_data = compressed;
         }
 
         // Encrypt the data portion (after extended header)
@@ -1860,11 +1858,9 @@ impl ArchiveBuilder {
                 (100 * (processed_data.len() - compressed.len()) / processed_data.len())
             );
 
-            // Prepend compression type byte
-            let mut compressed_with_type = Vec::with_capacity(1 + compressed.len());
-            compressed_with_type.push(self.table_compression);
-            compressed_with_type.extend_from_slice(&compressed);
-            processed_data = compressed_with_type;
+            // compress() has already put the compression type byte in front,
+            // or returned the data as it is if compression does not pay
+            processed_data = compressed;
         }
 
         // Encrypt the data portion (after extended header)
-- 
2.43.0


From 5e4c816de7ad648805f354252268667b355e5d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:02 +0000
Subject: [PATCH 33/49] fix: the last bytes of encrypted HET and BET tables
 were encrypted but never decrypted

The format, and decrypt_table_data, leave a rest of less than 32 bits as it
is. With compressed tables the damaged rest made the table unreadable.
---
 mopaq/src/builder.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index 745d678..c56da71 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -1643,7 +1643,9 @@ impl ArchiveBuilder {
         // Encrypt the data portion (after extended header)
         if encrypt {
             let key = hash_string("(hash table)", hash_type::FILE_KEY);
-            self.encrypt_data(&mut processed_data, key);
+            // Only whole 32-bit words are encrypted, a shorter rest stays as it is
+            let whole = processed_data.len() / 4 * 4;
+            self.encrypt_data(&mut processed_data[..whole], key);
         }
 
         // Combine extended header with processed data
@@ -1866,7 +1868,9 @@ impl ArchiveBuilder {
         // Encrypt the data portion (after extended header)
         if encrypt {
             let key = hash_string("(block table)", hash_type::FILE_KEY);
-            self.encrypt_data(&mut processed_data, key);
+            // Only whole 32-bit words are encrypted, a shorter rest stays as it is
+            let whole = processed_data.len() / 4 * 4;
+            self.encrypt_data(&mut processed_data[..whole], key);
         }
 
         // Combine extended header with processed data
-- 
2.43.0


From da1810488c9378830c0784c944a4a9959a3721a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:12 +0000
Subject: [PATCH 34/49] fix: the HET table header announced less data than the
 table has

A compressed table whose size fell between the two was taken for an
uncompressed one and could not be loaded.
---
 mopaq/src/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index c56da71..4fdf9af 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -1508,7 +1508,7 @@ impl ArchiveBuilder {
 
         // Calculate sizes
         let het_header_size = std::mem::size_of::<HetHeader>();
-        let data_size = het_header_size as u32 + hash_table_size + file_indices_size as u32;
+        let data_size = het_header_size as u32 + actual_hash_table_size + file_indices_size as u32;
         let table_size = 12 + data_size; // Extended header (12 bytes) + data
 
         // Update header with final size
-- 
2.43.0


From cc32869390caa8474fbd29e2706c34f76575810f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:27 +0000
Subject: [PATCH 35/49] fix: empty files were not counted in the archive
 information

---
 mopaq/src/archive.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 42b496f..da3b558 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -642,11 +642,11 @@ impl Archive {
         let file_count = if let Some(bet) = &self.bet_table {
             bet.header.file_count as usize
         } else if let Some(block_table) = &self.block_table {
-            // Count non-empty entries in block table
+            // Count the files in the block table, empty ones included
             block_table
                 .entries()
                 .iter()
-                .filter(|entry| entry.file_size != 0)
+                .filter(|entry| entry.exists())
                 .count()
         } else {
             0
-- 
2.43.0


From 213b46b1dd743ec8f652b708b7b69d99c4ab0db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:27 +0000
Subject: [PATCH 36/49] fix: archive information and verification ignored
 strong signatures

An error while looking for one is reported instead of being taken for its absence.
---
 mopaq/src/archive.rs | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index da3b558..2aa9561 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -661,7 +661,7 @@ impl Archive {
 
         // Check for special files
         let has_listfile = self.find_file("(listfile)")?.is_some();
-        let has_signature = self.find_file("(signature)")?.is_some();
+        let has_signature_file = self.find_file("(signature)")?.is_some();
         let has_attributes = self.attributes.is_some() || self.find_file("(attributes)")?.is_some();
 
         // Determine encryption status
@@ -675,18 +675,17 @@ impl Archive {
             false
         };
 
-        // Verify signature if present
-        let signature_status = if has_signature {
-            match self.verify_signature() {
-                Ok(status) => status,
-                Err(e) => {
-                    log::warn!("Failed to verify signature: {}", e);
-                    SignatureStatus::WeakInvalid
-                }
+        // Verify signature if present: a weak one is a file in the archive, a strong one
+        // follows the archive
+        let signature_status = match self.verify_signature() {
+            Ok(status) => status,
+            Err(e) if has_signature_file => {
+                log::warn!("Failed to verify signature: {}", e);
+                SignatureStatus::WeakInvalid
             }
-        } else {
-            SignatureStatus::None
+            Err(e) => return Err(e),
         };
+        let has_signature = has_signature_file || signature_status != SignatureStatus::None;
 
         // Build table info
         let hash_table_info = TableInfo {
@@ -1652,10 +1651,9 @@ impl Archive {
     /// Verify the digital signature of the archive
     pub fn verify_signature(&mut self) -> Result<SignatureStatus> {
         // First check for strong signature (external to archive)
-        if let Ok(strong_status) = self.verify_strong_signature() {
-            if strong_status != SignatureStatus::None {
-                return Ok(strong_status);
-            }
+        let strong_status = self.verify_strong_signature()?;
+        if strong_status != SignatureStatus::None {
+            return Ok(strong_status);
         }
 
         // Then check for weak signature (inside archive)
@@ -1774,10 +1772,7 @@ impl Archive {
                     }
                 }
             }
-            Err(e) => {
-                log::debug!("Failed to read potential strong signature: {}", e);
-                Ok(SignatureStatus::None)
-            }
+            Err(e) => Err(e.into()),
         }
     }
 }
-- 
2.43.0


From 9e8710f83258ae0860c1a8a5fe271c6928762c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:43 +0000
Subject: [PATCH 37/49] fix: archives and files beyond 4 GiB were built with
 truncated positions and sizes

---
 mopaq/src/builder.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index 4fdf9af..f3530dc 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -714,6 +714,13 @@ impl ArchiveBuilder {
         // Calculate archive size
         let archive_size = writer.stream_position()?;
 
+        // Version 1 has no place for positions beyond 4 GiB
+        if self.version == FormatVersion::V1 && archive_size > u32::MAX as u64 {
+            return Err(Error::invalid_format(
+                "Archive too large for format version 1",
+            ));
+        }
+
         // Write header at the beginning
         writer.seek(SeekFrom::Start(0))?;
         let header_params = HeaderWriteParams {
@@ -915,6 +922,14 @@ impl ArchiveBuilder {
         } = params;
         let mut flags = 0u32;
 
+        // File sizes are stored in 32 bits
+        if file_data.len() > u32::MAX as usize {
+            return Err(Error::invalid_format(format!(
+                "File too large for an archive: {}",
+                archive_name
+            )));
+        }
+
         // For small files or if single unit is requested, write as single unit
         let is_single_unit = file_data.len() <= *sector_size;
 
@@ -1052,6 +1067,14 @@ impl ArchiveBuilder {
                 sector_data.extend_from_slice(&compressed_sector);
             }
 
+            // Sector offsets are stored in 32 bits, too
+            if data_start + sector_data.len() > u32::MAX as usize {
+                return Err(Error::invalid_format(format!(
+                    "File too large for an archive: {}",
+                    archive_name
+                )));
+            }
+
             // Set last offset
             sector_offsets[sector_count] = (data_start + sector_data.len()) as u32;
 
-- 
2.43.0


From da80e19f5660457806a003865dee682d99fb5f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:35 +0000
Subject: [PATCH 38/49] fix: names that share a 64-bit hash were taken for each
 other in version 3 and 4 archives

The 64-bit name hash kept in the BET table is a one-at-a-time hash; pairs of
short names with the same value are easy to come by (data\u4a0c2b.bin and
data\u4a0c31.bin). If one of them was the first file of the archive, looking
up the other one gave its data. Let the hash table confirm the match.
---
 mopaq/src/archive.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 2aa9561..c663e56 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -876,8 +876,15 @@ impl Archive {
             if het.header.max_file_count > 0 && bet.header.file_count > 0 {
                 // The HET table only holds a few bits of the name hash: a hit has to be
                 // confirmed with the full hash kept in the BET table
+                // (different names can still share it, so the hash table has to agree as well)
                 let confirmed = het.find_file(filename).filter(|&index| {
                     bet.bet_hashes.get(index as usize) == Some(&jenkins_hash(filename))
+                        && match &self.hash_table {
+                            Some(hash_table) => hash_table
+                                .find_file(filename, 0)
+                                .is_some_and(|(_, entry)| entry.block_index == index),
+                            None => true,
+                        }
                 });
                 if let Some(file_index) = confirmed {
                     if let Some(bet_info) = bet.get_file_info(file_index) {
-- 
2.43.0


From 72179c557d2cee0dfc8beeb60ed615d33767e806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:12 +0000
Subject: [PATCH 39/49] fix: verbose listing panicked on long names with
 characters beyond ASCII

---
 storm-cli/src/output.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/storm-cli/src/output.rs b/storm-cli/src/output.rs
index e2bb87c..091f1ca 100644
--- a/storm-cli/src/output.rs
+++ b/storm-cli/src/output.rs
@@ -451,8 +451,8 @@ pub fn print_file_list_verbose(files: &[FileEntry]) -> Result<(), io::Error> {
         };
 
         // Truncate long filenames
-        let display_name = if entry.name.len() > 39 {
-            format!("{}...", &entry.name[..36])
+        let display_name = if entry.name.chars().count() > 39 {
+            format!("{}...", entry.name.chars().take(36).collect::<String>())
         } else {
             entry.name.clone()
         };
-- 
2.43.0


From 97a124ea6851310d48064addf2560b92b0bf93b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:12 +0000
Subject: [PATCH 40/49] fix: names with commas or quotes made the CSV output
 ambiguous

---
 storm-cli/src/commands/archive.rs |  4 ++--
 storm-cli/src/output.rs           | 22 ++++++++++++++++------
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/storm-cli/src/commands/archive.rs b/storm-cli/src/commands/archive.rs
index b97a6ca..be77a65 100644
--- a/storm-cli/src/commands/archive.rs
+++ b/storm-cli/src/commands/archive.rs
@@ -9,7 +9,7 @@ use std::collections::HashMap;
 use std::path::Path;
 use walkdir::WalkDir;
 
-use crate::output::{print_archive_info, print_json};
+use crate::output::{csv_field, print_archive_info, print_json};
 use crate::{OutputFormat, GLOBAL_OPTS};
 
 #[derive(Debug, Clone)]
@@ -644,7 +644,7 @@ fn print_detailed_verify_result(
         }
         OutputFormat::Csv => {
             println!("metric,value");
-            println!("archive,{}", results.archive_path);
+            println!("archive,{}", csv_field(&results.archive_path));
             println!("format_version,{}", results.format_version as u16 + 1);
             println!("total_files,{}", results.total_files);
             println!("verified_files,{}", results.verified_files);
diff --git a/storm-cli/src/output.rs b/storm-cli/src/output.rs
index 091f1ca..a8b2497 100644
--- a/storm-cli/src/output.rs
+++ b/storm-cli/src/output.rs
@@ -2,6 +2,7 @@ use crate::{OutputFormat, GLOBAL_OPTS};
 use colored::*;
 use mopaq::{Archive, ArchiveInfo, FileEntry, SignatureStatus};
 use serde::Serialize;
+use std::borrow::Cow;
 use std::io;
 
 /// Print JSON output
@@ -11,6 +12,15 @@ pub fn print_json<T: Serialize>(data: &T) -> Result<(), io::Error> {
     Ok(())
 }
 
+/// Quote a CSV field where its contents require it
+pub fn csv_field(value: &str) -> Cow<'_, str> {
+    if value.contains([',', '"', '\n', '\r']) {
+        Cow::Owned(format!("\"{}\"", value.replace('"', "\"\"")))
+    } else {
+        Cow::Borrowed(value)
+    }
+}
+
 /// Print archive information
 pub fn print_archive_info(archive: &mut Archive, format: OutputFormat) -> Result<(), io::Error> {
     let info = archive.get_info().map_err(|e| {
@@ -281,7 +291,7 @@ fn print_archive_info_json(info: &ArchiveInfo) -> Result<(), io::Error> {
 
 fn print_archive_info_csv(info: &ArchiveInfo) -> Result<(), io::Error> {
     println!("property,value");
-    println!("path,{}", info.path.display());
+    println!("path,{}", csv_field(&info.path.display().to_string()));
     println!("file_size,{}", info.file_size);
     println!("archive_offset,{}", info.archive_offset);
     println!("format_version,{}", info.format_version as u16 + 1);
@@ -336,15 +346,15 @@ pub fn print_file_list_with_hashes(
                 println!("filename,hash1,hash2");
                 for entry in files {
                     if let Some((hash1, hash2)) = entry.hashes {
-                        println!("{},{:08X},{:08X}", entry.name, hash1, hash2);
+                        println!("{},{:08X},{:08X}", csv_field(&entry.name), hash1, hash2);
                     } else {
-                        println!("{},NA,NA", entry.name);
+                        println!("{},NA,NA", csv_field(&entry.name));
                     }
                 }
             } else {
                 println!("filename");
                 for entry in files {
-                    println!("{}", entry.name);
+                    println!("{}", csv_field(&entry.name));
                 }
             }
         }
@@ -367,7 +377,7 @@ pub fn print_file_list(files: &[String], format: OutputFormat) -> Result<(), io:
         OutputFormat::Csv => {
             println!("filename");
             for file in files {
-                println!("{}", file);
+                println!("{}", csv_field(file));
             }
         }
     }
@@ -567,7 +577,7 @@ pub fn print_file_info(filename: &str, size: u64, format: OutputFormat) -> Resul
         }
         OutputFormat::Csv => {
             println!("filename,size");
-            println!("{},{}", filename, size);
+            println!("{},{}", csv_field(filename), size);
         }
     }
     Ok(())
-- 
2.43.0


From 71c330ab16efcf1b78e58fa23a6b969d349eed95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:37 +0000
Subject: [PATCH 41/49] fix: a failed table load left an archive that denied
 files it holds

Archive::load_tables kept whatever tables it had read before the error, so an
archive opened with deferred table loading answered from some of its tables:
files reported as not found, or positions without their high bits. The tables
it had before are kept instead.
---
 mopaq/src/archive.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index c663e56..86a4d03 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -326,7 +326,29 @@ impl Archive {
     }
 
     /// Load hash and block tables
+    ///
+    /// On failure the archive keeps the tables it had before.
     pub fn load_tables(&mut self) -> Result<()> {
+        let hash_table = self.hash_table.take();
+        let block_table = self.block_table.take();
+        let hi_block_table = self.hi_block_table.take();
+        let het_table = self.het_table.take();
+        let bet_table = self.bet_table.take();
+
+        let result = self.read_tables();
+        if result.is_err() {
+            // Answers based on only some of the tables would be wrong
+            self.hash_table = hash_table;
+            self.block_table = block_table;
+            self.hi_block_table = hi_block_table;
+            self.het_table = het_table;
+            self.bet_table = bet_table;
+        }
+        result
+    }
+
+    /// Read all tables of the archive
+    fn read_tables(&mut self) -> Result<()> {
         log::debug!(
             "Loading tables for archive version {:?}",
             self.header.format_version
-- 
2.43.0


From 92923b24aeaabbdae461405d616891231c47cf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:41 +0000
Subject: [PATCH 42/49] fix: imploded files and single units that did not
 shrink could not be read

Archives from other tools mark files as compressed whether or not a unit shrank,
and store what did not shrink as it is; sectors were read like that, single
units were not. Imploded files (flag 0x100) have no compression type byte; their
first byte was taken for one.
---
 mopaq/src/archive.rs | 70 ++++++++++++++++++--------------------------
 1 file changed, 29 insertions(+), 41 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 86a4d03..8f2cc90 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -1312,14 +1312,7 @@ impl Archive {
                 // CRC is calculated on the decompressed data
                 let data_to_check = if file_info.is_compressed() {
                     // We need to decompress first to check CRC
-                    let (&compression_type, compressed_data) = data
-                        .split_first()
-                        .ok_or_else(|| Error::compression("Empty compressed data"))?;
-                    compression::decompress(
-                        compressed_data,
-                        compression_type,
-                        actual_file_size as usize,
-                    )?
+                    decompress_stored(&data, file_info.flags, actual_file_size as usize)?
                 } else {
                     data.clone()
                 };
@@ -1339,25 +1332,7 @@ impl Archive {
 
             // Decompress if needed
             if file_info.is_compressed() {
-                // All compressed files should have a compression type byte prefix
-                // This matches StormLib's behavior
-                if !data.is_empty() {
-                    let compression_type = data[0];
-                    let compressed_data = &data[1..];
-                    log::debug!(
-                        "Decompressing file: type=0x{:02X}, compressed_size={}, expected_size={}",
-                        compression_type,
-                        compressed_data.len(),
-                        actual_file_size
-                    );
-                    compression::decompress(
-                        compressed_data,
-                        compression_type,
-                        actual_file_size as usize,
-                    )
-                } else {
-                    Err(Error::compression("Empty compressed data"))
-                }
+                decompress_stored(&data, file_info.flags, actual_file_size as usize)
             } else {
                 Ok(data)
             }
@@ -1491,20 +1466,7 @@ impl Archive {
 
             // Decompress sector
             let decompressed_sector =
-                if file_info.is_compressed() && sector_size_compressed < expected_size {
-                    // All compressed sectors should have compression type byte prefix
-                    // This matches StormLib's behavior
-                    if !sector_data.is_empty() {
-                        let compression_type = sector_data[0];
-                        let compressed_data = &sector_data[1..];
-                        compression::decompress(compressed_data, compression_type, expected_size)?
-                    } else {
-                        return Err(Error::compression("Empty compressed sector data"));
-                    }
-                } else {
-                    // Sector is not compressed
-                    sector_data[..expected_size.min(sector_data.len())].to_vec()
-                };
+                decompress_stored(&sector_data, file_info.flags, expected_size)?;
 
             // Validate CRC if present - like for single unit files, it covers the
             // decompressed data
@@ -1806,6 +1768,32 @@ impl Archive {
     }
 }
 
+/// Decompress a sector or single unit of a file that is marked as compressed
+fn decompress_stored(data: &[u8], file_flags: u32, size: usize) -> Result<Vec<u8>> {
+    // What did not shrink is stored as it is
+    if data.len() >= size {
+        return Ok(data[..size].to_vec());
+    }
+
+    // Imploded data has no compression type byte
+    if file_flags & crate::tables::BlockEntry::FLAG_COMPRESS == 0 {
+        return compression::decompress(data, compression::flags::PKWARE, size);
+    }
+
+    // All other compressed data has a compression type byte prefix
+    // This matches StormLib's behavior
+    let (&compression_type, compressed_data) = data
+        .split_first()
+        .ok_or_else(|| Error::compression("Empty compressed data"))?;
+    log::debug!(
+        "Decompressing: type=0x{:02X}, compressed_size={}, expected_size={}",
+        compression_type,
+        compressed_data.len(),
+        size
+    );
+    compression::decompress(compressed_data, compression_type, size)
+}
+
 /// Decrypt file data in-place
 fn decrypt_file_data(data: &mut [u8], key: u32) {
     if data.is_empty() || key == 0 {
-- 
2.43.0


From c7aa6cc8c442d139647c1563c0d7a1bdab35eb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:43 +0000
Subject: [PATCH 43/49] fix: an empty file at the end of an archive from
 another tool could not be read

A sector offset table was expected even for files without sectors.
---
 mopaq/src/archive.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 8f2cc90..27bcd80 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -1344,6 +1344,11 @@ impl Archive {
 
     /// Read a file that is split into sectors
     fn read_sectored_file(&mut self, file_info: &FileInfo, key: u32) -> Result<Vec<u8>> {
+        // An empty file has no sectors, and no sector offset table either
+        if file_info.file_size == 0 {
+            return Ok(Vec::new());
+        }
+
         let sector_size = self.header.sector_size();
         let sector_count = (file_info.file_size as usize).div_ceil(sector_size);
 
-- 
2.43.0


From d1b323cfd3da64537d901484d01d6899a426624a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:23 +0000
Subject: [PATCH 44/49] fix: a deleted file whose name still refers to its
 block was still found

The block's FLAG_EXISTS is reset when a file is deleted; find_file ignored it.
---
 mopaq/src/archive.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 27bcd80..0895aab 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -955,6 +955,11 @@ impl Archive {
                 .get(hash_entry.block_index as usize)
                 .ok_or_else(|| Error::block_table("Invalid block index"))?;
 
+            // The entry of a deleted file can still have its name
+            if !block_entry.exists() {
+                return Ok(None);
+            }
+
             // Calculate full file position for v2+ archives
             let file_pos = if let Some(hi_block) = &self.hi_block_table {
                 let high_bits = hi_block.get_file_pos_high(hash_entry.block_index as usize);
-- 
2.43.0


From 034049e3678fe6cbef378df43e30517538bc4329 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 10:19:09 +0000
Subject: [PATCH 45/49] fix: sound stored with both ADPCM flags was written as
 mono and read as stereo

---
 mopaq/src/compression/compress.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mopaq/src/compression/compress.rs b/mopaq/src/compression/compress.rs
index 3b356b3..66629ad 100644
--- a/mopaq/src/compression/compress.rs
+++ b/mopaq/src/compression/compress.rs
@@ -64,11 +64,11 @@ fn compress_multiple(data: &[u8], flags: u8) -> Result<Vec<u8>> {
     // We apply compressions in order: ADPCM, then others
     let mut current_data = data.to_vec();
 
-    // Apply ADPCM first if requested
-    if has_adpcm_mono {
-        current_data = algorithms::adpcm::compress_mono(&current_data, 5)?;
-    } else if has_adpcm_stereo {
+    // Apply ADPCM first if requested (with both flags set, readers expect stereo)
+    if has_adpcm_stereo {
         current_data = algorithms::adpcm::compress_stereo(&current_data, 5)?;
+    } else if has_adpcm_mono {
+        current_data = algorithms::adpcm::compress_mono(&current_data, 5)?;
     }
 
     // Count remaining compressions
-- 
2.43.0


From 35131b9513c25656fb76fc56d9028143cb35ae7a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 10:19:09 +0000
Subject: [PATCH 46/49] fix: sound stored with ADPCM and BZip2 could not be
 read back

The intermediate data is smaller than the result, so its size is not known.
---
 mopaq/src/compression/algorithms/bzip2.rs | 12 ++++++++++++
 mopaq/src/compression/decompress.rs       |  2 +-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/mopaq/src/compression/algorithms/bzip2.rs b/mopaq/src/compression/algorithms/bzip2.rs
index c14a1ba..4df6a5e 100644
--- a/mopaq/src/compression/algorithms/bzip2.rs
+++ b/mopaq/src/compression/algorithms/bzip2.rs
@@ -6,6 +6,18 @@ use bzip2::write::BzEncoder;
 use bzip2::Compression;
 use std::io::{Read, Write};
 
+/// Decompress using BZip2 when only an upper limit of the result's size is known
+pub(crate) fn decompress_up_to(data: &[u8], max_size: usize) -> Result<Vec<u8>> {
+    let mut decoder = BzDecoder::new(data).take(max_size as u64);
+    let mut decompressed = super::output_buffer(max_size, data);
+
+    decoder
+        .read_to_end(&mut decompressed)
+        .map_err(|e| Error::compression(format!("BZip2 decompression failed: {}", e)))?;
+
+    Ok(decompressed)
+}
+
 /// Decompress using BZip2
 pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
     let mut decoder = BzDecoder::new(data);
diff --git a/mopaq/src/compression/decompress.rs b/mopaq/src/compression/decompress.rs
index 0a89b43..71b8573 100644
--- a/mopaq/src/compression/decompress.rs
+++ b/mopaq/src/compression/decompress.rs
@@ -104,7 +104,7 @@ fn decompress_multiple(data: &[u8], flags: u8, expected_size: usize) -> Result<V
     } else if has_bzip2 {
         log::debug!("Decompressing BZip2");
         current_data =
-            algorithms::bzip2::decompress(&current_data, expected_size.saturating_mul(4))?;
+            algorithms::bzip2::decompress_up_to(&current_data, expected_size.saturating_mul(4))?;
     } else if has_sparse {
         log::debug!("Decompressing Sparse");
         current_data =
-- 
2.43.0


From d96ebb503f989f5490d9e2a2f86fe6cad3a7e67a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 10:19:09 +0000
Subject: [PATCH 47/49] fix: checksums of ADPCM-compressed files did not match
 what is read back

They were taken before the lossy compression, so such files could not be read.
---
 mopaq/src/builder.rs | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index f3530dc..5a33bb9 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -1,7 +1,7 @@
 //! Archive builder for creating MPQ archives
 
 use crate::{
-    compression::{compress, flags as compression_flags},
+    compression::{compress, decompress, flags as compression_flags},
     crypto::{encrypt_block, hash_string, hash_type, jenkins_hash},
     header::{FormatVersion, MpqHeaderV4Data},
     tables::{BetHeader, BlockEntry, BlockTable, HashEntry, HashTable, HetHeader, HiBlockTable},
@@ -33,6 +33,19 @@ trait WriteLittleEndian: Write {
 
 impl<W: Write> WriteLittleEndian for W {}
 
+/// Compression methods that do not give back exactly what was put in
+const LOSSY_COMPRESSION: u8 = compression_flags::ADPCM_MONO | compression_flags::ADPCM_STEREO;
+
+/// Checksum of the data a reader gets from a file or sector stored as `stored`
+fn content_checksum(original: &[u8], stored: &[u8], compression: u8) -> Result<u32> {
+    if compression & LOSSY_COMPRESSION != 0 && stored != original {
+        let content = decompress(&stored[1..], stored[0], original.len())?;
+        Ok(adler::adler32_slice(&content))
+    } else {
+        Ok(adler::adler32_slice(original))
+    }
+}
+
 /// File to be added to the archive
 #[derive(Debug)]
 struct PendingFile {
@@ -970,6 +983,12 @@ impl ArchiveBuilder {
                 file_data.to_vec()
             };
 
+            // MPQ uses ADLER32 for sector checksums
+            let crc = match self.generate_crcs {
+                true => content_checksum(file_data, &compressed_data, *compression)?,
+                false => 0,
+            };
+
             // Encrypt if needed
             let final_data = if *encrypt {
                 flags |= BlockEntry::FLAG_ENCRYPTED;
@@ -990,8 +1009,6 @@ impl ArchiveBuilder {
 
             // Write CRC if enabled
             if self.generate_crcs {
-                // MPQ uses ADLER32 for sector checksums
-                let crc = adler::adler32_slice(file_data);
                 writer.write_u32_le(crc)?;
                 log::debug!(
                     "Generated CRC for single unit file {}: 0x{:08X}",
@@ -1040,13 +1057,6 @@ impl ArchiveBuilder {
 
                 *offset = (data_start + sector_data.len()) as u32;
 
-                // Calculate CRC for uncompressed sector if enabled
-                if self.generate_crcs {
-                    // MPQ uses ADLER32 for sector checksums
-                    let crc = adler::adler32_slice(sector_bytes);
-                    sector_crcs.push(crc);
-                }
-
                 // Compress sector if needed
                 let compressed_sector = if *compression != 0 && !sector_bytes.is_empty() {
                     // The compress function now handles the compression byte prefix
@@ -1064,6 +1074,13 @@ impl ArchiveBuilder {
                     sector_bytes.to_vec()
                 };
 
+                // Calculate CRC for uncompressed sector if enabled
+                if self.generate_crcs {
+                    // MPQ uses ADLER32 for sector checksums
+                    let crc = content_checksum(sector_bytes, &compressed_sector, *compression)?;
+                    sector_crcs.push(crc);
+                }
+
                 sector_data.extend_from_slice(&compressed_sector);
             }
 
-- 
2.43.0


From b7a92fe874186f8ac63a74fd7f742402d772a2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 10:19:09 +0000
Subject: [PATCH 48/49] fix: an ADPCM default compression garbled the names in
 the listfile

---
 mopaq/src/builder.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index 5a33bb9..edea0d4 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -582,6 +582,9 @@ impl ArchiveBuilder {
 
     /// Prepare the listfile based on the option
     fn prepare_listfile(&mut self) -> Result<()> {
+        // Audio compression would alter the names
+        let listfile_compression = self.default_compression & !LOSSY_COMPRESSION;
+
         match &self.listfile_option {
             ListfileOption::Generate => {
                 // Generate listfile content from pending files
@@ -598,7 +601,7 @@ impl ArchiveBuilder {
                 self.pending_files.push(PendingFile {
                     source: FileSource::Data(content.into_bytes()),
                     archive_name: "(listfile)".to_string(),
-                    compression: self.default_compression,
+                    compression: listfile_compression,
                     encrypt: false,
                     use_fix_key: false,
                     locale: 0,
@@ -611,7 +614,7 @@ impl ArchiveBuilder {
                 self.pending_files.push(PendingFile {
                     source: FileSource::Data(data),
                     archive_name: "(listfile)".to_string(),
-                    compression: self.default_compression,
+                    compression: listfile_compression,
                     encrypt: false,
                     use_fix_key: false,
                     locale: 0,
-- 
2.43.0


From dad5628dcbd554e073c8b4ce8c143ac2cb25d685 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 11:26:39 +0000
Subject: [PATCH 49/49] fix: concurrent creation could replace an archive or
 file that had to be kept

SFileCreateArchive checked for an existing file before building and then
renamed the new archive over whatever was there.
---
 mopaq/src/builder.rs | 20 +++++++++++++++++---
 storm-ffi/src/lib.rs | 17 ++++++++++++++---
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index edea0d4..b17e593 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -535,9 +535,17 @@ impl ArchiveBuilder {
     }
 
     /// Build the archive and write to the specified path
-    pub fn build<P: AsRef<Path>>(mut self, path: P) -> Result<()> {
-        let path = path.as_ref();
+    pub fn build<P: AsRef<Path>>(self, path: P) -> Result<()> {
+        self.build_at(path.as_ref(), true)
+    }
+
+    /// Build the archive like [`build`](Self::build), but fail with an I/O error of kind
+    /// `AlreadyExists` rather than replace a file at the path
+    pub fn build_new<P: AsRef<Path>>(self, path: P) -> Result<()> {
+        self.build_at(path.as_ref(), false)
+    }
 
+    fn build_at(mut self, path: &Path, overwrite: bool) -> Result<()> {
         // Create a temporary file in the same directory
         let mut temp_file = NamedTempFile::new_in(path.parent().unwrap_or_else(|| Path::new(".")))?;
 
@@ -575,7 +583,13 @@ impl ArchiveBuilder {
         temp_file.as_file().sync_all()?;
 
         // Atomically rename temp file to final destination
-        temp_file.persist(path).map_err(|e| Error::Io(e.error))?;
+        if overwrite {
+            temp_file.persist(path).map_err(|e| Error::Io(e.error))?;
+        } else {
+            temp_file
+                .persist_noclobber(path)
+                .map_err(|e| Error::Io(e.error))?;
+        }
 
         Ok(())
     }
diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index cb7464f..307328a 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -268,16 +268,27 @@ pub unsafe extern "C" fn SFileCreateArchive(
     // Create the archive using ArchiveBuilder
     // Note: hash_table_size is automatically calculated by ArchiveBuilder
     // based on the number of files added. For now we create a minimal archive.
-    let result = ArchiveBuilder::new()
+    let builder = ArchiveBuilder::new()
         .version(version)
-        .listfile_option(ListfileOption::Generate)
-        .build(filename_str);
+        .listfile_option(ListfileOption::Generate);
+    let result = match creation_disposition {
+        // Another thread or process may have created the file in the meantime
+        CREATE_NEW | OPEN_ALWAYS => builder.build_new(filename_str),
+        _ => builder.build(filename_str),
+    };
 
     match result {
         Ok(_) => {
             // Archive created successfully, now open it for use
             SFileOpenArchive(filename, 0, 0, handle)
         }
+        Err(mopaq::Error::Io(ref e)) if e.kind() == std::io::ErrorKind::AlreadyExists => {
+            if creation_disposition == OPEN_ALWAYS {
+                return SFileOpenArchive(filename, 0, 0, handle);
+            }
+            set_last_error(ERROR_ALREADY_EXISTS);
+            false
+        }
         Err(e) => {
             // Map creation errors to Windows error codes
             let error_code = match e {
-- 
2.43.0

