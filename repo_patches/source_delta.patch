From 6a78b280b84f7e3c3302f033643c9b6978392656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:00 +0000
Subject: [PATCH 01/14] fix: write the GUID set by update_guid

---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 0ca48a1..cb3b4f1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -874,6 +874,7 @@ where
         trace!("old backup lba: {}", bak);
 
         let primary_header = header::HeaderBuilder::from_header(self.header())
+            .disk_guid(self.guid)
             .primary(true)
             .build(self.config.lb_size)?;
         let primary_header = self.primary_header.insert_ok(primary_header);
-- 
2.43.0


From b263c581f8d6e88014c6699ad675a7714eef997b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:00 +0000
Subject: [PATCH 02/14] fix: add_partition_at checks that the end of the
 partition is free

---
 src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index cb3b4f1..0a011a5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -603,7 +603,12 @@ where
         }
 
         for (starting_lba, length) in self.find_free_sectors() {
-            if !(first_lba >= starting_lba && length_lba <= length) {
+            // both ends need to be in the free section
+            let fits = first_lba
+                .checked_sub(starting_lba)
+                .and_then(|offset| length.checked_sub(offset))
+                .map_or(false, |available| length_lba <= available);
+            if !fits {
                 continue;
             }
 
-- 
2.43.0


From 93ab54201140cbb53a413cc42dd958f27575f480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:00 +0000
Subject: [PATCH 03/14] fix: find_free_sectors handles overlapping and out of
 range partitions

---
 src/lib.rs | 49 +++++++++++++++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0a011a5..4d654e7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -714,34 +714,47 @@ where
         let header = self.header();
 
         trace!("first_usable: {}", header.first_usable);
-        // a list of boundaries between partitions each point is a used lba
-        let mut disk_positions = vec![header.first_usable - 1];
+        // the used ranges (inclusive), whatever their order
+        let mut used: Vec<(u64, u64)> = vec![];
         for part in self.partitions().iter().filter(|p| p.1.is_used()) {
             trace!(
                 "used partition: ({}, {})",
                 part.1.first_lba,
                 part.1.last_lba
             );
-            disk_positions.push(part.1.first_lba);
-            disk_positions.push(part.1.last_lba);
+            used.push((
+                part.1.first_lba.min(part.1.last_lba),
+                part.1.first_lba.max(part.1.last_lba),
+            ));
         }
-        disk_positions.push(header.last_usable + 1);
         trace!("last_usable: {}", header.last_usable);
-        disk_positions.sort_unstable();
-
-        disk_positions
-            // Walk through the LBA's in chunks of 2 (ending, starting).
-            .chunks_exact(2)
-            // Add 1 to the ending and then subtract the starting if NOT the first usable sector
-            .filter_map(|p| {
+        used.sort_unstable();
+
+        let mut free = vec![];
+        // the lowest lba that is not known to be used
+        let mut next = header.first_usable;
+        for (first, last) in used {
+            if next > header.last_usable {
+                return free;
+            }
+            if first > next {
                 // free lba
-                let start = p[0] + 1;
-                let end = p[1] - 1;
+                let end = header.last_usable.min(first - 1);
+                free.push((next, end - next + 1));
+            }
+            if last >= next {
+                match last.checked_add(1) {
+                    Some(n) => next = n,
+                    None => return free,
+                }
+            }
+        }
+        if next <= header.last_usable {
+            // only the entire 64bit range can't be counted
+            free.push((next, (header.last_usable - next).saturating_add(1)));
+        }
 
-                #[allow(clippy::unnecessary_lazy_evaluations)]
-                (start <= end).then(|| (start, end - start + 1))
-            })
-            .collect()
+        free
     }
 
     /// Find next highest partition id.
-- 
2.43.0


From 8fdeb5ef22c2eff7f337fc01c77c01858cd64b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:00 +0000
Subject: [PATCH 04/14] fix: the entry count covers the highest id and a failed
 change of it leaves the disk as it was

---
 src/lib.rs | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4d654e7..486f00b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -318,7 +318,7 @@ impl GptConfig {
             sync_all: None,
         };
         // setup default headers
-        disk.init_headers()?;
+        disk.init_headers(0)?;
         Ok(disk)
     }
 }
@@ -557,12 +557,12 @@ where
                     flags,
                     name: name.to_string(),
                 };
-                if let Some(p) = self.partitions.insert(partition_id, part.clone()) {
-                    debug!("Replacing\n{}\nwith\n{}", p, part);
-                }
                 if num_parts_changes {
                     // update headers
-                    self.init_headers()?;
+                    self.init_headers(partition_id)?;
+                }
+                if let Some(p) = self.partitions.insert(partition_id, part.clone()) {
+                    debug!("Replacing\n{}\nwith\n{}", p, part);
                 }
                 return Ok(partition_id);
             }
@@ -642,13 +642,13 @@ where
                 name: name.to_string(),
             };
 
-            if let Some(p) = self.partitions.insert(id, part.clone()) {
-                debug!("Replacing\n{}\nwith\n{}", p, part);
-            }
-
             if num_parts_changes {
                 // update headers
-                self.init_headers()?;
+                self.init_headers(id)?;
+            }
+
+            if let Some(p) = self.partitions.insert(id, part.clone()) {
+                debug!("Replacing\n{}\nwith\n{}", p, part);
             }
 
             return Ok(id);
@@ -817,23 +817,30 @@ where
         assert!(!pp.contains_key(&0));
 
         // TODO(lucab): validate partitions.
-        let num_parts = pp.len() as u32;
+        // every id needs an entry
+        let num_parts = pp.keys().next_back().copied().unwrap_or(0);
 
         let num_parts_changes = self.header().num_parts_would_change(num_parts);
         if num_parts_changes && !self.config.change_partition_count {
             return Err(GptError::PartitionCountWouldChange);
         }
 
+        self.init_headers(num_parts)?;
         self.partitions = pp;
 
-        self.init_headers()
+        Ok(())
     }
 
     /// Makes sure there exists a primary header and if allowed also creates the backup
     /// header.
-    pub(crate) fn init_headers(&mut self) -> Result<(), GptError> {
+    ///
+    /// The headers have at least `min_num_parts` entries and never less than before.
+    /// If this fails nothing gets changed.
+    pub(crate) fn init_headers(&mut self, min_num_parts: u32) -> Result<(), GptError> {
         let bak = header::find_backup_lba(&mut self.device, self.config.lb_size)?;
-        let num_parts = self.partitions.len() as u32;
+        let num_parts = self
+            .try_header()
+            .map_or(min_num_parts, |h| h.num_parts.max(min_num_parts));
 
         let h1 = header::HeaderBuilder::from_maybe_header(self.try_header())
             .num_parts(num_parts)
@@ -841,14 +848,14 @@ where
             .disk_guid(self.guid)
             .primary(true)
             .build(self.config.lb_size)?;
-        let header = self.primary_header.insert_ok(h1);
 
         if !self.config.readonly_backup {
-            let h2 = header::HeaderBuilder::from_header(header)
+            let h2 = header::HeaderBuilder::from_header(&h1)
                 .primary(false)
                 .build(self.config.lb_size)?;
             self.backup_header = Ok(h2);
         }
+        self.primary_header = Ok(h1);
 
         Ok(())
     }
-- 
2.43.0


From f38505b8267571d741e43ca273b8396a2baf135b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:00 +0000
Subject: [PATCH 05/14] fix: the usable range never overlaps the backup
 partition array

---
 src/header/builder.rs | 29 ++++++++++++++++++-----------
 src/lib.rs            | 11 ++++++++++-
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/header/builder.rs b/src/header/builder.rs
index d56b9a8..5428d3d 100644
--- a/src/header/builder.rs
+++ b/src/header/builder.rs
@@ -132,21 +132,28 @@ impl HeaderBuilder {
             (self.backup_lba, self.primary_lba)
         };
 
-        let part_array_size = self.num_parts * self.part_size;
-        let part_array_lbs = u64_div_ceil(part_array_size as u64, lb_size.as_u64());
+        // can't overflow because both are 32bit
+        let part_array_size = self.num_parts as u64 * self.part_size as u64;
+        let part_array_lbs = u64_div_ceil(part_array_size, lb_size.as_u64());
 
         let first_usable = self.first_usable.max(
-            // mbr, header, part_array
-            1 + 1 + part_array_lbs,
-        );
-
-        let last_usable = self.last_usable.max(
-            // last is inclusive: end of disk is (partition array) (backup header)
-            self.backup_lba
-                .checked_sub(part_array_lbs + 1)
+            // (everything before the header) header, part_array
+            self.primary_lba
+                .checked_add(1 + part_array_lbs)
                 .ok_or(HeaderError::BackupLbaToEarly)?,
         );
 
+        // last is inclusive: end of disk is (partition array) (backup header)
+        let max_last_usable = self
+            .backup_lba
+            .checked_sub(part_array_lbs + 1)
+            .ok_or(HeaderError::BackupLbaToEarly)?;
+        let last_usable = match self.last_usable {
+            // not set
+            0 => max_last_usable,
+            last_usable => last_usable.min(max_last_usable),
+        };
+
         if first_usable > last_usable {
             return Err(HeaderError::BackupLbaToEarly);
         }
@@ -183,5 +190,5 @@ impl Default for HeaderBuilder {
 }
 
 fn u64_div_ceil(lhs: u64, rhs: u64) -> u64 {
-    (lhs + (rhs - 1)) / rhs
+    lhs / rhs + (lhs % rhs != 0) as u64
 }
diff --git a/src/lib.rs b/src/lib.rs
index 486f00b..40d729c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -842,7 +842,16 @@ where
             .try_header()
             .map_or(min_num_parts, |h| h.num_parts.max(min_num_parts));
 
-        let h1 = header::HeaderBuilder::from_maybe_header(self.try_header())
+        let mut builder = header::HeaderBuilder::from_maybe_header(self.try_header());
+        if self
+            .try_header()
+            .map_or(false, |h| h.current_lba.max(h.backup_lba) != bak)
+        {
+            // the device has a different size now
+            builder.last_usable(0);
+        }
+
+        let h1 = builder
             .num_parts(num_parts)
             .backup_lba(bak)
             .disk_guid(self.guid)
-- 
2.43.0


From cb1f0d80b52f1438dcdb98c8f724d927412ea322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:00 +0000
Subject: [PATCH 06/14] fix: return an error instead of panicking on an
 unsupported entry size

---
 src/partition.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/partition.rs b/src/partition.rs
index e8df308..ec55c0b 100644
--- a/src/partition.rs
+++ b/src/partition.rs
@@ -258,7 +258,12 @@ pub fn file_read_partitions<D: Read + Seek>(
     let mut parts: BTreeMap<u32, Partition> = BTreeMap::new();
 
     // todo how should we deal with unuals part_sizes?
-    assert_eq!(header.part_size, 128);
+    if header.part_size != 128 {
+        return Err(Error::new(
+            ErrorKind::Other,
+            "unsupported partition entry size (must be 128)",
+        ));
+    }
 
     trace!("scanning {} partitions", header.num_parts);
     let mut empty_parts = 0;
-- 
2.43.0


From b151f19cd2309aa03816a75e46cdbbf3826cdcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:00 +0000
Subject: [PATCH 07/14] fix: recognise known partition types in every textual
 form of their GUID

---
 src/macros.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index 00447a9..c70a9cc 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -36,10 +36,7 @@ pub mod pub_macros {
                         )+
                         _ => {
                             match ::uuid::Uuid::from_str(s) {
-                                Ok(u) => Ok(Type {
-                                    guid: u,
-                                    os: OperatingSystem::None,
-                                }),
+                                Ok(u) => Ok(u.into()),
                                 Err(_) => Err("Invalid Partition Type GUID.".to_string()),
                             }
                         }
-- 
2.43.0


From 449793be27455f233de9e8b51f532d9e01d6cddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:00 +0000
Subject: [PATCH 08/14] fix: add_partition does not panic on a zero or huge
 alignment

---
 src/lib.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 40d729c..934b163 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -519,8 +519,10 @@ where
             // We don't need to do any checked math here because we guarantee that with `(A % B)`,
             // `A` will always be between 0 and `B-1`.
             let alignment_offset_lba = match part_alignment {
-                Some(alignment) => (alignment - (starting_lba % alignment)) % alignment,
-                None => 0_u64,
+                Some(alignment) if alignment > 0 => {
+                    (alignment - (starting_lba % alignment)) % alignment
+                }
+                _ => 0_u64,
             };
 
             debug!(
@@ -528,7 +530,10 @@ where
                 starting_lba, length, alignment_offset_lba
             );
 
-            if length >= (alignment_offset_lba + size_lba) {
+            if alignment_offset_lba
+                .checked_add(size_lba)
+                .map_or(false, |needed| length >= needed)
+            {
                 let starting_lba = starting_lba + alignment_offset_lba;
                 // Found our free slice.
                 let partition_id = self
-- 
2.43.0


From 99b25aba9d17f60d60066faee95aa71cab74513d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:00 +0000
Subject: [PATCH 09/14] fix: do not read the header from a wrong position when
 seeking fails

---
 src/header/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/header/mod.rs b/src/header/mod.rs
index 222478c..a322aa2 100644
--- a/src/header/mod.rs
+++ b/src/header/mod.rs
@@ -322,7 +322,7 @@ pub(crate) fn file_read_header<D: Read + Seek>(
     file: &mut D,
     offset: u64,
 ) -> Result<Header, HeaderError> {
-    let _ = file.seek(SeekFrom::Start(offset));
+    let _ = file.seek(SeekFrom::Start(offset))?;
 
     let mut bytes = BytesArray::from([0u8; 92]);
     file.read_exact(bytes.as_mut())?;
-- 
2.43.0


From 07c639e546b698dbd0a911bc00ea307f1e781dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:00 +0000
Subject: [PATCH 10/14] fix: writing entries beyond 64 bits is an error

---
 src/partition.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/partition.rs b/src/partition.rs
index ec55c0b..f14218d 100644
--- a/src/partition.rs
+++ b/src/partition.rs
@@ -126,8 +126,11 @@ impl Partition {
         let offset = partition_index
             .checked_mul(u64::from(bytes_per_partition))
             .ok_or_else(|| Error::new(ErrorKind::Other, "partition overflow"))?;
-        trace!("seeking to partition start: {}", pstart + offset);
-        device.seek(SeekFrom::Start(pstart + offset))?;
+        let start = pstart
+            .checked_add(offset)
+            .ok_or_else(|| Error::new(ErrorKind::Other, "partition overflow"))?;
+        trace!("seeking to partition start: {}", start);
+        device.seek(SeekFrom::Start(start))?;
         trace!("writing {:?}", &self.as_bytes(bytes_per_partition));
         device.write_all(&self.as_bytes(bytes_per_partition)?)?;
 
@@ -156,8 +159,11 @@ impl Partition {
         let offset = starting_partition_index
             .checked_mul(u64::from(bytes_per_partition))
             .ok_or_else(|| Error::new(ErrorKind::Other, "partition overflow"))?;
-        trace!("seeking to starting partition start: {}", pstart + offset);
-        device.seek(SeekFrom::Start(pstart + offset))?;
+        let start = pstart
+            .checked_add(offset)
+            .ok_or_else(|| Error::new(ErrorKind::Other, "partition overflow"))?;
+        trace!("seeking to starting partition start: {}", start);
+        device.seek(SeekFrom::Start(start))?;
         let bytes_to_zero = u64::from(bytes_per_partition)
             .checked_mul(number_entries)
             .and_then(|x| usize::try_from(x).ok())
-- 
2.43.0


From f533e623897cffa49be03fb4ef03c66981ae1f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:00 +0000
Subject: [PATCH 11/14] fix: do not cut a partition name inside a character

---
 src/partition.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/partition.rs b/src/partition.rs
index f14218d..03d4584 100644
--- a/src/partition.rs
+++ b/src/partition.rs
@@ -84,9 +84,16 @@ impl Partition {
         buf.write_all(&self.last_lba.to_le_bytes())?;
         buf.write_all(&self.flags.to_le_bytes())?;
 
-        // Partition name as UTF16-LE.
-        for utf16_char in self.name.encode_utf16().take(36) {
-            buf.write_all(&utf16_char.to_le_bytes())?; // TODO: Check this
+        // Partition name as UTF16-LE, only entire characters that fit.
+        let mut name_len = 0;
+        for c in self.name.chars() {
+            name_len += c.len_utf16();
+            if name_len > 36 {
+                break;
+            }
+            for utf16_char in c.encode_utf16(&mut [0; 2]) {
+                buf.write_all(&utf16_char.to_le_bytes())?; // TODO: Check this
+            }
         }
 
         // Resize buffer to exact entry size.
-- 
2.43.0


From 9ad6601bc3faed5252e7b3c600b1bedd910bfec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:49 +0000
Subject: [PATCH 12/14] fix: fall back to the backup when the primary partition
 array is damaged

---
 src/lib.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 934b163..84c42de 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -283,7 +283,18 @@ impl GptConfig {
         };
 
         let header = h1.as_ref().or(h2.as_ref()).unwrap();
-        let table = partition::file_read_partitions(&mut device, header, self.lb_size)?;
+        let table = partition::file_read_partitions(&mut device, header, self.lb_size);
+        // the array of the primary header might be damaged
+        let (h1, table) = match (h1, table, &h2) {
+            (Ok(_), Err(e), Ok(h2)) if !self.only_valid_headers => {
+                match partition::file_read_partitions(&mut device, h2, self.lb_size) {
+                    Ok(table) => (Err(HeaderError::Io(e)), table),
+                    Err(_) => return Err(e.into()),
+                }
+            }
+            (h1, table, _) => (h1, table?),
+        };
+        let header = h1.as_ref().or(h2.as_ref()).unwrap();
 
         let disk = GptDisk {
             config: self,
-- 
2.43.0


From 469fbee097e8a094a986b76c7da5dd09e1cbb4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:49 +0000
Subject: [PATCH 13/14] fix: complete the backup copy before changing the
 primary one

---
 src/lib.rs | 119 +++++++++++++++++++++++++----------------------------
 1 file changed, 55 insertions(+), 64 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 84c42de..3a819ff 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -939,81 +939,38 @@ where
             None
         };
 
-        // Write all of the used partitions at the start of the partition array.
-        let mut next_partition_index = 0;
-        for (part_idx, partition) in self
-            .partitions
-            .clone()
-            .iter()
-            .filter(|p| p.1.is_used())
-            .enumerate()
-        {
-            // don't allow us to overflow partition array...
-            // todo this should not be possible since we
-            // check in add partition that it is valid
-            if part_idx >= primary_header.num_parts as usize {
-                return Err(GptError::OverflowPartitionCount);
-            }
+        // don't allow us to overflow partition array...
+        // todo this should not be possible since we
+        // check in add partition that it is valid
+        let num_used = self.partitions.values().filter(|p| p.is_used()).count();
+        if num_used > primary_header.num_parts as usize {
+            return Err(GptError::OverflowPartitionCount);
+        }
 
-            // Write to primary partition array
-            partition.1.write_to_device(
+        // The backup needs to be complete before the primary gets changed. This way an
+        // interrupted write always leaves one of them intact.
+        if let Some(backup_header) = backup_header {
+            write_partition_array(
                 &mut self.device,
-                part_idx as u64,
-                primary_header.part_start,
+                &self.partitions,
+                backup_header,
                 self.config.lb_size,
-                primary_header.part_size,
             )?;
-            // IMPORTANT: must also write it to the backup header if it uses a different
-            // area to store the partition array; otherwise backup header will not point
-            // to an up to date partition array on disk.
-            if let Some(backup_header) = &backup_header {
-                if part_idx >= backup_header.num_parts as usize {
-                    return Err(GptError::OverflowPartitionCount);
-                }
+            debug!("Writing backup header");
+            backup_header.write_backup(&mut self.device, self.config.lb_size)?;
 
-                if primary_header.part_start != backup_header.part_start {
-                    partition.1.write_to_device(
-                        &mut self.device,
-                        part_idx as u64,
-                        backup_header.part_start,
-                        self.config.lb_size,
-                        backup_header.part_size,
-                    )?;
-                }
+            self.device.flush()?;
+            if let Some(sync_all) = self.sync_all {
+                sync_all(&mut self.device)?;
             }
-            next_partition_index = part_idx + 1;
         }
 
-        // Next, write zeros to the rest of the primary/backup partition array
-        // (ensures any newly deleted partitions are truly removed from disk, etc.)
-        // NOTE: we should never underflow here because of boundary checking in loop above.
-        partition::Partition::write_zero_entries_to_device(
+        write_partition_array(
             &mut self.device,
-            next_partition_index as u64,
-            (primary_header.num_parts as u64)
-                .checked_sub(next_partition_index as u64)
-                .unwrap(),
-            primary_header.part_start,
+            &self.partitions,
+            primary_header,
             self.config.lb_size,
-            primary_header.part_size,
         )?;
-        if let Some(backup_header) = &backup_header {
-            partition::Partition::write_zero_entries_to_device(
-                &mut self.device,
-                next_partition_index as u64,
-                (backup_header.num_parts as u64)
-                    .checked_sub(next_partition_index as u64)
-                    .unwrap(),
-                backup_header.part_start,
-                self.config.lb_size,
-                backup_header.part_size,
-            )?;
-        }
-
-        if let Some(backup_header) = backup_header {
-            debug!("Writing backup header");
-            backup_header.write_backup(&mut self.device, self.config.lb_size)?;
-        }
         debug!("Writing primary header");
         primary_header.write_primary(&mut self.device, self.config.lb_size)?;
 
@@ -1027,6 +984,40 @@ where
     }
 }
 
+/// Writes all of the used partitions at the start of the partition array and zeros to
+/// the rest of it.
+fn write_partition_array<D: DiskDevice>(
+    device: &mut D,
+    partitions: &BTreeMap<u32, partition::Partition>,
+    header: &header::Header,
+    lb_size: disk::LogicalBlockSize,
+) -> io::Result<()> {
+    let mut next_partition_index = 0;
+    for partition in partitions.values().filter(|p| p.is_used()) {
+        partition.write_to_device(
+            device,
+            next_partition_index,
+            header.part_start,
+            lb_size,
+            header.part_size,
+        )?;
+        next_partition_index += 1;
+    }
+
+    // (ensures any newly deleted partitions are truly removed from disk, etc.)
+    // NOTE: we should never underflow here because of the check in write_inplace.
+    partition::Partition::write_zero_entries_to_device(
+        device,
+        next_partition_index,
+        (header.num_parts as u64)
+            .checked_sub(next_partition_index)
+            .unwrap(),
+        header.part_start,
+        lb_size,
+        header.part_size,
+    )
+}
+
 fn file_sync_all(device: &mut fs::File) -> io::Result<()> {
     device.sync_all()
 }
-- 
2.43.0


From 15a056dd91fb11811b41b55aff8d8b82fae18232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:07 +0000
Subject: [PATCH 14/14] fix: adding a partition that ends at the last possible
 LBA does not overflow

---
 src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3a819ff..5866f30 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -555,7 +555,7 @@ where
                     partition_id,
                     part_type,
                     starting_lba,
-                    starting_lba + size_lba - 1_u64
+                    starting_lba + (size_lba - 1_u64)
                 );
 
                 // let's try to increase the num parts
@@ -569,7 +569,7 @@ where
                     part_type_guid: part_type,
                     part_guid: uuid::Uuid::new_v4(),
                     first_lba: starting_lba,
-                    last_lba: starting_lba + size_lba - 1_u64,
+                    last_lba: starting_lba + (size_lba - 1_u64),
                     flags,
                     name: name.to_string(),
                 };
@@ -638,7 +638,7 @@ where
                 id,
                 part_type,
                 first_lba,
-                first_lba + length_lba - 1_u64
+                first_lba + (length_lba - 1_u64)
             );
 
             // let's try to increase the num parts
@@ -653,7 +653,7 @@ where
                 part_type_guid: part_type,
                 part_guid: uuid::Uuid::new_v4(),
                 first_lba,
-                last_lba: first_lba + length_lba - 1_u64,
+                last_lba: first_lba + (length_lba - 1_u64),
                 flags,
                 name: name.to_string(),
             };
-- 
2.43.0

