From 3e23c53c2b1b9aa418685a421ebedf8df0a4731d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 01/41] fix: refuse a JPEG segment length below 2 when clearing
 instead of underflowing

---
 src/jpg.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/jpg.rs b/src/jpg.rs
index 2ce0949..d05cdb0 100644
--- a/src/jpg.rs
+++ b/src/jpg.rs
@@ -153,6 +153,11 @@ clear_segment
 
             // Decode the length to determine how much more data there is
             let length = from_u8_vec_res_macro!(u16, &length_buffer, &Endian::Big)?;
+            if length < 2
+            {
+                return io_error!(InvalidData, "Mangled JPG data encountered!");
+            }
+
             let remaining_length = (length - 2) as usize;
 
             if byte_buffer[0] == segment_marker                                 // Given marker, e.g. for APP1
-- 
2.43.0


From 4f16d8a7dd0dc33081dac53a54dd1078b20203ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 02/41] fix: compare the JPEG segment prefix only within the
 segment

---
 src/jpg.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/jpg.rs b/src/jpg.rs
index d05cdb0..543a029 100644
--- a/src/jpg.rs
+++ b/src/jpg.rs
@@ -170,19 +170,23 @@ clear_segment
                 // If we are given prefix bytes to check for, read them in
                 if let Some(prefix) = prefix_bytes
                 {
-                    let mut prefix_buffer = vec![0u8; prefix.len()];
-                    cursor.read_exact(&mut prefix_buffer)?;
-                    cursor.seek(SeekFrom::Current(-(prefix_buffer.len() as i64)))?;
-
                     // We are given a prefix but don't know yet if it matches
                     // So set the override to true for now as we might have to
                     // skip deleting this segment if we don't get a match
                     do_not_delete_segment_override = true;
 
-                    // Only delete the segment if the prefix matches
-                    if prefix_buffer.as_slice() == prefix
+                    // A segment that is too short can't contain the prefix
+                    if prefix.len() <= remaining_length
                     {
-                        do_not_delete_segment_override = false;
+                        let mut prefix_buffer = vec![0u8; prefix.len()];
+                        cursor.read_exact(&mut prefix_buffer)?;
+                        cursor.seek(SeekFrom::Current(-(prefix_buffer.len() as i64)))?;
+
+                        // Only delete the segment if the prefix matches
+                        if prefix_buffer.as_slice() == prefix
+                        {
+                            do_not_delete_segment_override = false;
+                        }
                     }
                 }
 
-- 
2.43.0


From 7df4aa61d2eb7d1ec19e9aa77ba1debcf07b49fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 03/41] fix: accept 0xFF fill bytes in front of JPEG markers

---
 src/jpg.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/jpg.rs b/src/jpg.rs
index 543a029..1a1ecc6 100644
--- a/src/jpg.rs
+++ b/src/jpg.rs
@@ -138,6 +138,12 @@ clear_segment
 
         if previous_byte_was_marker_prefix
         {
+            // A marker may be preceded by any number of 0xFF fill bytes
+            if byte_buffer[0] == JPG_MARKER_PREFIX
+            {
+                continue;
+            }
+
             // Check if this is the end of the file. In that case, the length
             // data can't be read and we need to return prematurely. 
             if byte_buffer[0] == 0xd9                                           // EOI marker
@@ -451,6 +457,12 @@ generic_read_metadata
 
         if previous_byte_was_marker_prefix
         {
+            // A marker may be preceded by any number of 0xFF fill bytes
+            if byte_buffer[0] == JPG_MARKER_PREFIX
+            {
+                continue;
+            }
+
             // Check if this is the end of the file. In that case, the length
             // data can't be read and we need to return prematurely. 
             // This is why this case can't be included in the match afterwards.
-- 
2.43.0


From 58772ab52a8e19d2053570216b768e49f6722ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:42 +0000
Subject: [PATCH 04/41] fix: refuse EXIF data that does not fit into a JPEG
 segment instead of truncating its length

---
 src/jpg.rs                  | 18 ++++++++++++------
 src/metadata/metadata_io.rs |  2 +-
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/jpg.rs b/src/jpg.rs
index 1a1ecc6..16df52b 100644
--- a/src/jpg.rs
+++ b/src/jpg.rs
@@ -27,11 +27,17 @@ encode_metadata_jpg
 (
     exif_vec: &[u8],
 )
--> Vec<u8>
+-> Result<Vec<u8>, std::io::Error>
 {
     // vector storing the data that will be returned
     let mut jpg_exif: Vec<u8> = Vec::new();
 
+    // Check that the data fits into a single APP1 segment
+    if exif_vec.len() > u16::MAX as usize - 2 - EXIF_HEADER.len()
+    {
+        return io_error!(InvalidInput, "EXIF data is too large for a JPG segment!");
+    }
+
     // Compute the length of the exif data (includes the two bytes of the
     // actual length field)
     let length = 2u16 + (EXIF_HEADER.len() as u16) + (exif_vec.len() as u16);
@@ -43,7 +49,7 @@ encode_metadata_jpg
     jpg_exif.extend(EXIF_HEADER.iter());
     jpg_exif.extend(exif_vec.iter());
 
-    return jpg_exif;
+    return Ok(jpg_exif);
 }
 
 
@@ -299,7 +305,7 @@ as_u8_vec
 (
     general_encoded_metadata: &[u8],
 )
--> Vec<u8>
+-> Result<Vec<u8>, std::io::Error>
 {
     encode_metadata_jpg(general_encoded_metadata)
 }
@@ -314,12 +320,12 @@ write_metadata
 )
 -> Result<(), std::io::Error>
 {
+    // Encode the data specifically for JPG
+    let mut encoded_metadata = encode_metadata_jpg(&metadata.encode()?)?;
+
     // Remove old metadata
     clear_metadata(file_buffer)?;
 
-    // Encode the data specifically for JPG
-    let mut encoded_metadata = encode_metadata_jpg(&metadata.encode()?);
-
     // Insert the metadata right after the signature
     crate::util::insert_multiple_at(file_buffer, 2, &mut encoded_metadata);
 
diff --git a/src/metadata/metadata_io.rs b/src/metadata/metadata_io.rs
index 3051daf..06bb2bf 100644
--- a/src/metadata/metadata_io.rs
+++ b/src/metadata/metadata_io.rs
@@ -389,7 +389,7 @@ Metadata
             FileExtension::PNG { as_zTXt_chunk } 
                 =>  png::as_u8_vec(&general_encoded_metadata, as_zTXt_chunk),
             FileExtension::JPEG 
-                =>  jpg::as_u8_vec(&general_encoded_metadata),
+                =>  jpg::as_u8_vec(&general_encoded_metadata)?,
             FileExtension::WEBP 
                  => webp::as_u8_vec(&general_encoded_metadata),
             FileExtension::HEIF 
-- 
2.43.0


From 46fa9beeedef937a240f41232d05428c93c50416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:51 +0000
Subject: [PATCH 05/41] fix: skip APP1 segments without EXIF identifier when
 reading JPEG metadata

---
 src/jpg.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/jpg.rs b/src/jpg.rs
index 16df52b..6b9086e 100644
--- a/src/jpg.rs
+++ b/src/jpg.rs
@@ -499,7 +499,11 @@ generic_read_metadata
                     let mut app1_buffer = vec![0u8; remaining_length];
                     cursor.read_exact(&mut app1_buffer)?;
 
-                    return Ok(app1_buffer);
+                    // Other data (e.g. XMP) is stored in APP1 segments as well
+                    if app1_buffer.starts_with(&EXIF_HEADER)
+                    {
+                        return Ok(app1_buffer);
+                    }
                 },
 
                 0xda => {                                                       // SOS marker
-- 
2.43.0


From 03881ad9a6b6486fa1f5b551d4286774519f02c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:19 +0000
Subject: [PATCH 06/41] fix: handle JXL boxes with open-ended, 64 bit, invalid
 or truncated lengths instead of looping or panicking

---
 src/jxl.rs | 296 +++++++++++++++++++++++++----------------------------
 1 file changed, 140 insertions(+), 156 deletions(-)

diff --git a/src/jxl.rs b/src/jxl.rs
index ee028e6..fc21961 100644
--- a/src/jxl.rs
+++ b/src/jxl.rs
@@ -1,7 +1,6 @@
 // Copyright © 2024-2026 Tobias J. Prisching <tobias.prisching@icloud.com> and CONTRIBUTORS
 // See https://github.com/TechnikTobi/little_exif#license for licensing details
 
-use std::fs::File;
 use std::io::Cursor;
 use std::io::Read;
 use std::io::Seek;
@@ -101,30 +100,6 @@ check_signature
     return Ok(());
 }
 
-fn
-file_check_signature
-(
-    path: &Path
-)
--> Result<File, std::io::Error>
-{
-    let mut file = open_write_file(path)?;
-
-    let mut signature_buffer = [0u8; 12];
-    let bytes_read = file.read(&mut signature_buffer)?;
-
-    if bytes_read != 12
-    {
-        return io_error!(InvalidData, "Can't open JXL file - Can't read signature!");
-    }
-
-    check_signature(&signature_buffer)?;
-
-    return Ok(file);
-}
-
-
-
 pub(crate) fn
 clear_metadata
 (
@@ -140,27 +115,22 @@ clear_metadata
     {
         if position >= file_buffer.len() { return Ok(()); }
 
-        // Get the first 4 bytes at the current cursor position to determine
-        // the length of the current box 
-        let length_buffer = file_buffer[position..position+4].to_vec();
-        let length        = from_u8_vec_res_macro!(u32, &length_buffer, &Endian::Big)? as usize;
+        // Read the length and type of the box at the current position
+        let mut cursor = Cursor::new(&*file_buffer);
+        cursor.set_position(position as u64);
+        let (type_buffer, content_length) = read_box_header(&mut cursor)?;
 
-        // Next, read the box type
-        let type_buffer = file_buffer[position+4..position+8].to_vec();
+        let contains_exif = box_contains_exif(&mut cursor, type_buffer, content_length)?;
+        let box_end       = cursor.position().saturating_add(content_length) as usize;
 
-        if box_contains_exif(
-            &mut Cursor::new(
-                file_buffer[position+8..position+12].to_vec()
-            ), 
-            [type_buffer[0], type_buffer[1], type_buffer[2], type_buffer[3]]
-        )?
+        if contains_exif
         {
-            range_remove(file_buffer, position, position+length);
+            range_remove(file_buffer, position, box_end);
         }
         else
         {
             // Not an EXIF box so skip it
-            position += length;
+            position = box_end;
         }
     }
 }
@@ -172,50 +142,115 @@ file_clear_metadata
 )
 -> Result<(), std::io::Error>
 {
-    let mut file = file_check_signature(path)?;
+    // Load the entire file into memory and remove the EXIF boxes there
+    let mut file_buffer: Vec<u8> = std::fs::read(path)?;
+    clear_metadata(&mut file_buffer)?;
+
+    // Write the file
+    let mut file = std::fs::OpenOptions::new().write(true).truncate(true).open(path)?;
+    file.write_all(&file_buffer)?;
+
+    return Ok(());
+}
+
 
+/// Reads the length and type fields of a box and leaves the cursor at the 
+/// start of the content of the box. 
+/// Returns the type of the box and the length of its content in bytes
+fn
+read_box_header
+<T: Seek + Read>
+(
+    cursor: &mut T
+)
+-> Result<([u8; 4], u64), std::io::Error>
+{
     let mut length_buffer = [0u8; 4];
-    let mut type_buffer   = [0u8; 4];
+    cursor.read_exact(&mut length_buffer)?;
+    let length = from_u8_vec_res_macro!(u32, &length_buffer, &Endian::Big)?;
 
-    loop
+    let mut type_buffer = [0u8; 4];
+    cursor.read_exact(&mut type_buffer)?;
+
+    let content_length = match length
     {
-        let position        = file.stream_position()?;
-        let old_file_length = file.metadata()?.len();
-        if position >= old_file_length { return Ok(()); }
+        // This box extends up to the end of the file
+        0 => remaining_length(cursor)?,
+
+        // The actual length is given by the 64 bit value that follows
+        1 => {
+            let mut large_length_buffer = [0u8; 8];
+            cursor.read_exact(&mut large_length_buffer)?;
+            u64::from_be_bytes(large_length_buffer).checked_sub(16).ok_or(
+                std::io::Error::new(
+                    std::io::ErrorKind::InvalidData,
+                    "Invalid box length found in JXL data!"
+                )
+            )?
+        },
+
+        _ => (length as u64).checked_sub(8).ok_or(
+            std::io::Error::new(
+                std::io::ErrorKind::InvalidData,
+                "Invalid box length found in JXL data!"
+            )
+        )?,
+    };
 
-        file.read_exact(&mut length_buffer)?;
-        file.read_exact(&mut type_buffer)?;
+    return Ok((type_buffer, content_length));
+}
 
-        let length = from_u8_vec_res_macro!(u32, &length_buffer, &Endian::Big)? as usize;
+/// Determines how many bytes are left from the current position onwards
+fn
+remaining_length
+<T: Seek + Read>
+(
+    cursor: &mut T
+)
+-> Result<u64, std::io::Error>
+{
+    let position = cursor.stream_position()?;
+    let end      = cursor.seek(SeekFrom::End(0))?;
+    cursor.seek(SeekFrom::Start(position))?;
 
-        if box_contains_exif(&mut file, type_buffer)?
-        {
-            // Seek past the EXIF box ...
-            file.seek(SeekFrom::Current((length-8) as i64))?;
+    return Ok(end.saturating_sub(position));
+}
 
+/// Skips the content of a box, given its length
+fn
+skip_box_content
+<T: Seek + Read>
+(
+    cursor:         &mut T,
+    content_length: u64
+)
+-> Result<(), std::io::Error>
+{
+    let position = cursor.stream_position()?;
+    cursor.seek(SeekFrom::Start(position.saturating_add(content_length)))?;
 
-            // ... copy everything from here onwards into a buffer ...
-            let mut buffer = Vec::new();
-            file.read_to_end(&mut buffer)?;
+    return Ok(());
+}
 
-            // ... seek back to the start of the EXIF box ...
-            file.seek(std::io::SeekFrom::Start(position))?;
+/// Reads the entire content of a box, given its length
+fn
+read_box_content
+<T: Seek + Read>
+(
+    cursor:         &mut T,
+    content_length: u64
+)
+-> Result<Vec<u8>, std::io::Error>
+{
+    if content_length > remaining_length(cursor)?
+    {
+        return io_error!(UnexpectedEof, "JXL box is longer than the remaining data!");
+    }
 
-            // ... overwrite everything from here onward ...
-            file.write_all(&buffer)?;
-            file.seek(std::io::SeekFrom::Start(position))?;
+    let mut content = vec![0u8; content_length as usize];
+    cursor.read_exact(&mut content)?;
 
-            // ... and finally update the file size - otherwise there will be
-            // duplicate bytes at the end!
-            file.set_len(old_file_length - length as u64)?;
-        }
-        else
-        {
-            // Not an EXIF box so skip it
-            assert_eq!(position+8, file.stream_position()?);
-            file.seek(SeekFrom::Current((length-8) as i64))?;
-        }
-    }
+    return Ok(content);
 }
 
 
@@ -244,8 +279,9 @@ fn
 box_contains_exif
 <T: Seek + Read>
 (
-    cursor:      &mut T,
-    type_buffer:  [u8; 4],
+    cursor:         &mut T,
+    type_buffer:    [u8; 4],
+    content_length: u64,
 )
 -> Result<bool, std::io::Error>
 {
@@ -253,7 +289,7 @@ box_contains_exif
     {
         return Ok(true);
     }
-    if type_buffer == BROB_BOX && check_brob_type_for_exif(cursor)?
+    if type_buffer == BROB_BOX && content_length >= 4 && check_brob_type_for_exif(cursor)?
     {
         return Ok(true);
     }
@@ -310,76 +346,36 @@ generic_read_metadata
 {
     loop
     {
-        // Get the first 4 bytes at the current cursor position to determine
-        // the length of the current box (and account for the 8 bytes of length
-        // and box type)
-        let mut length_buffer = [0u8; 4];
-        cursor.read_exact(&mut length_buffer)?;
-        let length = from_u8_vec_res_macro!(u32, &length_buffer, &Endian::Big)?.checked_sub(8).ok_or(
-            std::io::Error::new(
-                std::io::ErrorKind::InvalidData,
-                "Invalid box length found when reading JXL metadata!"
-            )
-        )?;
+        let (type_buffer, content_length) = read_box_header(cursor)?;
 
-        // Next, read the box type
-        let mut type_buffer = [0u8; 4];
-        cursor.read_exact(&mut type_buffer)?;
+        if !box_contains_exif(cursor, type_buffer, content_length)?
+        {
+            // Not an EXIF box so skip it
+            skip_box_content(cursor, content_length)?;
+            continue;
+        }
 
-        match type_buffer
+        let mut content = read_box_content(cursor, content_length)?;
+
+        if type_buffer == BROB_BOX // -> Brotli encoded data
         {
-            EXIF => {
-                // Skip the next 4 bytes (which contain the minor version???)
-                cursor.seek(SeekFrom::Current(4))?;
-
-                // `length-4` because of the previous relative seek operation
-                let mut exif_buffer = vec![0u8; (length-4) as usize];
-                cursor.read_exact(&mut exif_buffer)?;
-
-                return Ok(exif_buffer);
-            },
-
-            BROB_BOX => { // -> Brotli encoded data
-
-                let position = cursor.stream_position()? as usize;
-
-                if check_brob_type_for_exif(cursor)?
-                {
-                    // Skip the next 4 bytes (which contain the minor version???)
-                    cursor.seek(SeekFrom::Current(4))?;
-
-                    let mut compressed_exif_buffer = vec![
-                        0u8; 
-                        (length-4) as usize
-                    ];
-                    cursor.read_exact(&mut compressed_exif_buffer)?;
-                    
-                    let mut decompressed_exif_buffer = Vec::new();
-
-                    match brotli::BrotliDecompress(
-                        &mut Cursor::new(compressed_exif_buffer), 
-                        &mut decompressed_exif_buffer
-                    ) 
-                    {
-                        Ok(_)  => (),
-                        Err(e) => return Err(e)
-                    };
-
-                    // Ignore the next 4 bytes (I guess for the same reason 
-                    // as above - some sort of minor version?)
-                    return Ok(decompressed_exif_buffer[4..].to_vec());
-                }
-                else 
-                {
-                    cursor.seek(SeekFrom::Start(position as u64 + length as u64))?;
-                }
-            }
+            // Skip the first 4 bytes (which contain the type)
+            let compressed_exif_buffer = content.split_off(4);
+
+            content = Vec::new();
+            brotli::BrotliDecompress(
+                &mut Cursor::new(compressed_exif_buffer), 
+                &mut content
+            )?;
+        }
 
-            _ => {
-                // Not an EXIF box so skip it
-                cursor.seek(SeekFrom::Current(length as i64))?;
-            }
+        // Skip the first 4 bytes (which contain the minor version???)
+        if content.len() < 4
+        {
+            return io_error!(InvalidData, "JXL EXIF box is too short!");
         }
+
+        return Ok(content.split_off(4));
     }
 }
 
@@ -419,31 +415,19 @@ find_insert_position
 
     loop
     {
-        // Get the first 4 bytes at the current cursor position to determine
-        // the length of the current box (and account for the 8 bytes of length
-        // and box type)
-        let mut length_buffer = [0u8; 4];
-        cursor.read_exact(&mut length_buffer)?;
-        let length = from_u8_vec_res_macro!(u32, &length_buffer, &Endian::Big)?.checked_sub(8).ok_or(
-            std::io::Error::new(
-                std::io::ErrorKind::InvalidData,
-                "Invalid box length found when reading JXL metadata!"
-            )
-        )? as usize;
-
-        // Next, read the box type
-        let mut type_buffer = [0u8; 4];
-        cursor.read_exact(&mut type_buffer)?;
+        // Remember where this box starts & read its length and type
+        let box_start                     = cursor.position() as usize;
+        let (type_buffer, content_length) = read_box_header(&mut cursor)?;
 
         match type_buffer
         {
             IsoBmffBoxType::JXL |
             IsoBmffBoxType::FTYP => {
                 // Place exif box after these boxes
-                cursor.seek(SeekFrom::Current(length as i64))?;
+                skip_box_content(&mut cursor, content_length)?;
             }
             _ => {
-                return Ok(cursor.position() as usize - 8);
+                return Ok(box_start);
             }
         }
     }
-- 
2.43.0


From bcaa9be26f73897be512772c4eed65ba24642066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:40 +0000
Subject: [PATCH 07/41] fix: cut off stale trailing bytes when the new file
 content is shorter

---
 src/jpg.rs       |  3 +++
 src/jxl.rs       |  3 +++
 src/tiff/file.rs | 21 ++++++++++++++-------
 src/tiff/vec.rs  | 20 ++++++++++----------
 4 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/src/jpg.rs b/src/jpg.rs
index 6b9086e..1bc611c 100644
--- a/src/jpg.rs
+++ b/src/jpg.rs
@@ -359,6 +359,9 @@ file_write_metadata
     file.seek(SeekFrom::Start(0))?;
     file.write_all(&file_buffer)?;
 
+    // The new content may be shorter than the old one
+    file.set_len(file_buffer.len() as u64)?;
+
     return Ok(());
 }
 
diff --git a/src/jxl.rs b/src/jxl.rs
index fc21961..011ee83 100644
--- a/src/jxl.rs
+++ b/src/jxl.rs
@@ -497,5 +497,8 @@ file_write_metadata
     file.seek(SeekFrom::Start(0))?;
     file.write_all(&file_buffer)?;
 
+    // The new content may be shorter than the old one
+    file.set_len(file_buffer.len() as u64)?;
+
     return Ok(());
 }
\ No newline at end of file
diff --git a/src/tiff/file.rs b/src/tiff/file.rs
index 0066f7c..ed09ee9 100644
--- a/src/tiff/file.rs
+++ b/src/tiff/file.rs
@@ -2,7 +2,8 @@
 // See https://github.com/TechnikTobi/little_exif#license for licensing details
 
 use std::io::BufReader;
-use std::io::BufWriter;
+use std::io::Cursor;
+use std::io::Write;
 use std::path::Path;
 
 use crate::general_file_io::open_read_file;
@@ -37,10 +38,8 @@ clear_metadata
 	// Remove all IFDs that aren't required
 	data.reduce_to_a_minimum();
 
-	// Write the reduced data back to the backup cursor
-	generic_write_metadata(&mut BufWriter::new(open_write_file(path)?), &data)?;
-
-	return Ok(());
+	// Write the reduced data back to the file
+	return write_metadata(path, &data);
 }
 
 pub(crate) fn 
@@ -51,6 +50,14 @@ write_metadata
 )
 -> Result<(), std::io::Error>
 {
-	let mut buffered_file = BufWriter::new(open_write_file(path)?);
-	return generic_write_metadata(&mut buffered_file, metadata);
+	let mut cursor = Cursor::new(Vec::new());
+	generic_write_metadata(&mut cursor, metadata)?;
+
+	// Write the file and cut off what is left of its previous content in case
+	// that was longer
+	let mut file = open_write_file(path)?;
+	file.write_all(cursor.get_ref())?;
+	file.set_len(cursor.get_ref().len() as u64)?;
+
+	return Ok(());
 }
\ No newline at end of file
diff --git a/src/tiff/vec.rs b/src/tiff/vec.rs
index 09ac912..d3f758d 100644
--- a/src/tiff/vec.rs
+++ b/src/tiff/vec.rs
@@ -26,20 +26,15 @@ clear_metadata
 )
 -> Result<(), std::io::Error>
 {
-	// Create cursor
-	let mut cursor           = Cursor::new(file_buffer);
-	let     cursor_start_pos = cursor.position();
-
 	// Read in the data
-	let     raw_data = generic_read_metadata(&mut cursor);
+	let     raw_data = read_metadata(file_buffer);
 	let mut data     = Metadata::general_decoding_wrapper(raw_data)?;
 
 	// Remove all IFDs that aren't required
 	data.reduce_to_a_minimum();
 
-	// Write the reduced data back to the backup cursor
-	cursor.set_position(cursor_start_pos);
-	return generic_write_metadata(&mut cursor, &data);
+	// Write the reduced data back to the file buffer
+	return write_metadata(file_buffer, &data);
 }
 
 pub(crate) fn
@@ -50,6 +45,11 @@ write_metadata
 )
 -> Result<(), std::io::Error>
 {
-	let mut cursor = Cursor::new(file_buffer);
-	return generic_write_metadata(&mut cursor, metadata);
+	let mut cursor = Cursor::new(Vec::new());
+	generic_write_metadata(&mut cursor, metadata)?;
+
+	// Replaces the previous content entirely, even if that was longer
+	*file_buffer = cursor.into_inner();
+
+	return Ok(());
 }
\ No newline at end of file
-- 
2.43.0


From 64ecb20eccffb71670bed31994b0b502a274e737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:26 +0000
Subject: [PATCH 08/41] fix: return errors for malformed PNG text chunks
 instead of panicking or misplacing their data

---
 src/png/mod.rs  |  27 +-------
 src/png/text.rs | 171 ++++++++++++++++++++++++------------------------
 2 files changed, 88 insertions(+), 110 deletions(-)

diff --git a/src/png/mod.rs b/src/png/mod.rs
index 623f9ce..e64d93f 100644
--- a/src/png/mod.rs
+++ b/src/png/mod.rs
@@ -310,14 +310,7 @@ generic_read_metadata
 
                 // Check that this chunk contains raw profile EXIF data
                 let keyword = get_keyword_from_text_chunk(&chunk_data);
-                let mut has_raw_profile_type_exif = false;
-                if keyword.len() == RAW_PROFILE_TYPE_EXIF.len()
-                {
-                    has_raw_profile_type_exif = keyword
-                        .bytes()
-                        .zip(RAW_PROFILE_TYPE_EXIF.iter())
-                        .all(|(a,b)| a == *b);
-                }
+                let has_raw_profile_type_exif = keyword == RAW_PROFILE_TYPE_EXIF;
 
                 if !has_raw_profile_type_exif
                 {
@@ -422,24 +415,10 @@ clear_metadata
                 let keyword = get_keyword_from_text_chunk(&chunk_data);
 
                 // Compare to the "Raw profile type exif" string constant
-                let mut has_raw_profile_type_exif = false;
-                if keyword.len() == RAW_PROFILE_TYPE_EXIF.len()
-                {
-                    has_raw_profile_type_exif = keyword
-                        .bytes()
-                        .zip(RAW_PROFILE_TYPE_EXIF.iter())
-                        .all(|(a,b)| a == *b);
-                }
+                let has_raw_profile_type_exif = keyword == RAW_PROFILE_TYPE_EXIF;
 
                 // Compare to the "XML:com.adobe.xmp" string constant
-                let mut has_xml_com_adobe_xmp = false;
-                if keyword.len() == XML_COM_ADOBE_XMP.len()
-                {
-                    has_xml_com_adobe_xmp = keyword
-                        .bytes()
-                        .zip(XML_COM_ADOBE_XMP.iter())
-                        .all(|(a,b)| a == *b);
-                }
+                let has_xml_com_adobe_xmp = keyword == XML_COM_ADOBE_XMP;
 
                 if has_xml_com_adobe_xmp
                 {
diff --git a/src/png/text.rs b/src/png/text.rs
index ecbf03a..af8c946 100644
--- a/src/png/text.rs
+++ b/src/png/text.rs
@@ -9,12 +9,14 @@ use crate::general_file_io::io_error;
 /// This gets the keyword of a $TEXT chunk.
 /// Fortunately, this is the same for tEXt, zTXt and iTXt, as they all
 /// start with a keyword that is followed by a NUL separator.
+/// The keyword is returned as raw bytes, as its length (in the chunk) is 
+/// needed for determining where the data starts.
 pub(crate) fn
 get_keyword_from_text_chunk
 (
     chunk_data: &[u8]
 )
--> String
+-> Vec<u8>
 {
     let mut keyword_buffer = Vec::new();
     for character in chunk_data
@@ -22,7 +24,51 @@ get_keyword_from_text_chunk
         if *character == 0x00 { break; }
         keyword_buffer.push(*character);
     }
-    return String::from_utf8_lossy(&keyword_buffer).into_owned()
+    return keyword_buffer;
+}
+
+/// Gets everything from `data_start` onwards, if the chunk data is long enough
+fn
+get_remaining_data
+(
+    chunk_data: &[u8],
+    data_start: usize,
+)
+-> Result<&[u8], std::io::Error>
+{
+    if data_start > chunk_data.len()
+    {
+        return io_error!(InvalidData, "Text chunk is too short!");
+    }
+
+    return Ok(&chunk_data[data_start..]);
+}
+
+/// Checks the byte of a zTXt chunk that follows after the keyword and the NUL
+/// separator, telling us the compression method
+#[allow(non_snake_case)]
+fn
+check_zTXt_compression_method
+(
+    chunk_data:     &[u8],
+    keyword_length: usize,
+)
+-> Result<(), std::io::Error>
+{
+    if chunk_data.len() < keyword_length + 2
+    {
+        return io_error!(InvalidData, "zTXt chunk is too short!");
+    }
+
+    if chunk_data[keyword_length + 1] != 0x00
+    {
+        return io_error!(
+            Other,
+            "Unknown compression method for zTXt!"
+        );
+    }
+
+    return Ok(());
 }
 
 pub(crate) fn
@@ -44,7 +90,7 @@ get_data_from_text_chunk
             // For this we take the keyword length and add 1 for the NUL byte
             let data_start = keyword_length + 1;
             
-            return Ok(chunk_data[data_start..].to_vec());
+            return Ok(get_remaining_data(chunk_data, data_start)?.to_vec());
         },
 
         "zTXt" => {
@@ -54,17 +100,11 @@ get_data_from_text_chunk
             let data_start = keyword_length + 2;
 
             // Check compression method
-            if chunk_data[keyword_length + 1] != 0x00
-            {
-                return io_error!(
-                    Other,
-                    "Unknown compression method for zTXt!"
-                );
-            }
+            check_zTXt_compression_method(chunk_data, keyword_length)?;
 
             // Decode zlib data
             if let Ok(decompressed_data) = decompress_to_vec_zlib(
-                &chunk_data[data_start..]
+                get_remaining_data(chunk_data, data_start)?
             )
             {
                 return Ok(decompressed_data);
@@ -86,7 +126,7 @@ get_data_from_text_chunk
                 _keyword,
                 language_tag,
                 translated_keyword,
-            ) = get_info_about_iTXt_chunk(chunk_data);
+            ) = get_info_about_iTXt_chunk(chunk_data)?;
 
             let data_start = keyword_length // keyword
                 + 3                         // NUL, compression flag & method
@@ -98,7 +138,7 @@ get_data_from_text_chunk
             if compression_flag == 0x00
             {
                 // No compression, simply return the data
-                return Ok(chunk_data[data_start..].to_vec());
+                return Ok(get_remaining_data(chunk_data, data_start)?.to_vec());
             }
             
             if compression_method != 0x00
@@ -111,7 +151,7 @@ get_data_from_text_chunk
 
             // Decode zlib data
             if let Ok(decompressed_data) = decompress_to_vec_zlib(
-                &chunk_data[data_start..]
+                get_remaining_data(chunk_data, data_start)?
             )
             {
                 return Ok(decompressed_data);
@@ -146,9 +186,7 @@ construct_similar_with_new_data
 
     // The keyword and NUL will be needed in every cases:
     let     keyword        = get_keyword_from_text_chunk(old_chunk_data);
-    let mut new_chunk_data = keyword
-        .bytes()
-        .collect::<Vec<u8>>();
+    let mut new_chunk_data = keyword.clone();
     new_chunk_data.push(0x00);
 
     match chunk_name
@@ -159,13 +197,7 @@ construct_similar_with_new_data
 
         "zTXt" => {
             // Check compression method
-            if old_chunk_data[keyword.len() + 1] != 0x00
-            {
-                return io_error!(
-                    Other,
-                    "Unknown compression method for zTXt!"
-                );
-            }
+            check_zTXt_compression_method(old_chunk_data, keyword.len())?;
 
             new_chunk_data.extend(compress_to_vec_zlib(new_data, 8).iter());
         },
@@ -178,16 +210,16 @@ construct_similar_with_new_data
                 _keyword,
                 language_tag,
                 translated_keyword,
-            ) = get_info_about_iTXt_chunk(old_chunk_data);
+            ) = get_info_about_iTXt_chunk(old_chunk_data)?;
 
             // Push compression information
             new_chunk_data.push(compression_flag);
             new_chunk_data.push(compression_method);
 
             // Add the language tag and translated keyword
-            new_chunk_data.extend(language_tag.bytes());
+            new_chunk_data.extend(language_tag.iter());
             new_chunk_data.push(0x00);
-            new_chunk_data.extend(translated_keyword.bytes());
+            new_chunk_data.extend(translated_keyword.iter());
             new_chunk_data.push(0x00);
 
             // Check compression
@@ -237,74 +269,41 @@ get_info_about_iTXt_chunk
 (
     chunk_data:   &[u8]
 )
--> (
-    u8,     // compression flag
-    u8,     // compression method
-    String, // keyword
-    String, // language tag
-    String, // translated keyword
-)
+-> Result<(
+    u8,      // compression flag
+    u8,      // compression method
+    Vec<u8>, // keyword
+    Vec<u8>, // language tag
+    Vec<u8>, // translated keyword
+), std::io::Error>
 {
-    // Tells us where we currently are in the chunk data
-    let mut chunk_counter = 0;
-
-    // Buffers for the different attributes
-    let mut keyword_buffer = Vec::new();
+    // The keyword, its NUL separator and the compression information
+    let keyword       = get_keyword_from_text_chunk(chunk_data);
+    let chunk_counter = keyword.len();
 
-    loop
+    if chunk_data.len() < chunk_counter + 3
     {
-        if chunk_data[chunk_counter] != 0x00
-        {
-            keyword_buffer.push(chunk_data[chunk_counter]);
-            chunk_counter += 1;
-        }
-        else
-        {
-            break;
-        }
+        return io_error!(InvalidData, "iTXt chunk is too short!");
     }
 
-    let _null_separator_1  = chunk_data[chunk_counter + 0];
     let compression_flag   = chunk_data[chunk_counter + 1];
     let compression_method = chunk_data[chunk_counter + 2];
 
-    chunk_counter += 3;
-    let mut language_tag_buffer = Vec::new();
-
-    loop 
-    {
-        if chunk_data[chunk_counter] != 0x00
-        {
-            language_tag_buffer.push(chunk_data[chunk_counter]);
-            chunk_counter += 1;
-        }
-        else
-        {
-            break;
-        }
-    }
-
-    chunk_counter += 1;
-    let mut translated_keyword_buffer = Vec::new();
+    // The language tag and the translated keyword start with the same kind of
+    // NUL terminated string as the keyword
+    let language_tag = get_keyword_from_text_chunk(
+        get_remaining_data(chunk_data, chunk_counter + 3)?
+    );
 
-    loop 
-    {
-        if chunk_data[chunk_counter] != 0x00
-        {
-            translated_keyword_buffer.push(chunk_data[chunk_counter]);
-            chunk_counter += 1;
-        }
-        else
-        {
-            break;
-        }
-    }
+    let translated_keyword = get_keyword_from_text_chunk(
+        get_remaining_data(chunk_data, chunk_counter + 3 + language_tag.len() + 1)?
+    );
 
-    return (
+    return Ok((
         compression_flag,
         compression_method,
-        String::from_utf8(keyword_buffer           ).unwrap_or_default(),
-        String::from_utf8(language_tag_buffer      ).unwrap_or_default(),
-        String::from_utf8(translated_keyword_buffer).unwrap_or_default()
-    );
-}
\ No newline at end of file
+        keyword,
+        language_tag,
+        translated_keyword
+    ));
+}
-- 
2.43.0


From 4309cd39afdc6838a4b3f21c02d98a995c592476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:26 +0000
Subject: [PATCH 09/41] fix: keep the compression method byte when rewriting a
 zTXt chunk

---
 src/png/text.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/png/text.rs b/src/png/text.rs
index af8c946..d4e845c 100644
--- a/src/png/text.rs
+++ b/src/png/text.rs
@@ -199,6 +199,7 @@ construct_similar_with_new_data
             // Check compression method
             check_zTXt_compression_method(old_chunk_data, keyword.len())?;
 
+            new_chunk_data.push(0x00);
             new_chunk_data.extend(compress_to_vec_zlib(new_data, 8).iter());
         },
 
-- 
2.43.0


From fc65109b7aba9a6a41c6e2b56b3441042394d4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 10/41] fix: refuse PNG chunk names that aren't text and chunk
 lengths beyond the data before allocating

---
 src/png/read.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/png/read.rs b/src/png/read.rs
index 715c949..e76588d 100644
--- a/src/png/read.rs
+++ b/src/png/read.rs
@@ -35,8 +35,11 @@ read_chunk_name
 -> Result<String, std::io::Error>
 {
     let field = read_4_bytes(cursor)?;
-    let name  = String::from_utf8(field.to_vec()).unwrap_or_default();
-    return Ok(name);
+    return match String::from_utf8(field.to_vec())
+    {
+        Ok(name) => Ok(name),
+        Err(_)   => io_error!(InvalidData, "Invalid PNG chunk name!"),
+    };
 }
 
 /// Assumes the cursor to be positioned at the start of the chunk data
@@ -50,9 +53,12 @@ read_chunk_data
 )
 -> Result<Vec<u8>, std::io::Error>
 {
-    let mut chunk_data_buffer = vec![0u8; chunk_length];
-    let     bytes_read        = cursor.read(&mut chunk_data_buffer)?;
-    
+    // The length field can't be trusted, so don't allocate that much in advance
+    let mut chunk_data_buffer = Vec::new();
+    let     bytes_read        = cursor
+        .take(chunk_length as u64)
+        .read_to_end(&mut chunk_data_buffer)?;
+
     if bytes_read != chunk_length
     {
         return io_error!(Other, "Could not read chunk data");
-- 
2.43.0


From dd024a6092083224ba746e979a5af5efe1de352a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:18 +0000
Subject: [PATCH 11/41] fix: return errors for malformed raw profiles in PNG
 files instead of panicking

---
 src/png/mod.rs | 104 +++++++++++++++++++++----------------------------
 1 file changed, 45 insertions(+), 59 deletions(-)

diff --git a/src/png/mod.rs b/src/png/mod.rs
index e64d93f..29e3e28 100644
--- a/src/png/mod.rs
+++ b/src/png/mod.rs
@@ -716,6 +716,30 @@ encode_metadata_png
     return png_exif;
 }
 
+fn
+starts_with
+(
+    data:   &VecDeque<u8>,
+    prefix: &[u8]
+)
+-> bool
+{
+    if data.len() < prefix.len()
+    {
+        return false;
+    }
+
+    for i in 0..prefix.len()
+    {
+        if data[i] != prefix[i]
+        {
+            return false;
+        }
+    }
+
+    return true;
+}
+
 fn
 decode_metadata_png
 (
@@ -761,69 +785,25 @@ decode_metadata_png
         opt_other_byte = None;
     }
 
+    // A single digit left over does not represent a byte
+    if opt_other_byte.is_some()
+    {
+        return io_error!(Other, "Mangled PNG EXIF data encountered during decoding!");
+    }
+
     // Now remove the first element until the exif header or endian information 
     // is found.
     // Store the popped elements to get the size information
-    let mut exif_header_found = false;
-    let mut endian_info_found = false;
     let mut pop_storage: Vec<u8> = Vec::new();
 
-    while !exif_header_found && !endian_info_found
+    // But what if the EXIF_HEADER is missing and we are directly starting
+    // with the endian information? See issue #54
+    // And the same check for big endian
+    while 
+        !starts_with(&exif_all, &EXIF_HEADER)
+        && !starts_with(&exif_all, &LITTLE_ENDIAN_INFO)
+        && !starts_with(&exif_all, &BIG_ENDIAN_INFO)
     {
-        let mut counter = 0;
-        for header_value in &EXIF_HEADER
-        {
-            if *header_value != exif_all[counter]
-            {
-                break;
-            }
-            counter += 1;
-        }
-
-        exif_header_found = counter == EXIF_HEADER.len();
-
-        if exif_header_found
-        {
-            break;
-        }
-
-        counter = 0;
-
-        // But what if the EXIF_HEADER is missing and we are directly starting
-        // with the endian information? See issue #54
-        for endian_info in &LITTLE_ENDIAN_INFO
-        {
-            if *endian_info != exif_all[counter]
-            {
-                break;
-            }
-            counter += 1;
-        }
-
-        endian_info_found = counter == LITTLE_ENDIAN_INFO.len();
-
-        if endian_info_found
-        {
-            break;
-        }
-
-        // And the same check for big endian
-        for endian_info in &BIG_ENDIAN_INFO
-        {
-            if *endian_info != exif_all[counter]
-            {
-                break;
-            }
-            counter += 1;
-        }
-
-        endian_info_found = counter == BIG_ENDIAN_INFO.len();
-
-        if endian_info_found
-        {
-            break;
-        }
-
         if let Some(next_byte) = exif_all.pop_front()
         {
             pop_storage.push(next_byte);
@@ -843,7 +823,10 @@ decode_metadata_png
     //    that will now get extracted
     // Consider this part optional as it might be removed in the future and
     // isn't strictly necessary and just for validating the data we get
-    assert!(!pop_storage.is_empty());
+    if pop_storage.is_empty()
+    {
+        return io_error!(InvalidData, "Missing EXIF size info");
+    }
 
     // Using the encode_byte function re-encode the bytes regarding the size
     // information and construct its value using decimal based shifting
@@ -869,7 +852,10 @@ decode_metadata_png
         given_exif_len += ones_place *  1 * 10_u64.pow((2 * i) as u32);
     }
 
-    assert_eq!(given_exif_len, exif_all.len() as u64);
+    if given_exif_len != exif_all.len() as u64
+    {
+        return io_error!(InvalidData, "Wrong EXIF size info");
+    }
     // End optional part
 
     return Ok(Vec::from(exif_all));
-- 
2.43.0


From c7e4d8f052ee0e524a84b6ba9b7b2cd91e7a7345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:25 +0000
Subject: [PATCH 12/41] fix: refuse EXIF data whose size does not fit the PNG
 raw profile size field

---
 src/metadata/metadata_io.rs |  2 +-
 src/png/mod.rs              | 26 ++++++++++++++++----------
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/metadata/metadata_io.rs b/src/metadata/metadata_io.rs
index 06bb2bf..f927f00 100644
--- a/src/metadata/metadata_io.rs
+++ b/src/metadata/metadata_io.rs
@@ -387,7 +387,7 @@ Metadata
         Ok(match for_file_type
         {
             FileExtension::PNG { as_zTXt_chunk } 
-                =>  png::as_u8_vec(&general_encoded_metadata, as_zTXt_chunk),
+                =>  png::as_u8_vec(&general_encoded_metadata, as_zTXt_chunk)?,
             FileExtension::JPEG 
                 =>  jpg::as_u8_vec(&general_encoded_metadata)?,
             FileExtension::WEBP 
diff --git a/src/png/mod.rs b/src/png/mod.rs
index 29e3e28..bd68eed 100644
--- a/src/png/mod.rs
+++ b/src/png/mod.rs
@@ -652,7 +652,7 @@ generic_write_metadata
     }
 
     // Encode the data specifically for PNG and open the image file
-    let encoded_metadata = encode_metadata_png(&metadata.encode()?);
+    let encoded_metadata = encode_metadata_png(&metadata.encode()?)?;
     let seek_start = 0u64         // Skip ...
     + PNG_SIGNATURE.len() as u64  // PNG Signature
     + IHDR_length         as u64  // IHDR data section
@@ -676,18 +676,24 @@ encode_metadata_png
 (
     exif_vec: &Vec<u8>
 )
--> Vec<u8>
+-> Result<Vec<u8>, std::io::Error>
 {
     // The size of the EXIF data area, consists of
     // - length of EXIF header (follows after ssss)
     // - length of exif_vec
     // - 1 for ssss itself (why not 4? idk)
     let ssss = (
-        EXIF_HEADER.len() as u32 
-        + exif_vec.len()  as u32 
+        EXIF_HEADER.len()
+        + exif_vec.len()
         + 1
     ).to_string();
 
+    // The size field has a fixed width of 8 digits
+    if ssss.len() > 8
+    {
+        return io_error!(InvalidInput, "EXIF data too large for a PNG file!");
+    }
+
     // Construct final vector with the bytes as they will be sent to the encoder
     //                               \n       e     x     i     f     \n
     let mut png_exif: Vec<u8> = vec![NEWLINE, 0x65, 0x78, 0x69, 0x66, NEWLINE];
@@ -713,7 +719,7 @@ encode_metadata_png
     png_exif.push(0x30);
     png_exif.push(NEWLINE);
 
-    return png_exif;
+    return Ok(png_exif);
 }
 
 fn
@@ -870,19 +876,19 @@ as_u8_vec
     general_encoded_metadata: &Vec<u8>,
     as_zTXt_chunk:            bool
 )
--> Vec<u8>
+-> Result<Vec<u8>, std::io::Error>
 {
-    let basic_png_encode_result = encode_metadata_png(general_encoded_metadata);
+    let basic_png_encode_result = encode_metadata_png(general_encoded_metadata)?;
 
     if !as_zTXt_chunk
     {
-        return basic_png_encode_result;
+        return Ok(basic_png_encode_result);
     }
 
-    return construct_zTXt_chunk_data(
+    return Ok(construct_zTXt_chunk_data(
         &[0x7a, 0x54, 0x58, 0x74], 
         &basic_png_encode_result
-    );
+    ));
 }
 
 
-- 
2.43.0


From 9683eebb8d1dd2f0068832ac3b832ec048d8e3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:40 +0000
Subject: [PATCH 13/41] fix: Do not follow IFD links that form a cycle

---
 src/metadata/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/metadata/mod.rs b/src/metadata/mod.rs
index 4e5ef43..840c42c 100644
--- a/src/metadata/mod.rs
+++ b/src/metadata/mod.rs
@@ -7,6 +7,7 @@ pub mod edit;
 pub mod get;
 pub mod set;
 
+use std::collections::HashSet;
 use std::io::Cursor;
 use std::io::Read;
 use std::io::Seek;
@@ -304,8 +305,16 @@ Metadata
         // Decode all the IFDs
         let mut ifds = Vec::new();
         let mut generic_ifd_nr = 0;
+        let mut visited_offsets = HashSet::new();
         while let Some(ifd_offset) = ifd_offset_option
         {
+            // The links between the IFDs must not form a cycle
+            if !visited_offsets.insert(ifd_offset)
+            {
+                log::warn!("IFD at offset {ifd_offset} is linked more than once. Ignoring this link.");
+                break;
+            }
+
             data_cursor.set_position(data_start_position);
             data_cursor.seek(std::io::SeekFrom::Current(ifd_offset as i64))?;
 
-- 
2.43.0


From afab95808d2b660a9f3be8ad287867d0e30e945b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:43 +0000
Subject: [PATCH 14/41] fix: Decode each SubIFD only once

---
 src/ifd/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ifd/mod.rs b/src/ifd/mod.rs
index 72e6e7b..33ece02 100644
--- a/src/ifd/mod.rs
+++ b/src/ifd/mod.rs
@@ -258,6 +258,16 @@ ImageFileDirectory
             // If this is an IFD offset tag, perform a recursive call
             if let TagType::IFD_OFFSET(subifd_group) = tag.get_tag_type()
             {
+                // There can only be one SubIFD of each type for a generic IFD
+                if insert_into.iter().any(|ifd| 
+                    ifd.get_generic_ifd_nr() == generic_ifd_nr &&
+                    ifd.get_ifd_type()       == subifd_group
+                )
+                {
+                    log::warn!("SubIFD {subifd_group:?} is linked more than once. Ignoring this link.");
+                    continue;
+                }
+
                 // Compute the offset to the SubIFD and save the current position
                 let offset          = from_u8_vec_res_macro!(u32, &raw_data, endian)? as usize;
                 let backup_position = data_cursor.position();
-- 
2.43.0


From bbdf35a6cc860e20069e0ff41546a2e9701cd91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:46 +0000
Subject: [PATCH 15/41] fix: Return an error for unusable values instead of
 panicking while decoding

---
 src/exif_tag/decode.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/exif_tag/decode.rs b/src/exif_tag/decode.rs
index bdeb002..1c0c7a3 100644
--- a/src/exif_tag/decode.rs
+++ b/src/exif_tag/decode.rs
@@ -74,8 +74,11 @@ decode_tag_with_format_exceptions
 				let int8u_data  = int16u_data.clone().into_iter().map(|x| x as u8).collect::<Vec<u8>>();
 				for (element_u16, element_u8) in int16u_data.iter().zip(int8u_data.iter())
 				{
-					// Assert that the int16u data is within int8u range
-					assert_eq!(*element_u16, *element_u8 as u16);
+					// Check that the int16u data is within int8u range
+					if *element_u16 != *element_u8 as u16
+					{
+						return io_error!(InvalidData, format!("Value {} is too large for tag {:?}", element_u16, raw_tag));
+					}
 				}
 				return raw_tag.set_value_to_int8u_vec(int8u_data).map_err(
 					|e| io_error_plain!(Other, format!("Could not decode tag {:?}: {}", raw_tag, e))
@@ -94,13 +97,13 @@ decode_tag_with_format_exceptions
 					// So, we try to convert the string by taking its first
 					// character. If it is 0x00 or 0x30 ("0") we set it to 0,
 					// if it is 0x01 or 0x31 ("1") we set it to 1, and
-					// otherwise we panic and tell the user to open a ticket.
+					// otherwise we return an error and tell the user to open a
+					// ticket.
 
-					let first_char = raw_data[0];
-					let int8u_data = match first_char
+					let int8u_data = match raw_data.first()
 					{
-						0x00 | 0x30 => vec![0u8],
-						0x01 | 0x31 => vec![1u8],
+						Some(0x00 | 0x30) => vec![0u8],
+						Some(0x01 | 0x31) => vec![1u8],
 						_ => io_error!(InvalidData, "Problem while decoding GPSAltitudeRef. Please open a new issue for little_exif!")?
 					};
 
-- 
2.43.0


From 7a75fd9b8143247c76418be4594cce540c94870a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:07 +0000
Subject: [PATCH 16/41] fix: Check that data is available before allocating a
 buffer for it

---
 src/ifd/mod.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/ifd/mod.rs b/src/ifd/mod.rs
index 33ece02..57dc578 100644
--- a/src/ifd/mod.rs
+++ b/src/ifd/mod.rs
@@ -94,6 +94,26 @@ ImageFileDirectory
         self.tags.sort_by_key(|tag| tag.as_u16());
     }
 
+    /// Checks that at least `length` bytes follow at the current position of
+    /// the cursor, so that no buffer is allocated for data that can't be there
+    fn
+    check_data_available
+    (
+        data_cursor: &Cursor<&Vec<u8>>,
+        length:       u32
+    )
+    -> Result<(), std::io::Error>
+    {
+        let available = (data_cursor.get_ref().len() as u64).saturating_sub(data_cursor.position());
+
+        if length as u64 > available
+        {
+            return io_error!(UnexpectedEof, format!("Not enough data to decode tag! Required: {} Available: {}", length, available));
+        }
+
+        return Ok(());
+    }
+
     /// If everything goes Ok and there is enough data to unpack, this returns
     /// the offset to the next generic IFD that needs to be processed.
     pub(crate) fn
@@ -203,6 +223,7 @@ ImageFileDirectory
                 data_cursor.seek(std::io::SeekFrom::Current(hex_offset as i64))?;
 
                 // Read the raw data
+                Self::check_data_available(data_cursor, byte_count)?;
                 let mut raw_data_buffer = vec![0u8; byte_count as usize];
                 data_cursor.read_exact(&mut raw_data_buffer)?;
                 raw_data = raw_data_buffer.to_vec();
@@ -392,6 +413,7 @@ ImageFileDirectory
                     data_cursor.set_position(data_begin_position);
                     data_cursor.seek(std::io::SeekFrom::Current(*offset as i64))?;
 
+                    Self::check_data_available(data_cursor, *byte_count)?;
                     let mut data_buffer = vec![0u8; *byte_count as usize];
                     data_cursor.read_exact(&mut data_buffer)?;
                     strip_data.push(data_buffer);
@@ -427,11 +449,11 @@ ImageFileDirectory
 
                 if offset.len() == 1 && length.len() == 1
                 {
-                    let mut thumbnail_data = vec![0u8; length[0] as usize];
-
                     // Gather the data at the offset
                     data_cursor.set_position(data_begin_position);
                     data_cursor.seek(std::io::SeekFrom::Current(offset[0] as i64))?;
+                    Self::check_data_available(data_cursor, length[0])?;
+                    let mut thumbnail_data = vec![0u8; length[0] as usize];
                     data_cursor.read_exact(&mut thumbnail_data)?;
 
                     // Push ThumbnailOffset tag to tags vector
-- 
2.43.0


From 3d9ceb9112c0104659e563b7319e9cdb8a36905e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:54 +0000
Subject: [PATCH 17/41] fix: Sort the tags of a decoded IFD

---
 src/ifd/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ifd/mod.rs b/src/ifd/mod.rs
index 57dc578..c0103d5 100644
--- a/src/ifd/mod.rs
+++ b/src/ifd/mod.rs
@@ -477,6 +477,10 @@ ImageFileDirectory
         // At this point we are done with decoding the tags of this IFD and its
         // associated SubIFDs! 
 
+        // The entries of an IFD are expected to be sorted. This is not the case
+        // for every file and for the offset tags that have been pushed last.
+        tags.sort_by_key(|tag| tag.as_u16());
+
         // Put the current IFD into the given, referenced vector
         insert_into.push(ImageFileDirectory { 
             tags:                       tags, 
-- 
2.43.0


From 1c85a9ad2c7c3fbbc59d7ee0207969ce8fabd19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:18 +0000
Subject: [PATCH 18/41] fix: Write IFD entries in order and without stale IFD
 offset tags

---
 src/ifd/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ifd/mod.rs b/src/ifd/mod.rs
index c0103d5..1bdb5e9 100644
--- a/src/ifd/mod.rs
+++ b/src/ifd/mod.rs
@@ -529,7 +529,11 @@ ImageFileDirectory
 
         // Store all relevant tags (IFD tags + offset tags) in a temporary 
         // location and sort them there
+        // The offset tags that link to other IFDs only come from
+        // `ifds_with_offset_info_only`. In case there are also some in this 
+        // IFD (e.g. set by the user), these must not end up in the data.
         let mut all_relevant_tags = self.tags.clone();
+        all_relevant_tags.retain(|tag| !matches!(tag.get_tag_type(), TagType::IFD_OFFSET(_)));
         if let Some(ifd_with_offset_info_only) = ifds_with_offset_info_only
             .iter()
             .find(|ifd| 
@@ -539,6 +543,7 @@ ImageFileDirectory
         {
             all_relevant_tags.extend(ifd_with_offset_info_only.get_tags().iter().cloned());
         }
+        all_relevant_tags.sort_by_key(|tag| tag.as_u16());
 
         // Start writing this IFD by adding the number of entries
         let count_entries = all_relevant_tags.iter().filter(
-- 
2.43.0


From 2a1d4254cf12d60985e970b8d7f74c59c6f34841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:21 +0000
Subject: [PATCH 19/41] fix: Fill up the data of tags that have less components
 than announced

---
 src/ifd/mod.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/ifd/mod.rs b/src/ifd/mod.rs
index 1bdb5e9..4fb20dc 100644
--- a/src/ifd/mod.rs
+++ b/src/ifd/mod.rs
@@ -673,25 +673,19 @@ ImageFileDirectory
             let number_of_components: u32 = tag.number_of_components();
             encode_vec.extend(to_u8_vec_macro!(u32, &number_of_components, &data.get_endian()).iter());
 
-            // Optional string padding (i.e. string is shorter than it should be)
-            let mut string_padding: Vec<u8> = Vec::new();
-            if tag.is_string()
-            {
-                string_padding = vec![
-                    0x00; 
-                    number_of_components as usize - value.len()
-                ];
-            }
+            // Optional padding (i.e. there is less data than there should be, 
+            // e.g. for a tag with a predefined number of components but no data)
+            let byte_count: u32 = number_of_components * tag.format().bytes_per_component();
+            let padding = vec![0x00; (byte_count as usize).saturating_sub(value.len())];
 
             // Add offset or value /                                            4 bytes
             // Depending on the amount of data, either put it directly into
             // next 4 bytes or write an offset where the data can be found 
-            let byte_count: u32 = number_of_components * tag.format().bytes_per_component();
             if byte_count > 4
             {
                 encode_vec.extend(to_u8_vec_macro!(u32, current_offset, &data.get_endian()).iter());
                 ifd_offset_area.extend(value.iter());
-                ifd_offset_area.extend(string_padding.iter());
+                ifd_offset_area.extend(padding.iter());
 
                 *current_offset += byte_count;
 
@@ -705,7 +699,7 @@ ImageFileDirectory
                 let pre_length = encode_vec.len();
 
                 encode_vec.extend(value.iter());
-                encode_vec.extend(string_padding.iter());
+                encode_vec.extend(padding.iter());
 
                 let post_length = encode_vec.len();
 
-- 
2.43.0


From 522959ca39f104d59aed4754c7d5b76a9ab69b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:24 +0000
Subject: [PATCH 20/41] fix: Number of components of ThumbnailLength matches
 its data

---
 src/exif_tag/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exif_tag/mod.rs b/src/exif_tag/mod.rs
index d11f305..4b48434 100644
--- a/src/exif_tag/mod.rs
+++ b/src/exif_tag/mod.rs
@@ -404,7 +404,7 @@ macro_rules! build_tag_enum {
 					ExifTag::StripByteCounts(value,            ) => value.len() as u32,
 
 					ExifTag::ThumbnailOffset(    _, _          ) => 1,
-					ExifTag::ThumbnailLength(    _,            ) => 1,
+					ExifTag::ThumbnailLength(value,            ) => value.len() as u32,
 
 					ExifTag::UnknownINT8U(          value, _, _) => value.len() as u32,
 					ExifTag::UnknownSTRING(         value, _, _) => value.len() as u32 + 1,
-- 
2.43.0


From ab795d1fb51e7c4821835c1ebd320fab9adf7d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:40 +0000
Subject: [PATCH 21/41] fix: rational conversion overflows, wraps the sign of
 iR64 values and loses u32::MAX

---
 src/rational.rs | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/rational.rs b/src/rational.rs
index 870aeed..d41ea8e 100644
--- a/src/rational.rs
+++ b/src/rational.rs
@@ -83,10 +83,16 @@ f64_to_rational64s
 )
 -> iR64
 {
-    let best_approximation = f64_to_rational64u(real_number);
+    // The nominator has to fit into an i32 (which can be i32::MIN as well)
+    let max_nominator = if real_number < 0.0 
+        { i32::MIN.unsigned_abs() } 
+    else 
+        { i32::MAX as u32 };
+
+    let best_approximation = approximate_f64(real_number, max_nominator);
     return iR64 {
         nominator: if real_number < 0.0 
-            { 0-best_approximation.nominator as i32 } 
+            { (0 - best_approximation.nominator as i64) as i32 } 
         else 
             { best_approximation.nominator as i32 },
         denominator: best_approximation.denominator as i32
@@ -99,6 +105,19 @@ f64_to_rational64u
     real_number:     f64,
 )
 -> uR64
+{
+    approximate_f64(real_number, u32::MAX)
+}
+
+/// Approximates the absolute value of the given real number by a fraction
+/// whose nominator is at most `max_nominator`
+fn
+approximate_f64
+(
+    real_number:     f64,
+    max_nominator:   u32,
+)
+-> uR64
 {
     // Make sure that we are dealing with positive real numbers
     let real_number = real_number.abs();
@@ -110,9 +129,9 @@ f64_to_rational64u
     }
     
     // Check if real number is too large for us to handle
-    if real_number > u32::MAX as f64 - 0.5
+    if real_number > max_nominator as f64 - 0.5
     {
-        return uR64 { nominator: i32::MAX as u32, denominator: 1};
+        return uR64 { nominator: max_nominator, denominator: 1};
     }
 
     let mut reciprocal_residual     = real_number;
@@ -143,7 +162,7 @@ f64_to_rational64u
         if convergent.nominator > 0
         {
             n = std::cmp::min(
-                (u32::MAX - previous_convergent.nominator) / convergent.nominator, 
+                (max_nominator - previous_convergent.nominator) / convergent.nominator, 
                 n
             );	
         }
@@ -153,6 +172,9 @@ f64_to_rational64u
         let next_convergent = add_next_fraction_term(&(continued_fraction_term as u32), &convergent, &previous_convergent);
         previous_convergent = convergent;
         convergent          = next_convergent;
+
+        // The limit only applies to the convergent it has been computed for
+        n = 0;
     }
 
     let mut best_approximation = convergent.clone();
-- 
2.43.0


From 2d3d99c8383fc8e25bb54e18ecfdea3714e36c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:18 +0000
Subject: [PATCH 22/41] fix: WebP chunk size near 4 GiB overflows, and memory
 is allocated for data that is not there

---
 src/webp/vec.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/webp/vec.rs b/src/webp/vec.rs
index 129bcf9..79ca978 100644
--- a/src/webp/vec.rs
+++ b/src/webp/vec.rs
@@ -67,11 +67,20 @@ get_next_chunk
 
     // Construct name of chunk and its length
     let chunk_name = String::from_utf8(chunk_start[0..4].to_vec());
-    let mut chunk_length = from_u8_vec_res_macro!(u32, &chunk_start[4..8], &Endian::Little)?;
+    let mut chunk_length = from_u8_vec_res_macro!(u32, &chunk_start[4..8], &Endian::Little)? as u64;
 
     // Account for the possible padding byte
     chunk_length += chunk_length % 2;
 
+    // Don't allocate memory for more data than there is
+    if chunk_length > cursor.get_ref().len() as u64 - cursor.position()
+    {
+        return io_error!(
+            Other, 
+            format!("Could not read RIFF chunk data! Expected {chunk_length} bytes but there are fewer left")
+        );
+    }
+
     // Read RIFF chunk data
     let mut chunk_data_buffer = vec![0u8; chunk_length as usize];
     bytes_read = cursor.read(&mut chunk_data_buffer)?;
-- 
2.43.0


From d9ef608932174a68ca856e1c6925c029b974455f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:21 +0000
Subject: [PATCH 23/41] fix: WebP file size update asserts instead of reporting
 a size that does not fit

---
 src/webp/vec.rs | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/webp/vec.rs b/src/webp/vec.rs
index 79ca978..1d73b3a 100644
--- a/src/webp/vec.rs
+++ b/src/webp/vec.rs
@@ -353,28 +353,24 @@ fn
 update_file_size_information
 (
     cursor: &mut Cursor<&mut Vec<u8>>,
-    delta:  i32
+    delta:  i64
 )
 -> Result<(), std::io::Error>
 {
-    // Note from the documentation:
-    // As the size of any chunk is even, the size given by the RIFF header is also even.
-
     // Update the file size information, first by reading in the current value...
     let file_size_buffer = cursor.get_ref()[4..8].to_vec();
 
     // ...converting it to u32 representation...
     let old_file_size = from_u8_vec_res_macro!(u32, &file_size_buffer, &Endian::Little)?;
 
-    // ...adding the delta byte count (and performing some checks)...
-    if delta < 0
+    // ...adding the delta byte count (and checking that the result fits)...
+    let new_file_size = old_file_size as i64 + delta;
+
+    if new_file_size < 0 || new_file_size > u32::MAX as i64
     {
-        assert!(old_file_size as i32 > delta);
+        return io_error!(InvalidData, "New file size does not fit into the RIFF header!");
     }
-    let new_file_size = (old_file_size as i32 + delta) as u32;
-
-    assert!(old_file_size % 2 == 0);
-    assert!(new_file_size % 2 == 0);
+    let new_file_size = new_file_size as u32;
 
     // ...and writing back to file...
     cursor.set_position(4);
@@ -549,7 +545,7 @@ clear_metadata
     };
 
     // Compute a delta of how much the file size information has to change
-    let mut delta = 0i32;
+    let mut delta = 0i64;
 
     // Skip the WEBP signature
     cursor.set_position(4);
@@ -581,7 +577,7 @@ clear_metadata
 
         // Additionally, update the size information that gets written to the 
         // file header after this loop
-        delta -= parsed_chunk_byte_count as i32;
+        delta -= parsed_chunk_byte_count as i64;
     }
 
     // Update file size information
@@ -612,7 +608,7 @@ write_metadata
 
     // Encode the general metadata format to WebP specifications
     let mut encoded_metadata = encode_metadata_webp(&metadata.encode()?);
-    let encoded_metadata_len = encoded_metadata.len() as i32;
+    let encoded_metadata_len = encoded_metadata.len() as i64;
 
     // Find a location where to put the EXIF chunk
     // This is done by requesting a chunk descriptor as long as we find a chunk
-- 
2.43.0


From 9873d3d003a3f2f8da555f5f87f3aa61accd5e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:23 +0000
Subject: [PATCH 24/41] fix: Clearing WebP looks at the wrong offset, trusts
 the EXIF flag and fails on simple files

---
 src/webp/vec.rs | 61 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 24 deletions(-)

diff --git a/src/webp/vec.rs b/src/webp/vec.rs
index 1d73b3a..0c987c1 100644
--- a/src/webp/vec.rs
+++ b/src/webp/vec.rs
@@ -490,6 +490,10 @@ set_exif_flag
         {
             convert_to_extended_format(cursor)?;
         }
+        else if first_chunk.len() < 4
+        {
+            return io_error!(Other, "Could not read flags of VP8X chunk!");
+        }
     }
     else
     {
@@ -521,34 +525,40 @@ clear_metadata
 )
 -> Result<(), std::io::Error>
 {
-    // Check the file signature, parse it, check that it has a VP8X chunk and
-    // the EXIF flag is set there
-    let (mut cursor, parse_webp_result) = match check_exif_in_file(file_buffer) 
+    // Check the file signature and parse it
+    let parse_webp_result = parse_webp(file_buffer)?;
+
+    // Only the Extended File Format has a VP8X chunk with an EXIF flag. As
+    // that flag may be wrong (and a Simple File Format WebP has none), any
+    // EXIF chunks have to be removed regardless of it
+    let is_extended = match parse_webp_result.first()
     {
-        Ok((_file, parse_webp_result)) => (
-            Cursor::new(file_buffer), 
-            parse_webp_result
-        ),
-        Err(e) => {
-            match e.to_string().as_str()
-            {
-                "No EXIF chunk according to VP8X flags!"
-                    => return Ok(()),
-                "Expected first chunk of WebP file to be of type 'VP8X' but instead got VP8L!"
-                    => return Ok(()),
-                "Expected first chunk of WebP file to be of type 'VP8X' but instead got VP8 !"
-                    => return Ok(()),
-                _
-                    => return Err(e)
-            }
-        }
+        Some(first_chunk) => match first_chunk.header().as_str()
+        {
+            "VP8 " | "VP8L"
+                => false,
+            _
+                => {
+                    if first_chunk.header().to_lowercase() != VP8X_HEADER.to_lowercase()
+                    {
+                        return io_error!(
+                            Other, 
+                            format!("Expected first chunk of WebP file to be of type 'VP8X' but instead got {}!", first_chunk.header())
+                        );
+                    }
+                    true
+                },
+        },
+        None => return io_error!(Other, "Could not read first chunk descriptor of WebP file!"),
     };
 
+    let mut cursor = Cursor::new(file_buffer);
+
     // Compute a delta of how much the file size information has to change
     let mut delta = 0i64;
 
-    // Skip the WEBP signature
-    cursor.set_position(4);
+    // Skip the RIFF signature, the file size and the WEBP signature
+    cursor.set_position(12);
 
     for parsed_chunk in parse_webp_result
     {
@@ -583,8 +593,11 @@ clear_metadata
     // Update file size information
     update_file_size_information(&mut cursor, delta)?;
     
-    // Set the flags in the VP8X chunk. First, read in the current flags
-    set_exif_flag(&mut cursor, false)?;
+    // Set the flags in the VP8X chunk, if there is one
+    if is_extended
+    {
+        set_exif_flag(&mut cursor, false)?;
+    }
 
     return Ok(());
 }
-- 
2.43.0


From bb0f2e3f2726339ed1e9cf33f52364381e3cc358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:26 +0000
Subject: [PATCH 25/41] fix: WebP dimensions of VP8L are swapped, of VP8
 unimplemented for buffers, and short chunks panic

---
 src/webp/mod.rs | 10 ++++++++++
 src/webp/vec.rs | 14 ++++++++------
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/webp/mod.rs b/src/webp/mod.rs
index 287a269..9abbbb0 100644
--- a/src/webp/mod.rs
+++ b/src/webp/mod.rs
@@ -155,6 +155,11 @@ get_dimension_info_from_vp8_chunk
     // VP8 Data Format https://datatracker.ietf.org/doc/html/rfc6386#section-9.1
     // Parsing function function vp8_parse_frame_header: https://datatracker.ietf.org/doc/html/rfc6386#section-20.4
 
+    if payload.len() < 10
+    {
+        return io_error!(Other, "VP8 chunk too small to contain the image dimensions!");
+    }
+
     let header_magic = payload[3..=5].to_vec();
     if 
         header_magic.len() != 3 || 
@@ -174,5 +179,10 @@ get_dimension_info_from_vp8_chunk
     let width  = width_info  & bitmask_14;
     let height = height_info & bitmask_14;
 
+    if width == 0 || height == 0
+    {
+        return io_error!(Other, "VP8 chunk has invalid image dimensions!");
+    }
+
     return Ok((width as u32 -1, height as u32 -1));
 }
\ No newline at end of file
diff --git a/src/webp/vec.rs b/src/webp/vec.rs
index 0c987c1..e5ec9cd 100644
--- a/src/webp/vec.rs
+++ b/src/webp/vec.rs
@@ -402,7 +402,7 @@ convert_to_extended_format
     let (width, height) = match first_chunk.descriptor().header().as_str()
     {
         "VP8 "
-            => {log::debug!("VP8 !"); io_error!(Other, "Conversion from Simple File Format with 'VP8' chunk to Extended File Format not yet implemented!") },
+            => get_dimension_info_from_vp8_chunk(first_chunk.payload()),
         "VP8L"
             => get_dimension_info_from_vp8l_chunk(first_chunk.payload()),
         _ 
@@ -444,24 +444,26 @@ get_dimension_info_from_vp8l_chunk
     // (although we only need 28 bits)
     // Starting at byte 1 instead of 0 due to the 0x2F byte
     // See: https://developers.google.com/speed/webp/docs/webp_lossless_bitstream_specification#3_riff_header
-    let width_height_info_buffer = payload[1..5].to_vec();
+    let Some(width_height_info_buffer) = payload.get(1..5) else {
+        return io_error!(Other, "VP8L chunk too small to contain the image dimensions!");
+    };
     
     // Convert to a single u32 number for bit-mask operations
-    let width_height_info = from_u8_vec_res_macro!(u32, &width_height_info_buffer, &Endian::Little)?;
+    let width_height_info = from_u8_vec_res_macro!(u32, width_height_info_buffer, &Endian::Little)?;
     
     let mut width  = 0;
     let mut height = 0;
 
-    // Get the first 14 bit to construct the width
+    // Get the first 14 bit (the least significant ones) to construct the width
     for bit_index in 0..14
     {
-        width  |= ((width_height_info >> (27 - bit_index)) & 0x01) << (13 - (bit_index % 14));
+        width  |= ((width_height_info >> bit_index) & 0x01) << (bit_index % 14);
     }
 
     // Get the next 14 bit to construct the height
     for bit_index in 14..28
     {
-        height |= ((width_height_info >> (27 - bit_index)) & 0x01) << (13 - (bit_index % 14));
+        height |= ((width_height_info >> bit_index) & 0x01) << (bit_index % 14);
     }
 
     return Ok((width, height));
-- 
2.43.0


From f348a2e2611c3435b37eb793b5f68f21eda59307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:29 +0000
Subject: [PATCH 26/41] fix: WebP EXIF chunk is placed before or inside chunks
 it has to follow

---
 src/webp/vec.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/webp/vec.rs b/src/webp/vec.rs
index e5ec9cd..47a8598 100644
--- a/src/webp/vec.rs
+++ b/src/webp/vec.rs
@@ -630,10 +630,12 @@ write_metadata
     // that is both known and should be located *before* the EXIF chunk
     let pre_exif_chunks = [
         "VP8X",
-        "VP8",
+        "VP8 ",
         "VP8L",
         "ICCP",
-        "ANIM"
+        "ALPH",
+        "ANIM",
+        "ANMF"
     ];
 
     // Clippy wrongly needs this allowance, otherwise it states that this call
@@ -645,8 +647,17 @@ write_metadata
     #[allow(clippy::useless_asref)]
     let mut read_cursor = Cursor::new(file_buffer.as_ref());
 
+    // Skip the RIFF signature, the file size and the WEBP signature
+    read_cursor.set_position(12);
+
+    let mut insert_position;
+
     loop
     {
+        // If the next chunk is not located before the EXIF chunk, then this
+        // is the place for the EXIF chunk
+        insert_position = read_cursor.position() as usize;
+
         // Request a chunk descriptor. If this fails, check the error 
         // Depending on its type, either continue normally or return it
         let chunk_descriptor_result = get_next_chunk_descriptor(&mut read_cursor);
@@ -681,7 +692,7 @@ write_metadata
     }
 
     // Write the EXIF chunk at the found location
-    insert_multiple_at(file_buffer, read_cursor.position() as usize, &mut encoded_metadata);
+    insert_multiple_at(file_buffer, insert_position, &mut encoded_metadata);
 
     // Update the file size information by adding the byte count of the EXIF chunk
     // (Note: Due to  the WebP specific encoding function, this vector already
-- 
2.43.0


From ab38f1c09b042261ef6e3b614f59fcd59ab2e247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:31 +0000
Subject: [PATCH 27/41] fix: WebP file functions differ from the buffer
 functions and destroy the file on error

---
 src/webp/file.rs | 705 +----------------------------------------------
 src/webp/mod.rs  |  12 +-
 src/webp/vec.rs  |   6 +-
 3 files changed, 18 insertions(+), 705 deletions(-)

diff --git a/src/webp/file.rs b/src/webp/file.rs
index 371c678..ff61c02 100644
--- a/src/webp/file.rs
+++ b/src/webp/file.rs
@@ -1,258 +1,9 @@
 // Copyright © 2024-2026 Tobias J. Prisching <tobias.prisching@icloud.com> and CONTRIBUTORS
 // See https://github.com/TechnikTobi/little_exif#license for licensing details
 
-use std::fs::File;
-use std::io::Read;
-use std::io::Write;
-use std::io::Seek;
-use std::io::SeekFrom;
 use std::path::Path;
 
-use crate::endian::*;
 use crate::metadata::Metadata;
-use crate::u8conversion::*;
-use crate::general_file_io::*;
-use super::riff_chunk::RiffChunk;
-use super::riff_chunk::RiffChunkDescriptor;
-use super::*;
-
-/// A WebP file starts as follows
-/// - The RIFF signature: ASCII characters "R", "I", "F", "F"  -> 4 bytes
-/// - The file size starting at offset 8                       -> 4 bytes
-/// - The WEBP signature: ASCII characters "W", "E", "B", "P"  -> 4 bytes
-/// 
-/// This function checks these 3 sections and their correctness after making
-/// sure that the file actually exists and can be opened. 
-/// Finally, the file struct is returned for further processing
-fn
-check_signature
-(
-    path: &Path
-)
--> Result<File, std::io::Error>
-{
-    let mut file = open_write_file(path)?;
-
-    // Get the first 12 bytes that are required for the following checks
-    let mut first_12_bytes = [0u8; 12];
-    let     bytes_read     = file.read(&mut first_12_bytes)?;
-
-    if bytes_read != 12
-    {
-        return io_error!(InvalidData, "Can't open WebP file - Can't read & check signature!");
-    }
-
-    let first_12_bytes_vec = first_12_bytes.to_vec();
-    
-    // Perform checks
-    check_riff_signature(&first_12_bytes_vec             )?;
-    check_byte_count(    &first_12_bytes_vec, Some(&file))?;
-    check_webp_signature(&first_12_bytes_vec             )?;
-
-    // Signature is valid - can proceed using the file as WebP file
-    return Ok(file);
-}
-
-
-
-/// Gets the next RIFF chunk, starting at the current file cursor
-/// Advances the cursor to the start of the next chunk
-fn
-get_next_chunk
-<T: Seek + Read>
-(
-    file: &mut T
-)
--> Result<RiffChunk, std::io::Error>
-{
-    // Read the start of the chunk
-    let mut chunk_start = [0u8; 8];
-    let mut bytes_read = file.read(&mut chunk_start)?;
-
-    // Check that indeed 8 bytes were read
-    if bytes_read != 8
-    {
-        return io_error!(UnexpectedEof, "Could not read start of chunk");
-    }
-
-    // Construct name of chunk and its length
-    let chunk_name = String::from_utf8(chunk_start[0..4].to_vec());
-    let mut chunk_length = from_u8_vec_res_macro!(u32, &chunk_start[4..8], &Endian::Little)?;
-
-    // Account for the possible padding byte
-    chunk_length += chunk_length % 2;
-
-    // Read RIFF chunk data
-    let mut chunk_data_buffer = vec![0u8; chunk_length as usize];
-    bytes_read = file.read(&mut chunk_data_buffer)?;
-    if bytes_read != chunk_length as usize
-    {
-        return io_error!(
-            Other, 
-            format!("Could not read RIFF chunk data! Expected {chunk_length} bytes but read {bytes_read}")
-        );
-    }
-
-    if let Ok(parsed_chunk_name) = chunk_name
-    {
-        return Ok(RiffChunk::new(
-            parsed_chunk_name as String, 
-            chunk_length      as usize,
-            chunk_data_buffer as Vec<u8>
-        ));
-    }
-    else
-    {
-        return io_error!(Other, "Could not parse RIFF fourCC chunk name!");
-    }
-}
-
-
-
-/// Gets a descriptor of the next RIFF chunk, starting at the current file
-/// cursor position. Advances the cursor to the start of the next chunk
-/// Relies on `get_next_chunk` by basically calling that function and throwing
-/// away the actual payload
-fn
-get_next_chunk_descriptor
-<T: Seek + Read>
-(
-    file: &mut T
-)
--> Result<RiffChunkDescriptor, std::io::Error>
-{
-    let next_chunk_result = get_next_chunk(file)?;
-    return Ok(next_chunk_result.descriptor());
-}
-
-
-
-/// "Parses" the WebP file by checking various properties:
-/// - Can the file be opened and is the signature valid, including the file size?
-/// - Are the chunks and their size descriptions OK? Relies on the local subroutine `get_next_chunk_descriptor`
-pub(crate) fn
-parse_webp
-(
-    path: &Path
-)
--> Result<Vec<RiffChunkDescriptor>, std::io::Error>
-{
-    let mut file   = check_signature(path)?;
-    let mut chunks = Vec::new();
-
-    // The amount of data we expect to read while parsing the chunks
-    let expected_length = file.metadata()?.len();
-
-    // How much data we have parsed so far.
-    // Starts with 12 bytes: 
-    // - 4 bytes for RIFF signature
-    // - 4 bytes for file size
-    // - 4 bytes for WEBP signature
-    // These bytes are already read in by the `check_signature` subroutine
-    let mut parsed_length = 12u64;
-
-    loop
-    {
-        let next_chunk_descriptor_result = get_next_chunk_descriptor(&mut file);
-        if let Ok(chunk_descriptor) = next_chunk_descriptor_result
-        {
-            // The parsed length increases by the length of the chunk's 
-            // header (4 byte) + it's size section (4 byte) and the payload
-            // size, which is noted by the aforementioned size section
-            parsed_length += 4u64 + 4u64 + chunk_descriptor.len() as u64;
-
-            // Add the chunk descriptor
-            chunks.push(chunk_descriptor);
-            
-            if parsed_length == expected_length
-            {
-                // In this case we don't expect any more data to be in the file
-                break;
-            }
-        }
-        else
-        {
-            // This is the case when the read of the next chunk descriptor 
-            // fails due to not being able to fetch 8 bytes for the header and
-            // chunk size information, indicating that there is no further data
-            // in the file and we are done with parsing.
-            // If the subroutine fails due to other reasons, the error gets
-            // propagated further.
-            if let Err(e) = next_chunk_descriptor_result
-            {
-                if e.kind() == std::io::ErrorKind::UnexpectedEof
-                {
-                    break;
-                }
-                else
-                {
-                    return Err(e);
-                }
-            }
-        }
-    }
-
-    return Ok(chunks);
-}
-
-
-
-fn
-check_exif_in_file
-(
-    path: &Path
-)
--> Result<(File, Vec<RiffChunkDescriptor>), std::io::Error>
-{
-    // Parse the WebP file - if this fails, we surely can't read any metadata
-    let parsed_webp_result = parse_webp(path)?;
-
-    // Next, check if this is an Extended File Format WebP file
-    // In this case, the first Chunk SHOULD have the type "VP8X"
-    // Otherwise, the file is either invalid ("VP8X" at wrong location) or a 
-    // Simple File Format WebP file which don't contain any EXIF metadata.
-    if let Some(first_chunk) = parsed_webp_result.first()
-    {
-        // Compare the chunk descriptor header.
-        if first_chunk.header().to_lowercase() != VP8X_HEADER.to_lowercase()
-        {
-            return io_error!(
-                Other, 
-                format!("Expected first chunk of WebP file to be of type 'VP8X' but instead got {}!", first_chunk.header())
-            );
-        }
-    }
-    else
-    {
-        return io_error!(Other, "Could not read first chunk descriptor of WebP file!");
-    }
-
-    // Finally, check the flag by opening up the file and reading the data of
-    // the VP8X chunk
-    // Regarding the seek:
-    // - RIFF + file size + WEBP -> 12 byte
-    // - VP8X header             ->  4 byte
-    // - VP8X chunk size         ->  4 byte
-    let mut file = check_signature(path)?;
-    let mut flag_buffer = vec![0u8; 4usize];
-    file.seek(SeekFrom::Start(12u64 + 4u64 + 4u64))?;
-    if file.read(&mut flag_buffer)? != 4
-    {
-        return io_error!(Other, "Could not read flags of VP8X chunk!");
-    }
-
-    // Check the 5th bit of the 32 bit flag_buffer. 
-    // For further details see the Extended File Format section at
-    // https://developers.google.com/speed/webp/docs/riff_container#extended_file_format
-    if flag_buffer[0] & 0x08 != 0x08
-    {
-        return io_error!(Other, "No EXIF chunk according to VP8X flags!");
-    }
-
-    return Ok((file, parsed_webp_result));
-}
-
-
 
 /// Reads the raw EXIF data from the WebP file. Note that if the file contains
 /// multiple such chunks, the first one is returned and the others get ignored.
@@ -263,294 +14,9 @@ read_metadata
 )
 -> Result<Vec<u8>, std::io::Error>
 {
-    // Check the file signature, parse it, check that it has a VP8X chunk and
-    // the EXIF flag is set there
-    let (mut file, parse_webp_result) = check_exif_in_file(path)?;
-
-    // At this point we have established that the file has to contain an EXIF
-    // chunk at some point. So, now we need to find & return it
-    // Start by seeking to the start of the first chunk and visiting chunk after
-    // chunk via checking the type and seeking again to the next chunk via the
-    // size information
-    file.seek(SeekFrom::Start(12u64))?;
-    let mut header_buffer = vec![0u8; 4usize];
-    let mut chunk_index = 0usize;
-    loop
-    {
-        // Read the chunk type into the buffer
-        if file.read(&mut header_buffer)? != 4
-        {
-            return io_error!(Other, "Could not read chunk type while traversing WebP file!");
-        }
-        let chunk_type = String::from_u8_vec(&header_buffer.to_vec(), &Endian::Little);
-
-        // Check that this is still the type that we expect from the previous
-        // parsing over the file
-        // TODO: Maybe remove this part?
-        let Some(chunk_at_index) = parse_webp_result.get(chunk_index) else
-        {
-            return io_error!(
-                Other, 
-                format!("Could not get chunk descriptor at index {} while traversing WebP file!", chunk_index)
-            );
-        }; 
-
-        let expected_chunk_type = chunk_at_index.header();
-        if chunk_type != expected_chunk_type
-        {
-            return io_error!(
-                Other, 
-                format!("Got unexpected chunk type! Expected {} but got {}", 
-                    expected_chunk_type, 
-                    chunk_type
-                )
-            );
-        }
-
-        // Get the size of this chunk from the previous parsing process and skip
-        // the 4 bytes regarding the size
-        let chunk_size = chunk_at_index.len();
-        file.seek(std::io::SeekFrom::Current(4))?;
-
-        if chunk_type.to_lowercase() == EXIF_CHUNK_HEADER.to_lowercase()
-        {
-            // Read the EXIF chunk's data into a buffer
-            let mut payload_buffer = vec![0u8; chunk_size];
-            let     bytes_read     = file.read(&mut payload_buffer)?;
-
-            if bytes_read != chunk_size
-            {
-                return io_error!(
-                    Other, 
-                    format!("Could not read entire EXIF chunk data! Expected {chunk_size} bytes but read {bytes_read}")
-                );
-            }
+    let file_buffer: Vec<u8> = std::fs::read(path)?;
 
-            // Add the 6 bytes of the EXIF_HEADER as Prefix for the generic EXIF
-            // data parser that is called on the result of this read function
-            // Otherwise the result would directly start with the Endianness
-            // information, leading to a failed EXIF header signature check in 
-            // the function `decode_metadata_general`
-            let mut raw_exif_data = EXIF_HEADER.to_vec();
-            raw_exif_data.append(&mut payload_buffer);
-
-            return Ok(raw_exif_data);
-        }
-        else
-        {
-            // Skip the entire chunk
-            file.seek(std::io::SeekFrom::Current(chunk_size as i64))?;
-
-            // Note that we have to seek another byte in case the chunk is of 
-            // uneven size to account for the padding byte that must be included
-            file.seek(std::io::SeekFrom::Current(chunk_size as i64 % 2))?;
-        }
-
-        // Update for next loop iteration
-        chunk_index += 1;
-    }
-}
-
-
-
-fn
-update_file_size_information
-(
-    file:  &mut File,
-    delta: i32
-)
--> Result<(), std::io::Error>
-{
-    // Note from the documentation:
-    // As the size of any chunk is even, the size given by the RIFF header is also even.
-
-    // Update the file size information, first by reading in the current value...
-    file.seek(SeekFrom::Start(4))?;
-    let mut file_size_buffer = [0u8; 4];
-
-    // ...converting it to u32 representation...
-    let bytes_read = file.read(&mut file_size_buffer)?;
-
-    if bytes_read != 4
-    {
-        return io_error!(Other, "Could not read file size information from WebP file!");
-    }
-
-    let old_file_size = from_u8_vec_res_macro!(u32, &file_size_buffer, &Endian::Little)?;
-
-    // ...adding the delta byte count (and performing some checks)...
-    if delta < 0
-    {
-        assert!(old_file_size as i32 > delta);
-    }
-    let new_file_size = (old_file_size as i32 + delta) as u32;
-
-    assert!(old_file_size % 2 == 0);
-    assert!(new_file_size % 2 == 0);
-
-    // ...and writing back to file...
-    file.seek(SeekFrom::Start(4))?;
-    file.write_all(&to_u8_vec_macro!(u32, &new_file_size, &Endian::Little))?;
-
-    Ok(())
-}
-
-
-
-fn
-convert_to_extended_format
-(
-    file: &mut File
-)
--> Result<(), std::io::Error>
-{
-    // Start by getting the first chunk of the WebP file
-    file.seek(SeekFrom::Start(12))?;
-    let first_chunk = get_next_chunk(file)?;
-
-    // Find out what simple type of WebP file we are dealing with
-    let (width, height) = match first_chunk.descriptor().header().as_str()
-    {
-        "VP8 " 
-            => get_dimension_info_from_vp8_chunk(first_chunk.payload()),
-        "VP8L"
-            => get_dimension_info_from_vp8l_chunk(first_chunk.payload()),
-        _ 
-            => io_error!(Other, "Expected either 'VP8 ' or 'VP8L' chunk for conversion!")
-    }?;
-
-    let width_vec  = to_u8_vec_macro!(u32, &width,  &Endian::Little);
-    let height_vec = to_u8_vec_macro!(u32, &height, &Endian::Little);
-
-    let mut vp8x_chunk = vec![
-        0x56, 0x50, 0x38, 0x58, // ASCII chars "V", "P", "8", "X"                  -> 4 byte
-        0x0A, 0x00, 0x00, 0x00, // size of this chunk (32 + 24 + 24 bit = 10 byte) -> 4 byte
-        0x00, 0x00, 0x00, 0x00, // Flags and reserved area                         -> 4 byte
-    ];
-
-    // Add the two 24 bits for width and height information
-    for byte in  width_vec.iter().take(3) { vp8x_chunk.push(*byte); }
-    for byte in height_vec.iter().take(3) { vp8x_chunk.push(*byte); }
-
-    // Write the VP8X chunk, first by reading the file (except for the header)
-    // into a buffer...
-    let mut buffer = Vec::new();
-    file.seek(SeekFrom::Start(12u64))?;
-    file.read_to_end(&mut buffer)?;
-
-    // ...actually writing the VP8X chunk data...
-    file.seek(SeekFrom::Start(12u64))?;
-    if file.write(&vp8x_chunk)? != vp8x_chunk.len()
-    {
-        return io_error!(Other, "Could not write entire VP8X chunk data!");
-    }
-
-    // ...and writing back the file contents
-    if file.write(&buffer)? != buffer.len()
-    {
-        return io_error!(Other, "Could not write back entire WebP file data!");
-    }
-
-    // Finally, update the file size information
-    update_file_size_information(file, 18)?;
-
-    Ok(())
-}
-
-
-
-fn
-get_dimension_info_from_vp8l_chunk
-(
-    payload: &[u8],
-)
--> Result<(u32, u32), std::io::Error>
-{
-    // Get the 4 bytes containing the dimension information
-    // (although we only need 28 bits)
-    // Starting at byte 1 instead of 0 due to the 0x2F byte
-    // See: https://developers.google.com/speed/webp/docs/webp_lossless_bitstream_specification#3_riff_header
-    let width_height_info_buffer = payload[1..5].to_vec();
-    
-    // Convert to a single u32 number for bit-mask operations
-    let width_height_info = from_u8_vec_res_macro!(u32, &width_height_info_buffer, &Endian::Little)?;
-    
-    let mut width  = 0;
-    let mut height = 0;
-
-    // Get the first 14 bit to construct the width
-    for bit_index in 0..14
-    {
-        width  |= ((width_height_info >> (27 - bit_index)) & 0x01) << (13 - (bit_index % 14));
-    }
-
-    // Get the next 14 bit to construct the height
-    for bit_index in 14..28
-    {
-        height |= ((width_height_info >> (27 - bit_index)) & 0x01) << (13 - (bit_index % 14));
-    }
-
-    return Ok((width, height));
-}
-
-
-
-fn
-set_exif_flag
-(
-    path:  &Path,
-    exif_flag_value: bool
-)
--> Result<(), std::io::Error>
-{
-    // Parse the WebP file - if this fails, we surely can't read any metadata
-    let parsed_webp_result = parse_webp(path)?;
-
-    // Open the file for further processing
-    let mut file = check_signature(path)?;
-
-    // Next, check if this is an Extended File Format WebP file
-    // In this case, the first Chunk SHOULD have the type "VP8X"
-    // Otherwise we have to create the VP8X chunk!
-    if let Some(first_chunk) = parsed_webp_result.first()
-    {
-        // Compare the chunk descriptor header and call chunk creator if required
-        if first_chunk.header().to_lowercase() != VP8X_HEADER.to_lowercase()
-        {
-            convert_to_extended_format(&mut file)?;
-        }
-    }
-    else
-    {
-        return io_error!(Other, "Could not read first chunk descriptor of WebP file!");
-    }	
-
-    // At this point we know that we have a VP8X chunk at the expected location
-    // So, read in the flags and set the EXIF flag according to the given bool
-    let mut flag_buffer = vec![0u8; 4usize];
-    file.seek(SeekFrom::Start(12u64 + 4u64 + 4u64))?;
-    if file.read(&mut flag_buffer)? != 4
-    {
-        return io_error!(Other, "Could not read flags of VP8X chunk!");
-    }
-
-    // Mask the old flag by either or-ing with 1 at the EXIF flag position for
-    // setting it to true, or and-ing with 1 everywhere but the EXIF flag pos
-    // to set it to false
-    flag_buffer[0] = if exif_flag_value
-    {
-        flag_buffer[0] | 0x08
-    }
-    else
-    {
-        flag_buffer[0] & 0b11110111
-    };
-
-    // Write flag buffer back to the file
-    file.seek(SeekFrom::Start(12u64 + 4u64 + 4u64))?;
-    file.write_all(&flag_buffer)?;
-
-    Ok(())
+    return super::vec::read_metadata(&file_buffer);
 }
 
 
@@ -562,86 +28,14 @@ clear_metadata
 )
 -> Result<(), std::io::Error>
 {
-    // Check the file signature, parse it, check that it has a VP8X chunk and
-    // the EXIF flag is set there
-    let (mut file, parse_webp_result) = match check_exif_in_file(path) 
-    {
-        Ok((file, parse_webp_result)) => (file, parse_webp_result),
-        Err(e) => {
-            match e.to_string().as_str()
-            {
-                "No EXIF chunk according to VP8X flags!"
-                    => return Ok(()),
-                "Expected first chunk of WebP file to be of type 'VP8X' but instead got VP8L!"
-                    => return Ok(()),
-                "Expected first chunk of WebP file to be of type 'VP8X' but instead got VP8 !"
-                    => return Ok(()),
-                _
-                    => return Err(e)
-            }
-        }
-    };
-
-    // Compute a delta of how much the file size information has to change
-    let mut delta = 0i32;
-
-    // Skip the WEBP signature
-    file.seek(std::io::SeekFrom::Current(4i64))?;
-
-    for parsed_chunk in parse_webp_result
-    {
-        // At the start of each iteration, the file cursor is at the start of
-        // the fourCC section of a chunk
-
-        // Compute how many bytes this chunk has
-        let parsed_chunk_byte_count = 
-            4u64                            // fourCC section of EXIF chunk
-            + 4u64                          // size information of EXIF chunk
-            + parsed_chunk.len() as u64     // actual size of EXIF chunk data
-            + parsed_chunk.len() as u64 % 2 // accounting for possible padding byte
-        ;
+    // Load the entire file into memory, so that the file keeps its content if 
+    // anything goes wrong
+    let mut file_buffer: Vec<u8> = std::fs::read(path)?;
 
-        // Not an EXIF chunk, seek to next one and continue
-        if parsed_chunk.header().to_lowercase() != EXIF_CHUNK_HEADER.to_lowercase()
-        {
-            file.seek(std::io::SeekFrom::Current(parsed_chunk_byte_count as i64))?;
-            continue;
-        }
-
-        // Get the current size of the file in bytes
-        let old_file_byte_count = file.metadata()?.len();
-
-        // Get a backup of the current cursor position
-        let exif_chunk_start_cursor_position = SeekFrom::Start(file.stream_position()?);
-
-        // Skip the EXIF chunk ...
-        file.seek(std::io::SeekFrom::Current(parsed_chunk_byte_count as i64))?;
-
-        // ...and copy everything afterwards into a buffer...
-        let mut buffer = Vec::new();
-        file.read_to_end(&mut buffer)?;
-
-        // ...and seek back to where the EXIF chunk is located...
-        file.seek(exif_chunk_start_cursor_position)?;
+    super::vec::clear_metadata(&mut file_buffer)?;
 
-        // ...and overwrite the EXIF chunk...
-        file.write_all(&buffer)?;
-
-        // ...and finally update the size of the file
-        file.set_len(old_file_byte_count - parsed_chunk_byte_count)?;
-
-        // Additionally, update the size information that gets written to the 
-        // file header after this loop
-        delta -= parsed_chunk_byte_count as i32;
-    }
-
-    // Update file size information
-    update_file_size_information(&mut file, delta)?;
-    
-    // Set the flags in the VP8X chunk. First, read in the current flags
-    set_exif_flag(path, false)?;
-
-    return Ok(());
+    // Write the file, which also cuts off what is left of a longer old content
+    return std::fs::write(path, &file_buffer);
 }
 
 
@@ -658,85 +52,14 @@ write_metadata
 )
 -> Result<(), std::io::Error>
 {
-    // Clear the metadata from the file and return if this results in an error
-    clear_metadata(path)?;
-
-    // Encode the general metadata format to WebP specifications
-    let encoded_metadata = encode_metadata_webp(&metadata.encode()?);
-
-    // Open the file...
-    let mut file = check_signature(path)?;
-
-    // ...and find a location where to put the EXIF chunk
-    // This is done by requesting a chunk descriptor as long as we find a chunk
-    // that is both known and should be located *before* the EXIF chunk
-    let pre_exif_chunks = [
-        "VP8X",
-        "VP8",
-        "VP8L",
-        "ICCP",
-        "ANIM"
-    ];
-
-    loop
-    {
-        // Request a chunk descriptor. If this fails, check the error 
-        // Depending on its type, either continue normally or return it
-        let chunk_descriptor_result = get_next_chunk_descriptor(&mut file);
-
-        match chunk_descriptor_result
-        {
-            Ok(chunk_descriptor) => {
-                let mut chunk_type_found_in_pre_exif_chunks = false;
-
-                // Check header of chunk descriptor against any of the known chunks
-                // that should come before the EXIF chunk
-                for pre_exif_chunk in &pre_exif_chunks
-                {
-                    chunk_type_found_in_pre_exif_chunks |= pre_exif_chunk.to_lowercase() == chunk_descriptor.header().to_lowercase();
-                }
-
-                if !chunk_type_found_in_pre_exif_chunks
-                {
-                    break;
-                }
-            },
-            Err(e) => {
-                match e.kind()
-                {
-                    std::io::ErrorKind::UnexpectedEof
-                        => break, // No further chunks, place EXIF chunk here
-                    _
-                        => return Err(e)
-                }
-            }
-        }
-    }
-
-    // Next, read remaining file into a buffer...
-    let current_file_cursor = SeekFrom::Start(file.stream_position()?);
-    let mut read_buffer = Vec::new();
-    file.read_to_end(&mut read_buffer)?;
-
-    // ...and write the EXIF chunk at the previously found location...
-    file.seek(current_file_cursor)?;
-    file.write_all(&encoded_metadata)?;
-
-    // ...and writing back the remaining file content
-    file.write_all(&read_buffer)?;
-
-    // Update the file size information by adding the byte count of the EXIF chunk
-    // (Note: Due to  the WebP specific encoding function, this vector already
-    // contains the EXIF header characters and size information, as well as the
-    // possible padding byte. Therefore, simply taking the length of this
-    // vector takes their byte count also into account and no further values
-    // need to be added)
-    update_file_size_information(&mut file, encoded_metadata.len() as i32)?;
+    // Load the entire file into memory, so that the file keeps its content if 
+    // anything goes wrong
+    let mut file_buffer: Vec<u8> = std::fs::read(path)?;
 
-    // Finally, set the EXIF flag
-    set_exif_flag(path, true)?;
+    super::vec::write_metadata(&mut file_buffer, metadata)?;
 
-    return Ok(());
+    // Write the file, which also cuts off what is left of a longer old content
+    return std::fs::write(path, &file_buffer);
 }
 
 
diff --git a/src/webp/mod.rs b/src/webp/mod.rs
index 9abbbb0..a8d4872 100644
--- a/src/webp/mod.rs
+++ b/src/webp/mod.rs
@@ -11,8 +11,6 @@ pub(crate) const WEBP_SIGNATURE:       [u8; 4] = [0x57, 0x45, 0x42, 0x50];
 pub(crate) const VP8X_HEADER:          &str    = "VP8X";
 pub(crate) const EXIF_CHUNK_HEADER:    &str    = "EXIF";
 
-use std::fs::File;
-
 use crate::endian::Endian;
 use crate::general_file_io::io_error;
 use crate::io_error_plain;
@@ -71,7 +69,6 @@ fn
 check_byte_count
 (
     file_buffer: &[u8],
-    opt_file:     Option<&File>,
 )
 -> Result<(), std::io::Error>
 {
@@ -83,14 +80,7 @@ check_byte_count
         io_error_plain!(InvalidData, "Can't open WebP file - Byte count in RIFF header is too large!")
     )?;
 
-    if let Some(file) = opt_file
-    {
-        if file.metadata()?.len() != byte_count as u64
-        {
-            return io_error!(InvalidData, "Can't open WebP file - Promised byte count does not correspond with file size!");
-        }
-    }
-    else if file_buffer.len() != byte_count as usize
+    if file_buffer.len() != byte_count as usize
     {
         return io_error!(InvalidData, format!("Can't handle WebP file buffer - Promised byte count {} does not correspond with file buffer length {}!", byte_count, file_buffer.len()));
     }
diff --git a/src/webp/vec.rs b/src/webp/vec.rs
index 47a8598..b4ffef6 100644
--- a/src/webp/vec.rs
+++ b/src/webp/vec.rs
@@ -33,9 +33,9 @@ check_signature
         return io_error!(InvalidData, "Can't open WebP file - File too small to contain required signatures!");
     }
 
-    check_riff_signature(file_buffer      )?;
-    check_byte_count(    file_buffer, None)?;
-    check_webp_signature(file_buffer      )?;
+    check_riff_signature(file_buffer)?;
+    check_byte_count(    file_buffer)?;
+    check_webp_signature(file_buffer)?;
 
     let mut cursor = Cursor::new(file_buffer);
     cursor.set_position(12);
-- 
2.43.0


From 5f7229ac2416bd2d61f297902b15154243e6d8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:06 +0000
Subject: [PATCH 28/41] fix: HEIF: keep box types that are not UTF-8

Such a type was replaced by an empty one, so writing the box back lost its
four bytes and shifted everything behind it.
---
 src/heif/box_header.rs | 4 ++--
 src/heif/box_type.rs   | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/heif/box_header.rs b/src/heif/box_header.rs
index 3ea282c..f774838 100644
--- a/src/heif/box_header.rs
+++ b/src/heif/box_header.rs
@@ -63,7 +63,7 @@ BoxHeader
         {
             box_size:    8,
             largesize:   false,
-            box_type:    BoxType::unknown { box_type: "tobi".to_owned() },
+            box_type:    BoxType::unknown { box_type: *b"tobi" },
             header_size: 8,
             version:     None,
             flags:       None,
@@ -79,7 +79,7 @@ BoxHeader
         {
             box_size:    12,
             largesize:   false,
-            box_type:    BoxType::unknown { box_type: "tobi".to_owned() },
+            box_type:    BoxType::unknown { box_type: *b"tobi" },
             header_size: 12,
             version:     Some(0),
             flags:       Some([0, 0, 0]),
diff --git a/src/heif/box_type.rs b/src/heif/box_type.rs
index 951a1f4..7296d2b 100644
--- a/src/heif/box_type.rs
+++ b/src/heif/box_type.rs
@@ -92,7 +92,7 @@ BoxType
     hmhd,
     sthd,
     uuid    { usertype: [u8; 16] },
-    unknown { box_type: String }
+    unknown { box_type: [u8; 4] }
 }
 
 impl
@@ -194,7 +194,7 @@ BoxType
             "hmhd" => BoxType::hmhd,
             "sthd" => BoxType::sthd,
             "uuid" => BoxType::uuid { usertype: [0u8; 16] },
-            _      => BoxType::unknown { box_type: String::from(box_type_str) }
+            _      => BoxType::unknown { box_type: bytes }
         }
     }
 
@@ -293,7 +293,7 @@ BoxType
             BoxType::hmhd => "hmhd",
             BoxType::sthd => "sthd",
             BoxType::uuid { usertype: _ } => "uuid",
-            BoxType::unknown { box_type } => box_type
+            BoxType::unknown { box_type } => return box_type.to_vec()
         }.as_bytes().to_vec()
     }
 
-- 
2.43.0


From b95459c907658f2ad954a77374eb009a99e3cf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:38 +0000
Subject: [PATCH 29/41] fix: HEIF: the 64 bit box size precedes version and
 flags

A full box in the large size form (ISO/IEC 14496-12:2015, 4.2) was parsed
with its size bytes taken for version and flags, so its size was wrong and
everything from there on got lost when writing.
---
 src/heif/box_header.rs | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/src/heif/box_header.rs b/src/heif/box_header.rs
index f774838..bfa815c 100644
--- a/src/heif/box_header.rs
+++ b/src/heif/box_header.rs
@@ -109,15 +109,6 @@ BoxHeader
             flags:       None,
         };
 
-        if box_type.extends_fullbox()
-        {
-            header.version = Some(read_1_bytes(cursor)?[0]);
-            header.flags   = Some(read_3_bytes(cursor)?);
-
-            // Adjust header size information
-            header.header_size += 4;
-        }
-
         // Uses largesize box size
         if header.box_size == 1
         { 
@@ -153,6 +144,16 @@ BoxHeader
             header.header_size += 16;
         }
 
+        // Version and flags come last, see ISO/IEC 14496-12:2015, § 4.2
+        if box_type.extends_fullbox()
+        {
+            header.version = Some(read_1_bytes(cursor)?[0]);
+            header.flags   = Some(read_3_bytes(cursor)?);
+
+            // Adjust header size information
+            header.header_size += 4;
+        }
+
         return Ok(header);
     }
 
@@ -253,16 +254,6 @@ BoxHeader
         // Serialize box type - Part 1
         serialized.extend(self.box_type.to_4_bytes());
 
-        // Serialize version and flags (if present)
-        if self.box_type.extends_fullbox()
-        {
-            serialized.push(self.version.expect("BoxHeader: version is not set when serializing"));
-            for flag in self.flags.expect("BoxHeader: flags not set when serializing")
-            {
-                serialized.push(flag);
-            }
-        }
-
         // Serialize box size - Part 2
         if self.largesize
         {
@@ -278,6 +269,16 @@ BoxHeader
             }
         }
 
+        // Serialize version and flags (if present)
+        if self.box_type.extends_fullbox()
+        {
+            serialized.push(self.version.expect("BoxHeader: version is not set when serializing"));
+            for flag in self.flags.expect("BoxHeader: flags not set when serializing")
+            {
+                serialized.push(flag);
+            }
+        }
+
         return serialized;
     }
 
-- 
2.43.0


From 6114fb1d6a21ecb8b172e858777226f9a8da03b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:52 +0000
Subject: [PATCH 30/41] fix: HEIF: check the item tables while parsing them

A table whose contents did not match the size of its box, an undefined
field size or construction method or an extent beyond the address space
was accepted and then panicked, or let the rest of the file be parsed out
of step. Also keep the reserved bits of a version 0 item location box.
---
 src/heif/boxes/item_info.rs      | 11 ++++++++
 src/heif/boxes/item_location.rs  | 44 +++++++++++++++++++++++++++-----
 src/heif/boxes/item_reference.rs |  8 ++++++
 src/heif/boxes/mod.rs            | 40 ++++++++++++++++++++++++-----
 4 files changed, 91 insertions(+), 12 deletions(-)

diff --git a/src/heif/boxes/item_info.rs b/src/heif/boxes/item_info.rs
index 63ea6c5..185efdd 100644
--- a/src/heif/boxes/item_info.rs
+++ b/src/heif/boxes/item_info.rs
@@ -13,6 +13,7 @@ use crate::util::read_be_u32;
 use crate::util::read_null_terminated_string;
 
 use crate::heif::box_header::BoxHeader;
+use crate::heif::box_type::BoxType;
 use crate::heif::boxes::GenericIsoBox;
 use crate::heif::boxes::ParsableIsoBox;
 
@@ -69,6 +70,11 @@ ItemInfoEntryBox
     )
     -> Result<Self, std::io::Error>
     {
+        if header.get_box_type() != BoxType::infe
+        {
+            return io_error!(InvalidData, "Expected infe box as entry of iinf box!");
+        }
+
         let item_id               = read_be_u16(cursor)?;
         let item_protection_index = read_be_u16(cursor)?;
         let item_name             = read_null_terminated_string(cursor)?;
@@ -97,6 +103,11 @@ ItemInfoEntryBox
         additional_data.try_reserve_exact(data_left_to_read as usize)?;
         cursor.take(data_left_to_read as u64).read_to_end(&mut additional_data)?;
 
+        if additional_data.len() as u64 != data_left_to_read
+        {
+            return io_error!(InvalidData, "ItemInfoEntryBox exceeds the box it is located in!");
+        }
+
         log::trace!("Successfully read in ItemInfoEntryBox with ID: {item_id}, Name: {item_name}");
 
         return Ok(ItemInfoEntryBox {
diff --git a/src/heif/boxes/item_location.rs b/src/heif/boxes/item_location.rs
index b49425a..b1824ac 100644
--- a/src/heif/boxes/item_location.rs
+++ b/src/heif/boxes/item_location.rs
@@ -185,6 +185,12 @@ ItemLocationEntry
         { read_be_u16(cursor)? } else { 0 };
 
         let data_reference_index = read_be_u16(cursor)?;
+        // Only methods 0 (file), 1 (idat) and 2 (item) are defined
+        if reserved_and_construction_method & 0x0f > 2
+        {
+            return io_error!(InvalidData, "Unknown item construction method!");
+        }
+
         let base_offset = match base_offset_size
         {
             0 => 0,
@@ -195,17 +201,35 @@ ItemLocationEntry
 
         let extent_count = read_be_u16(cursor)?;
 
+        // Several extents that don't occupy a single byte in this table can't 
+        // be told apart
+        if extent_count > 1 && offset_size == 0 && length_size == 0
+        {
+            return io_error!(InvalidData, "Extents without offset and length!");
+        }
+
         let mut extents = Vec::new();
 
         for _ in 0..extent_count
         {
-            extents.push(ItemLocationEntryExtentEntry::read_from_cursor(
+            let extent = ItemLocationEntryExtentEntry::read_from_cursor(
                 cursor, 
                 header, 
                 offset_size, 
                 length_size, 
                 index_size
-            )?);
+            )?;
+
+            // The extent has to end somewhere in the address space
+            if extent.extent_offset
+                .checked_add(base_offset)
+                .and_then(|start| start.checked_add(extent.extent_length))
+                .is_none()
+            {
+                return io_error!(InvalidData, "Extent of item exceeds the address space!");
+            }
+
+            extents.push(extent);
         }
 
         let entry = Self { 
@@ -311,11 +335,19 @@ ItemLocationBox
                 (temp >> 8  & 0x0f) as u8, 
                 (temp >> 4  & 0x0f) as u8
             );
-        let index_size = match header.get_version()
+        // Reserved in version 0, but kept to be able to write it back
+        let index_size = temp as u8 & 0x0f;
+
+        let uses_index = header.get_version() == 1 || header.get_version() == 2;
+
+        if 
+            !matches!(offset_size,      0 | 4 | 8) ||
+            !matches!(length_size,      0 | 4 | 8) ||
+            !matches!(base_offset_size, 0 | 4 | 8) ||
+            (uses_index && !matches!(index_size, 0 | 4 | 8))
         {
-            1 | 2 => temp as u8 & 0x0f,
-            _     => 0,
-        };
+            return io_error!(InvalidData, "Invalid field size in ItemLocationBox!");
+        }
 
         let item_count = match header.get_version()
         {
diff --git a/src/heif/boxes/item_reference.rs b/src/heif/boxes/item_reference.rs
index 3763c2f..c09bf1f 100644
--- a/src/heif/boxes/item_reference.rs
+++ b/src/heif/boxes/item_reference.rs
@@ -92,6 +92,14 @@ SingleItemTypeReferenceBox
             );
         }
 
+        // The box has to consist of exactly these references
+        let ID_size = if is_large { 4 } else { 2 };
+
+        if header.get_box_size() != header.get_header_size() + ID_size + 2 + reference_count as u64 * ID_size
+        {
+            return io_error!(InvalidData, "Box size does not correspond to the number of item references!");
+        }
+
         return Ok(SingleItemTypeReferenceBox
             {
                 header,
diff --git a/src/heif/boxes/mod.rs b/src/heif/boxes/mod.rs
index 72f14d9..ee38e6c 100644
--- a/src/heif/boxes/mod.rs
+++ b/src/heif/boxes/mod.rs
@@ -1,9 +1,11 @@
 // Copyright © 2025 Tobias J. Prisching <tobias.prisching@icloud.com> and CONTRIBUTORS
 // See https://github.com/TechnikTobi/little_exif#license for licensing details
 
+use std::io::Cursor;
 use std::io::Read;
 use std::io::Seek;
 
+use crate::general_file_io::io_error;
 use crate::heif::boxes::item_reference::ItemReferenceBox;
 
 use super::box_type::BoxType;
@@ -55,14 +57,40 @@ read_box_based_on_header
 )
 -> Result<Box<dyn GenericIsoBox>, std::io::Error>
 {
-    return match header.get_box_type()
+    let box_type = header.get_box_type();
+
+    if !matches!(box_type, BoxType::iinf | BoxType::iloc | BoxType::iref)
+    {
+        return match box_type
+        {
+            BoxType::meta => MetaBox::construct_from_cursor(cursor, header),
+            _             => IsoBox:: construct_from_cursor(cursor, header)
+        };
+    }
+
+    // The tables have to consist of exactly the bytes their box promises
+    let Some(payload_size) = header.get_box_size().checked_sub(header.get_header_size()) else
     {
-        BoxType::meta => MetaBox::         construct_from_cursor(cursor, header),
-        BoxType::iinf => ItemInfoBox::     construct_from_cursor(cursor, header),
-        BoxType::iloc => ItemLocationBox:: construct_from_cursor(cursor, header),
-        BoxType::iref => ItemReferenceBox::construct_from_cursor(cursor, header),
-        _             => IsoBox::         construct_from_cursor(cursor, header)
+        return io_error!(InvalidData, "Box size is smaller than header size!");
     };
+
+    let mut payload = Vec::new();
+    cursor.take(payload_size).read_to_end(&mut payload)?;
+
+    let mut payload_cursor = Cursor::new(payload);
+    let     table_box      = match box_type
+    {
+        BoxType::iinf => ItemInfoBox::     construct_from_cursor(&mut payload_cursor, header),
+        BoxType::iloc => ItemLocationBox:: construct_from_cursor(&mut payload_cursor, header),
+        _             => ItemReferenceBox::construct_from_cursor(&mut payload_cursor, header)
+    }?;
+
+    if payload_cursor.position() != payload_size
+    {
+        return io_error!(InvalidData, "Box size does not correspond to the contents of the box!");
+    }
+
+    return Ok(table_box);
 }
 
 pub(super) fn
-- 
2.43.0


From c2333ba91c7ffb70de1b4d8369925aa4b35cb93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:08 +0000
Subject: [PATCH 31/41] fix: HEIF: find EXIF items that have a name or a 32 bit
 ID

The item type was only recognised if the item name behind it was empty, and
not at all in version 3 of the item info entry. Writing then added a second
EXIF item to the file.
---
 src/heif/boxes/item_info.rs     | 25 +++++++++++++++++++------
 src/heif/boxes/item_location.rs |  4 ++--
 src/heif/container.rs           |  6 +++---
 3 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/heif/boxes/item_info.rs b/src/heif/boxes/item_info.rs
index 185efdd..9fdf91d 100644
--- a/src/heif/boxes/item_info.rs
+++ b/src/heif/boxes/item_info.rs
@@ -35,7 +35,7 @@ pub struct
 ItemInfoEntryBox
 {
     pub(self)  header:                BoxHeader,
-    pub(crate) item_id:               u16,
+    pub(crate) item_id:               u32, // only if version == 3, otherwise this is u16
     pub(crate) item_protection_index: u16,
     pub(crate) item_name:             String,
     pub(crate) additional_data:       Vec<u8>,
@@ -75,13 +75,17 @@ ItemInfoEntryBox
             return io_error!(InvalidData, "Expected infe box as entry of iinf box!");
         }
 
-        let item_id               = read_be_u16(cursor)?;
+        let item_id               = match header.get_version()
+        {
+            3 => read_be_u32(cursor)?,
+            _ => read_be_u16(cursor)? as u32,
+        };
         let item_protection_index = read_be_u16(cursor)?;
         let item_name             = read_null_terminated_string(cursor)?;
 
         // Determine how much data is left for this entry
         let data_read_so_far = header.get_header_size() 
-            + 2                           // item_id
+            + if header.get_version() == 3 { 4 } else { 2 } // item_id
             + 2                           // item_protection_index
             + item_name.len() as u64 + 1; // string len + null terminator
 
@@ -153,7 +157,12 @@ ItemInfoBox
     -> Option<&ItemInfoEntryBox>
     {
         return self.items.iter()
-            .find(|item| item.item_name == "Exif")
+            .find(|item| 
+                item.item_name == "Exif" 
+                || 
+                // Starting with version 2 the name follows the item type
+                (item.header.get_version() >= 2 && item.item_name.starts_with("Exif"))
+            )
     }
 
     /// Creates a new item in this item information box and returns by how many
@@ -170,7 +179,7 @@ ItemInfoBox
         self.items.push(ItemInfoEntryBox 
             { 
                 header:                BoxHeader::new_exif_info_entry_box_header(), 
-                item_id:               iloc_id as u16, 
+                item_id:               iloc_id, 
                 item_protection_index: 0, 
                 item_name:             name.to_string(), 
                 additional_data:       Vec::new()
@@ -247,7 +256,11 @@ ItemInfoEntryBox
     {
         let mut serialized = self.header.serialize();
         
-        serialized.extend(to_u8_vec_macro!(u16, &self.item_id,               &Endian::Big).iter());
+        match self.header.get_version()
+        {
+            3 => serialized.extend(to_u8_vec_macro!(u32, & self.item_id,         &Endian::Big).iter()),
+            _ => serialized.extend(to_u8_vec_macro!(u16, &(self.item_id as u16), &Endian::Big).iter()),
+        }
         serialized.extend(to_u8_vec_macro!(u16, &self.item_protection_index, &Endian::Big).iter());
         serialized.extend(self.item_name.bytes());
         serialized.push(0x00); // null terminator for item name string
diff --git a/src/heif/boxes/item_location.rs b/src/heif/boxes/item_location.rs
index b1824ac..fb8bbb5 100644
--- a/src/heif/boxes/item_location.rs
+++ b/src/heif/boxes/item_location.rs
@@ -384,12 +384,12 @@ ItemLocationBox
     get_item_location_entry
     (
         &self,
-        item_id: u16
+        item_id: u32
     )
     -> Result<&ItemLocationEntry, std::io::Error>
     {
         self.items.iter()
-            .find(|item| item.item_id == item_id as u32)
+            .find(|item| item.item_id == item_id)
             .ok_or(
                 io_error_plain!(
                     Other, 
diff --git a/src/heif/container.rs b/src/heif/container.rs
index 5f17e97..950d5cf 100644
--- a/src/heif/container.rs
+++ b/src/heif/container.rs
@@ -137,7 +137,7 @@ HeifContainer
     (
         &self
     )
-    -> Result<u16, std::io::Error>
+    -> Result<u32, std::io::Error>
     {
         if let Ok(meta) = self.get_meta_box() 
         {
@@ -153,7 +153,7 @@ HeifContainer
     get_exif_data_pos_and_len
     (
         &self,
-        exif_item_id: u16,
+        exif_item_id: u32,
     )
     -> Result<(u64, u64), std::io::Error>
     {
@@ -441,7 +441,7 @@ HeifContainer
             // iloc item so that the exif area currently has a length of zero
 
             // Now we have a valid exif area with an iloc ID!
-            id = Ok(new_iloc_id as u16);
+            id = Ok(new_iloc_id);
         }
 
         // Get position and length of current exif area
-- 
2.43.0


From b09c1345834c9e5ab1a12362f1c7e1c32fdbf860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:33 +0000
Subject: [PATCH 32/41] fix: HEIF: keep everything after the last box that can
 be parsed

Writing or clearing metadata dropped all bytes from the first position on
at which no box could be read.
---
 src/heif/container.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/heif/container.rs b/src/heif/container.rs
index 950d5cf..9409c88 100644
--- a/src/heif/container.rs
+++ b/src/heif/container.rs
@@ -25,7 +25,8 @@ use super::boxes::item_location::ItemLocationBox;
 pub struct
 HeifContainer
 {
-    boxes: Vec<Box<dyn GenericIsoBox>>
+    boxes:    Vec<Box<dyn GenericIsoBox>>,
+    trailing: Vec<u8> // anything after the last box that could be parsed
 }
 
 // General structure of ISO container
@@ -82,14 +83,21 @@ HeifContainer
     )
     -> Result<Self, std::io::Error>
     {
-        let mut boxes = Vec::new();
+        let mut boxes    = Vec::new();
+        let mut trailing = Vec::new();
+        let mut position = cursor.stream_position()?;
 
         while let Ok(next_box) = read_next_box(cursor)
         {
             boxes.push(next_box);
+            position = cursor.stream_position()?;
         }
 
-        return Ok(Self { boxes })
+        // Keep the bytes that don't form a box
+        cursor.seek(std::io::SeekFrom::Start(position))?;
+        cursor.read_to_end(&mut trailing)?;
+
+        return Ok(Self { boxes, trailing })
     }
 
     fn
@@ -599,6 +607,8 @@ HeifContainer
             written_bytes += serialized.len();
         }
 
+        cursor.get_mut().extend(&self.trailing);
+
         return Ok(());
     }
 
-- 
2.43.0


From 4e5c82426dcc0c9bbd97743cf874f248707a0fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:23 +0000
Subject: [PATCH 33/41] fix: HEIF: an EXIF area that exceeds the file is an
 error

Lengths and offsets taken from the file were used for allocations and
slices without checking them, which panicked or aborted the process.
---
 src/heif/container.rs | 42 ++++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/heif/container.rs b/src/heif/container.rs
index 9409c88..ae142ed 100644
--- a/src/heif/container.rs
+++ b/src/heif/container.rs
@@ -218,29 +218,33 @@ HeifContainer
 
         // Read in the first 4 bytes, which gives the offset to the start
         // of the TIFF header and seek to that
-        let exif_tiff_header_offset = read_be_u32(cursor)? as usize;
+        let exif_tiff_header_offset = read_be_u32(cursor)? as u64;
 
         cursor.seek(std::io::SeekFrom::Current(exif_tiff_header_offset as i64))?;
 
-        if length < 4 + exif_tiff_header_offset as u64
+        if length < 4 + exif_tiff_header_offset
         {
             return io_error!(
                 InvalidData,
                 format!(
                     "EXIF data length ({}) is smaller than expected minimum size ({})",
                     length,
-                    4 + exif_tiff_header_offset as u64
+                    4 + exif_tiff_header_offset
                 )
             );
         }
 
         // Read in the remaining bytes
-        let mut exif_buffer = vec![0u8; 
-            length as usize 
-            - 4                       // the 4 bytes that store the offset
-            - exif_tiff_header_offset // the actual offset
-        ];
-        cursor.read_exact(&mut exif_buffer)?;
+        let exif_length = length 
+            - 4                        // the 4 bytes that store the offset
+            - exif_tiff_header_offset; // the actual offset
+        let mut exif_buffer = Vec::new();
+        cursor.take(exif_length).read_to_end(&mut exif_buffer)?;
+
+        if exif_buffer.len() as u64 != exif_length
+        {
+            return io_error!(UnexpectedEof, "EXIF data exceeds the file");
+        }
 
         // Stick a EXIF_HEADER in the front
         let mut full_exif_data = EXIF_HEADER.to_vec();
@@ -281,16 +285,26 @@ HeifContainer
             cursor.seek(std::io::SeekFrom::Start(start))?;
 
             // Read in all of this area
-            let mut exif_buffer = vec![0u8; length as usize];
-            cursor.read_exact(&mut exif_buffer)?;
+            let mut exif_buffer = Vec::new();
+            cursor.take(length).read_to_end(&mut exif_buffer)?;
+
+            if exif_buffer.len() as u64 != length
+            {
+                return io_error!(UnexpectedEof, "EXIF data exceeds the file");
+            }
 
             // Decode the first 4 bytes, which tells us where to cut off the old 
             // data and replace with the new one
-            let mut local_cursor            = Cursor::new(exif_buffer[0..4].to_vec());
-            let     exif_tiff_header_offset = read_be_u32(&mut local_cursor)?;
+            let mut local_cursor            = Cursor::new(&exif_buffer);
+            let     exif_tiff_header_offset = read_be_u32(&mut local_cursor)? as u64;
 
             // Cut off data, starting at the old TIFF header and replace with new
-            new_exif_buffer = exif_buffer[0..exif_tiff_header_offset as usize + 4].to_vec();
+            if length < 4 + exif_tiff_header_offset
+            {
+                return io_error!(InvalidData, "TIFF header is located outside of the EXIF data");
+            }
+            exif_buffer.truncate(exif_tiff_header_offset as usize + 4);
+            new_exif_buffer = exif_buffer;
         }
         else
         {
-- 
2.43.0


From a7dcf87623e693371f709878509d1690356f3607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:34 +0000
Subject: [PATCH 34/41] fix: HEIF: items keep pointing to their data after
 write and clear

The locations of other items were shifted by adding to all extent offsets
regardless of where they point to, ignoring base offsets, field sizes and
the order of boxes. Items in front of the changed part got lost, values
that no longer fit were cut off, boxes reaching to the end of the file or
with a 64 bit size were resized wrongly, and item IDs known to the item
info box only could be used again. Move exactly what is located behind the
changed part, and fail without touching the data if that can't be stored.
---
 src/heif/box_header.rs           |  27 ++++
 src/heif/boxes/item_info.rs      |  20 ++-
 src/heif/boxes/item_location.rs  | 179 ++++++++++++++++++++---
 src/heif/boxes/item_reference.rs |  14 +-
 src/heif/boxes/meta.rs           |  13 +-
 src/heif/container.rs            | 239 ++++++++++++-------------------
 6 files changed, 308 insertions(+), 184 deletions(-)

diff --git a/src/heif/box_header.rs b/src/heif/box_header.rs
index bfa815c..0fa60a3 100644
--- a/src/heif/box_header.rs
+++ b/src/heif/box_header.rs
@@ -197,6 +197,33 @@ BoxHeader
         self.box_size = new_size;
     }
 
+    /// Adjusts the box size after the contents of the box got longer (or, if 
+    /// `delta` is negative, shorter)
+    pub(super) fn
+    change_box_size
+    (
+        &mut self,
+        delta: i64
+    )
+    -> Result<(), std::io::Error>
+    {
+        // A size of 0 states that the box extends to the end of the file
+        // See also: ISO/IEC 14496-12:2015, § 4.2
+        if self.box_size == 0
+        {
+            return Ok(());
+        }
+
+        match self.box_size.checked_add_signed(delta)
+        {
+            Some(new_size) if self.largesize || new_size <= u32::MAX as u64 => {
+                self.box_size = new_size;
+                Ok(())
+            },
+            _ => io_error!(InvalidData, "New box size does not fit into the box header!"),
+        }
+    }
+
     pub(super) fn
     set_box_type_via_string
     (
diff --git a/src/heif/boxes/item_info.rs b/src/heif/boxes/item_info.rs
index 9fdf91d..e5adc7f 100644
--- a/src/heif/boxes/item_info.rs
+++ b/src/heif/boxes/item_info.rs
@@ -174,8 +174,19 @@ ItemInfoBox
         iloc_id: u32,
         name:    &str,
     )
-    -> u64
+    -> Result<u64, std::io::Error>
     {
+        let old_serialized_len = self.serialize().len() as u64;
+
+        // The new entry has a 16 bit ID, as has the number of items in version 0
+        if 
+            iloc_id > u16::MAX as u32 
+            || 
+            (self.header.get_version() == 0 && self.item_count >= u16::MAX as usize)
+        {
+            return io_error!(InvalidData, "No further item fits into the ItemInfoBox!");
+        }
+
         self.items.push(ItemInfoEntryBox 
             { 
                 header:                BoxHeader::new_exif_info_entry_box_header(), 
@@ -192,11 +203,10 @@ ItemInfoBox
         // be adjusted as well
         // TODO: make this more efficient by only computing how much memory is
         // needed, not by actually serializing (and thus, allocating memory)
-        let old_box_size = self.header.get_box_size();
-        let new_box_size = self.serialize().len() as u64;
-        self.header.set_box_size(new_box_size);
+        let delta = self.serialize().len() as u64 - old_serialized_len;
+        self.header.change_box_size(delta as i64)?;
 
-        return new_box_size - old_box_size;
+        return Ok(delta);
     }
 }
 
diff --git a/src/heif/boxes/item_location.rs b/src/heif/boxes/item_location.rs
index fb8bbb5..77359af 100644
--- a/src/heif/boxes/item_location.rs
+++ b/src/heif/boxes/item_location.rs
@@ -316,6 +316,23 @@ ItemLocationEntry
     */
 }
 
+/// Whether a value can be stored in a field of the given size
+fn
+fits
+(
+    value:      u64,
+    field_size: u8
+)
+-> bool
+{
+    match field_size
+    {
+        0 => value == 0,
+        4 => value <= u32::MAX as u64,
+        _ => true,
+    }
+}
+
 impl
 ItemLocationBox
 {
@@ -399,34 +416,66 @@ ItemLocationBox
     }
 
     // Returns the ID of the new entry and by how many bytes this box got longer
+    // The ID is larger than the given one, which is to be the largest one that 
+    // any other box knows about
     pub(crate) fn
     create_new_item_location_entry
     (
         &mut self,
-        data_start:  u64,
-        data_length: u64
+        data_start:       u64,
+        data_length:      u64,
+        largest_other_id: u32
     )
-    -> (u32, u64)
+    -> Result<(u32, u64), std::io::Error>
     {
+        let old_serialized_len = self.serialize().len() as u64;
+
         // Determine largest iloc ID so far
         let old_largest_id = self.items
             .iter()
             .map(|x| x.item_id)
             .max()
-            .unwrap_or(0);
+            .unwrap_or(0)
+            .max(largest_other_id);
+
+        // Both the ID and the number of items have to fit into this box
+        let largest_value = if self.header.get_version() == 2 { u32::MAX } else { u16::MAX as u32 };
+
+        if old_largest_id >= largest_value || self.item_count >= largest_value
+        {
+            return io_error!(InvalidData, "No further item fits into the ItemLocationBox!");
+        }
+
+        // Without room for an offset the base offset has to take it
+        let (base_offset, extent_offset) = if self.offset_size == 0
+        {
+            (data_start, 0)
+        }
+        else
+        {
+            (0, data_start)
+        };
+
+        if 
+            !fits(base_offset,   self.base_offset_size) || 
+            !fits(extent_offset, self.offset_size) || 
+            !fits(data_length,   self.length_size)
+        {
+            return io_error!(InvalidData, "Location of the new item does not fit into the ItemLocationBox!");
+        }
 
         self.items.push(ItemLocationEntry 
             {
                 item_id:                          old_largest_id + 1, 
                 reserved_and_construction_method: 0, 
                 data_reference_index:             0, 
-                base_offset:                      0,
+                base_offset,
                 extent_count:                     1, 
                 extents:                          vec![
                     ItemLocationEntryExtentEntry 
                     {
                         extent_index:  Some(0),
-                        extent_offset: data_start,
+                        extent_offset,
                         extent_length: data_length,
                     }
                 ]
@@ -439,25 +488,59 @@ ItemLocationBox
         // be adjusted as well
         // TODO: make this more efficient by only computing how much memory is
         // needed, not by actually serializing (and thus, allocating memory)
-        let old_box_size = self.header.get_box_size();
-        let new_box_size = self.serialize().len() as u64;
-        self.header.set_box_size(new_box_size);
+        let delta = self.serialize().len() as u64 - old_serialized_len;
+        self.header.change_box_size(delta as i64)?;
 
-        return (
-            self.items.last_mut().expect("No items present after insertion").item_id,
-            new_box_size - old_box_size
-        );
+        return Ok((old_largest_id + 1, delta));
+    }
+
+    /// Sets the length of the (only) extent of the given item
+    pub(crate) fn
+    set_extent_length
+    (
+        &mut self,
+        item_id:    u32,
+        new_length: u64
+    )
+    -> Result<(), std::io::Error>
+    {
+        if !fits(new_length, self.length_size)
+        {
+            return io_error!(InvalidData, "Length of item does not fit into the ItemLocationBox!");
+        }
+
+        match self.items.iter_mut().find(|item| item.item_id == item_id)
+        {
+            Some(item) if item.extents.len() == 1 => {
+                item.extents[0].extent_length = new_length;
+                Ok(())
+            },
+            _ => io_error!(Other, "Expected an item with exactly one extent"),
+        }
     }
 
+    /// Adjusts the locations of all items after the range from `start` to 
+    /// `end` of the file got longer by `delta` bytes: What is located in front
+    /// of that range stays where it is and what is located behind it moves. 
+    /// The item to which the range belongs (if any) is left alone
     pub(crate) fn
-    add_to_extents
+    move_extents
     (
         &mut self,
-        value: i64
+        start:   u64,
+        end:     u64,
+        delta:   i64,
+        item_id: Option<u32>
     )
+    -> Result<(), std::io::Error>
     {
         for item in &mut self.items
         {
+            if Some(item.item_id) == item_id
+            {
+                continue;
+            }
+
             if item.get_construction_method() == ItemConstructionMethod::IDAT
             {
                 // In this case the offset information is relative to the
@@ -481,15 +564,69 @@ ItemLocationBox
                 continue;
             }
 
-            // For now, just add the value to the extent offsets. 
-            // This may be problematic in case the offset points to a location
-            // before the iloc or iinf boxes, so changing their length won't
-            // affect that offset value
-            for extent in &mut item.extents
+            // Find out where the extents are located now
+            let mut new_offsets = Vec::new();
+            let mut all_moved   = true;
+
+            for extent in &item.extents
+            {
+                let complete_offset = item.base_offset + extent.extent_offset;
+
+                if complete_offset >= end
+                {
+                    let Some(new_offset) = complete_offset.checked_add_signed(delta) else
+                    {
+                        return io_error!(InvalidData, "Item would be moved out of the address space!");
+                    };
+                    new_offsets.push(new_offset);
+                }
+                else if complete_offset.saturating_add(extent.extent_length) <= start
+                {
+                    new_offsets.push(complete_offset);
+                    all_moved = false;
+                }
+                else
+                {
+                    return io_error!(Other, "Can't change a part of the file that belongs to several items!");
+                }
+            }
+
+            let Some(smallest_offset) = new_offsets.iter().min().copied() else
+            {
+                continue;
+            };
+
+            // Move the base offset if possible and stay with it otherwise
+            let new_base_offset = if 
+                all_moved 
+                && 
+                (self.offset_size == 0 || item.base_offset > delta.unsigned_abs())
+            {
+                item.base_offset.saturating_add_signed(delta)
+            }
+            else
+            {
+                item.base_offset
+            }.min(smallest_offset);
+
+            if !fits(new_base_offset, self.base_offset_size)
+            {
+                return io_error!(InvalidData, "Base offset of item does not fit into the ItemLocationBox!");
+            }
+            item.base_offset = new_base_offset;
+
+            for (extent, new_offset) in item.extents.iter_mut().zip(new_offsets)
             {
-                extent.extent_offset = (extent.extent_offset as i64 + value) as u64;
+                extent.extent_offset = new_offset - new_base_offset;
+
+                if !fits(extent.extent_offset, self.offset_size)
+                {
+                    return io_error!(InvalidData, "Offset of item does not fit into the ItemLocationBox!");
+                }
             }
         }
+
+        Ok(())
     }
 }
 
diff --git a/src/heif/boxes/item_reference.rs b/src/heif/boxes/item_reference.rs
index c09bf1f..0073860 100644
--- a/src/heif/boxes/item_reference.rs
+++ b/src/heif/boxes/item_reference.rs
@@ -169,10 +169,16 @@ ItemReferenceBox
         from_item_ID:   u32,
         to_item_ID:     Vec<u32>
     )
-    -> u64
+    -> Result<u64, std::io::Error>
     {
         // Determine is_large and the box size
         let is_large = self.header.get_version() >= 1;
+
+        if !is_large && (from_item_ID > u16::MAX as u32 || to_item_ID.iter().any(|id| *id > u16::MAX as u32))
+        {
+            return io_error!(InvalidData, "Item ID does not fit into the ItemReferenceBox!");
+        }
+
         let ID_size  = if is_large { 4 } else { 2 };
         let box_size = 0
             + 8                                 // header
@@ -196,11 +202,9 @@ ItemReferenceBox
 
         self.references.push(singe_item_reference_box);
 
-        let old_iref_box_size = self.header.get_box_size();
-        let new_iref_box_size = old_iref_box_size + box_size;
-        self.header.set_box_size(new_iref_box_size);
+        self.header.change_box_size(box_size as i64)?;
 
-        return box_size;
+        return Ok(box_size);
     }
 }
 
diff --git a/src/heif/boxes/meta.rs b/src/heif/boxes/meta.rs
index 1617bc6..26e31e0 100644
--- a/src/heif/boxes/meta.rs
+++ b/src/heif/boxes/meta.rs
@@ -128,24 +128,27 @@ MetaBox
     (
         &mut self
     )
-    -> u64
+    -> Result<u64, std::io::Error>
     {
         if self.get_item_reference_box().is_some()
         {
-            return 0;
+            return Ok(0);
         }
 
         let new_iref_box      = ItemReferenceBox::new();
         let new_iref_box_size = new_iref_box.get_header().get_box_size();
 
-        let index = self.other_boxes
+        let Some(index) = self.other_boxes
             .iter()
             .position(|x| x.get_header().get_box_type() == BoxType::iinf)
-            .expect("Could not find iinf box to insert iref before");
+        else
+        {
+            return io_error!(NotFound, "Could not find iinf box to insert iref before");
+        };
          
         self.other_boxes.insert(index, Box::new(new_iref_box));
 
-        return new_iref_box_size;
+        return Ok(new_iref_box_size);
     }
 }
 
diff --git a/src/heif/container.rs b/src/heif/container.rs
index ae142ed..4db098e 100644
--- a/src/heif/container.rs
+++ b/src/heif/container.rs
@@ -8,14 +8,11 @@ use std::io::Seek;
 use crate::general_file_io::io_error;
 use crate::general_file_io::EXIF_HEADER;
 use crate::heif::box_type::BoxType;
-use crate::heif::boxes::item_location::ItemConstructionMethod;
 use crate::heif::boxes::item_reference::ItemReferenceBox;
 use crate::heif::boxes::meta::MetaBox;
 use crate::heif::read_next_box;
 
 use crate::metadata::Metadata;
-use crate::util::insert_multiple_at;
-use crate::util::range_remove;
 use crate::util::read_be_u32;
 
 use super::boxes::GenericIsoBox;
@@ -334,7 +331,7 @@ HeifContainer
     (
         &self
     )
-    -> u64
+    -> Result<u64, std::io::Error>
     {
         // Assumes that the new exif area that gets created should start at the
         // end of the mdat area
@@ -343,15 +340,40 @@ HeifContainer
 
         for b in &self.boxes
         {
-            byte_count += b.get_header().get_box_size();
+            // The size in the header may be zero for the last box
+            byte_count += b.serialize().len();
 
             if b.get_header().get_box_type() == BoxType::mdat
             {
-                return byte_count as u64;
+                return Ok(byte_count as u64);
             }
         }
 
-        return u64::MAX;
+        return io_error!(Other, "No mdat box found in HEIF container");
+    }
+
+    /// Start and end of the meta box in the file
+    fn
+    get_meta_box_range
+    (
+        &self
+    )
+    -> Result<(u64, u64), std::io::Error>
+    {
+        let mut byte_count = 0;
+
+        for b in &self.boxes
+        {
+            let box_start = byte_count;
+            byte_count += b.serialize().len();
+
+            if b.get_header().get_box_type() == BoxType::meta
+            {
+                return Ok((box_start as u64, byte_count as u64));
+            }
+        }
+
+        return io_error!(Other, "No meta box found in HEIF container");
     }
 
 
@@ -380,11 +402,14 @@ HeifContainer
             //   image/iloc ID #1 -> is this always #1?
 
             // Where to put the new exif area
-            let new_exif_start = self.get_start_address_for_new_exif_area();
+            let new_exif_start = self.get_start_address_for_new_exif_area()?;
+
+            // The part of the file that gets longer by creating these entries
+            let (meta_start, meta_end) = self.get_meta_box_range()?;
 
             // If there is no iref box yet, create one so we can find one,
             // and get the size delta of the new box for extents
-            let mut iref_size_delta = self.get_meta_box_mut()?.create_new_item_reference_box_if_none_exists_yet();
+            let mut iref_size_delta = self.get_meta_box_mut()?.create_new_item_reference_box_if_none_exists_yet()?;
 
             // Acquire the item location, the item information and the item 
             // reference boxes that are inside the meta box. For some reason, 
@@ -434,30 +459,29 @@ HeifContainer
             // Note that the given `new_exif_start` value is based on old
             // length values (which change due to adding a new item to both the
             // iloc and iinf boxes) - but this does not matter as this will 
-            // be updated anyway later by `add_to_extents`
+            // be updated anyway later by `move_extents`
             // This way, we don't need any exception during the update procedure
             let (new_iloc_id, iloc_size_delta) = iloc.create_new_item_location_entry(
                 new_exif_start,
-                0
-            );
+                0,
+                iinf.items.iter().map(|item| item.item_id).max().unwrap_or(0)
+            )?;
             let               iinf_size_delta  = iinf.create_new_item_info_entry(
                 new_iloc_id, 
                 "Exif"
-            );
+            )?;
                               iref_size_delta += iref.create_new_single_item_reference_box(
                 "cdsc",             // TODO: Check if this is always this type?
                 new_iloc_id, 
                 vec![1]             // TODO: Check if this is always item #1?
-            );
+            )?;
 
             // Fix the extents in the iloc box
-            iloc.add_to_extents(
-                (iloc_size_delta + iinf_size_delta + iref_size_delta) as i64
-            );
+            let meta_size_delta = (iloc_size_delta + iinf_size_delta + iref_size_delta) as i64;
+            iloc.move_extents(meta_start, meta_end, meta_size_delta, None)?;
 
             // Fix up the size of the meta box as well
-            let new_box_size = self.get_meta_box()?.serialize().len() as u64;
-            self.get_meta_box_mut()?.get_header_mut().set_box_size(new_box_size);
+            self.get_meta_box_mut()?.get_header_mut().change_box_size(meta_size_delta)?;
 
             // No change to the mdat data at this point as we set up the
             // iloc item so that the exif area currently has a length of zero
@@ -467,161 +491,80 @@ HeifContainer
         }
 
         // Get position and length of current exif area
-        let (old_exif_pos, old_exif_len) = match &id {
-            Ok(idv) => self.get_exif_data_pos_and_len(*idv)?,
-            Err(_) => (0, 0),
+        let exif_item_id = id?;
+        let (old_exif_pos, old_exif_len) = self.get_exif_data_pos_and_len(exif_item_id)?;
+
+        let Some(end_of_old_exif) = old_exif_pos.checked_add(old_exif_len) else
+        {
+            return io_error!(InvalidData, "EXIF data exceeds the file");
         };
 
         // Get cursor for file
-        let mut cursor = Cursor::new(file_buffer);
+        let mut cursor = Cursor::new(&*file_buffer);
 
         // Construct new exif data area
-        let (mut new_exif_area, delta) = self.construct_new_exif_data_area(
+        let (new_exif_area, delta) = self.construct_new_exif_data_area(
             &mut cursor, 
             metadata
         )?;
 
-        let meta_mut = self.get_meta_box_mut()?;
-        for item in &mut meta_mut.get_item_location_box_mut()?.items
-        {
-            // First, check if any extent of this item has the same offset as
-            // the old exif data area. In that case, there must be only one
-            // extent - other cases can't be handled right now
-            if item.extents.iter()
-                .any(|extent| {
-                    item.base_offset + extent.extent_offset == old_exif_pos
-                })
-            {
-                assert!(item.extents.len() == 1, "Expect to have exactly one extent info for EXIF!");
-
-                // In case of the EXIF extent information we need to update
-                // the length information, not the offset!
-                let first_extent = match item.extents.first() {
-                    Some(f) => f,
-                    None => return io_error!(Other, "Expected one extent for EXIF"),
-                };
-                let new_ext_len = (
-                    first_extent.extent_length as i64
-                    + delta
-                ) as u64;
-                match item.extents.first_mut() {
-                    Some(fm) => fm.extent_length = new_ext_len,
-                    None => return io_error!(Other, "Expected one extent for EXIF (mut)"),
-                }
+        // Update the length of the exif area and the locations of all items
+        // that come after it
+        let iloc = self.get_meta_box_mut()?.get_item_location_box_mut()?;
+        iloc.set_extent_length(exif_item_id, new_exif_area.len() as u64)?;
+        iloc.move_extents(old_exif_pos, end_of_old_exif, delta, Some(exif_item_id))?;
 
-                 continue;
-            }
+        // Now we write the boxes, replacing old exif data with new in the box
+        // that contains it
+        let mut new_file_buffer  = Vec::new();
+        let mut new_exif_written = false;
 
-            if item.get_construction_method() == ItemConstructionMethod::IDAT
-            {
-                // In this case the offset information is relative to the
-                // position of an idat box -> not affected by change in length
-                // of another box
-                continue;
-            }
+        for iso_box in &mut self.boxes
+        {
+            let serialized = iso_box.serialize();
 
-            if item.get_construction_method() == ItemConstructionMethod::ITEM
-            {
-                // Offset is relative to another item's extent
-                // Also nothing to do here (for now...)
-                continue;
-            }
+            // Where this box and its contents are located in the file with the 
+            // OLD exif data
+            let box_start      = if new_exif_written { u64::MAX } else { new_file_buffer.len() as u64 };
+            let contents_start = box_start.saturating_add(iso_box.get_header().get_header_size());
+            let box_end        = box_start.saturating_add(serialized.len() as u64);
 
-            if item.data_reference_index != 0
+            if contents_start > old_exif_pos || end_of_old_exif > box_end
             {
-                // A value other than 0 implies that this extent refers to
-                // another file, not this one, so we can also skip this
-                // See ISO/IEC 14496-12:2015 § 8.11.3.1, p. 78
+                // Just extend with the serialized box contents
+                new_file_buffer.extend(&serialized);
                 continue;
             }
 
-            if item.base_offset > delta.unsigned_abs()
+            // If this box encompasses the exif data area, update its size and
+            // serialize it again
+            // TODO: The exif area could be located in some nested box, which
+            // requires updating the size fields of all boxes "downward" - for
+            // the meta box (whose nested boxes are known) this is an error
+            if iso_box.get_header().get_box_type() == BoxType::meta
             {
-                // Potentially modify the entire base offset 
-                // however, we can only do that if all complete offsets
-                // point to an area after the exif data area
-                // So we need to check that first:
-                if item.extents.iter()
-                    .all(|extent| {
-                        item.base_offset + extent.extent_offset >= old_exif_pos
-                    })
-                {
-                    item.base_offset = (item.base_offset as i64 + delta) as u64;
-                    continue;
-                }
+                return io_error!(Other, "HEIF: EXIF data inside of the meta box currently not supported");
             }
 
-            // At this point we have no option left but to modify all 
-            // individual extent offsets
-            for extent in &mut item.extents
-            {
-                let complete_offset = item.base_offset + extent.extent_offset;
+            iso_box.get_header_mut().change_box_size(delta)?;
+            new_file_buffer.extend(iso_box.serialize());
 
-                if complete_offset > old_exif_pos
-                {
-                    extent.extent_offset = (extent.extent_offset as i64 + delta) as u64;
-                }
-            }
-        }
-
-        // Now we clear the vec and write the boxes to it
-        // Keep track of how many bytes were written so we know when to 
-        // replace old exif data with new
-        cursor.get_mut().clear();
+            // Replace old exif data with new
+            new_file_buffer.splice(
+                old_exif_pos as usize..end_of_old_exif as usize, 
+                new_exif_area.iter().copied()
+            );
 
-        let mut written_bytes    = 0usize;
-        let mut new_exif_written = false;
-        let     end_of_old_exif  = (old_exif_pos + old_exif_len) as usize;
+            new_exif_written = true;
+        }
 
-        for iso_box in &mut self.boxes
+        if !new_exif_written
         {
-            let mut serialized = iso_box.serialize();
-
-            // If this box encompasses the exif data area, update its size and
-            // serialize it again
-            // TODO: As this is not the cleanest approach (e.g. what if the
-            // exif area is not in this top level box but some nested box? 
-            // -> requires update of size fields of all boxes "downward") some
-            // other solution needs to be found for this
-            // In the meantime, this should work for the majority of HEIFs
-            if 
-                written_bytes + serialized.len() >= end_of_old_exif 
-                && 
-                !new_exif_written
-            {
-                let new_size = (iso_box.get_header().get_box_size() as i64 + delta) as u64;
-                iso_box.get_header_mut().set_box_size(new_size);
-                serialized = iso_box.serialize();
-
-                // Write the serialized box with the OLD exif data
-                cursor.get_mut().extend(&serialized);
-
-                // Remove old exif data
-                range_remove(
-                    cursor.get_mut(), 
-                    old_exif_pos as usize, 
-                    (old_exif_pos + old_exif_len) as usize
-                );
-
-                // Insert new exif data
-                insert_multiple_at(
-                    cursor.get_mut(),
-                    old_exif_pos as usize, 
-                    &mut new_exif_area
-                );
-
-                new_exif_written = true;
-            }
-            else
-            {
-                // Just extend with the serialized box contents
-                cursor.get_mut().extend(&serialized);
-            }
-
-            written_bytes += serialized.len();
+            return io_error!(Other, "EXIF data is not located inside of a box of the HEIF file");
         }
 
-        cursor.get_mut().extend(&self.trailing);
+        new_file_buffer.extend(&self.trailing);
+        *file_buffer = new_file_buffer;
 
         return Ok(());
     }
-- 
2.43.0


From 6003fd7d51f414fe3fee53815a7d100461825e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:37 +0000
Subject: [PATCH 35/41] fix: HEIF: EXIF data stored in another file is not in
 this one

The data reference index of the EXIF item was ignored, so whatever is at
that location of the file itself was read and overwritten.
---
 src/heif/container.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/heif/container.rs b/src/heif/container.rs
index 4db098e..9b3711c 100644
--- a/src/heif/container.rs
+++ b/src/heif/container.rs
@@ -174,6 +174,11 @@ HeifContainer
             return io_error!(Other, "Expected exactly one EXIF extent info entry");
         }
 
+        if exif_item.data_reference_index != 0
+        {
+            return io_error!(Other, "HEIF: EXIF data in another file is not supported");
+        }
+
         match exif_item.get_construction_method()
         {
             super::boxes::item_location::ItemConstructionMethod::FILE => {
-- 
2.43.0


From eda36a69c7117e40bb8940ee8ed22731947d2713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:55 +0000
Subject: [PATCH 36/41] fix: HEIF: link new EXIF data to the primary item

The reference was always made to item 1, which need not be the image (and
need not exist at all).
---
 src/heif/boxes/iso.rs  | 10 ++++++++++
 src/heif/boxes/meta.rs | 24 ++++++++++++++++++++++++
 src/heif/container.rs  |  8 +++++---
 3 files changed, 39 insertions(+), 3 deletions(-)

diff --git a/src/heif/boxes/iso.rs b/src/heif/boxes/iso.rs
index cb594e8..a5e8237 100644
--- a/src/heif/boxes/iso.rs
+++ b/src/heif/boxes/iso.rs
@@ -20,6 +20,16 @@ IsoBox
 impl
 IsoBox
 {
+    pub(super) fn
+    get_data
+    (
+        &self
+    )
+    -> &[u8]
+    {
+        return &self.data;
+    }
+
     fn
     construct_from_cursor_unboxed
     <T: Seek + Read>
diff --git a/src/heif/boxes/meta.rs b/src/heif/boxes/meta.rs
index 26e31e0..c5b334e 100644
--- a/src/heif/boxes/meta.rs
+++ b/src/heif/boxes/meta.rs
@@ -20,6 +20,8 @@ use crate::heif::boxes::item_info::ItemInfoBox;
 use crate::heif::boxes::item_location::ItemLocationBox;
 use crate::heif::boxes::item_reference::ItemReferenceBox;
 
+use crate::heif::boxes::iso::IsoBox;
+
 use super::read_box_based_on_header;
 
 #[allow(dead_code)]
@@ -123,6 +125,28 @@ MetaBox
         return None;
     }
 
+    /// The ID of the primary item (the image), if there is one
+    pub(crate) fn
+    get_primary_item_id
+    (
+        &self
+    )
+    -> Option<u32>
+    {
+        let pitm = self.other_boxes.iter()
+            .find(|b| b.get_header().get_box_type() == BoxType::pitm)?
+            .as_any().downcast_ref::<IsoBox>()?;
+
+        // The size of the ID depends on the version, see ISO/IEC 14496-12:2015 § 8.11.4.2
+        return match (pitm.get_header().get_version(), pitm.get_data())
+        {
+            (0, &[a, b, ..])       => Some(u16::from_be_bytes([a, b]) as u32),
+            (0, _)                 => None,
+            (_, &[a, b, c, d, ..]) => Some(u32::from_be_bytes([a, b, c, d])),
+            _                      => None,
+        };
+    }
+
     pub(crate) fn
     create_new_item_reference_box_if_none_exists_yet
     (
diff --git a/src/heif/container.rs b/src/heif/container.rs
index 9b3711c..c61b977 100644
--- a/src/heif/container.rs
+++ b/src/heif/container.rs
@@ -404,7 +404,7 @@ HeifContainer
             // - Create an item information entry that tells us that the iloc 
             //   entry points to EXIF data
             // - Create an item reference entry that links the EXIF data to the
-            //   image/iloc ID #1 -> is this always #1?
+            //   primary item, i.e. the image
 
             // Where to put the new exif area
             let new_exif_start = self.get_start_address_for_new_exif_area()?;
@@ -425,7 +425,9 @@ HeifContainer
             let mut iinf_opt = None;
             let mut iref_opt = None;
 
-            let meta_mut_ref = self.get_meta_box_mut()?;
+            let meta_mut_ref    = self.get_meta_box_mut()?;
+            let primary_item_id = meta_mut_ref.get_primary_item_id().unwrap_or(1);
+
             for other_box in &mut meta_mut_ref.other_boxes
             {
                 if other_box.get_header().get_box_type() == BoxType::iloc
@@ -478,7 +480,7 @@ HeifContainer
                               iref_size_delta += iref.create_new_single_item_reference_box(
                 "cdsc",             // TODO: Check if this is always this type?
                 new_iloc_id, 
-                vec![1]             // TODO: Check if this is always item #1?
+                vec![primary_item_id]
             )?;
 
             // Fix the extents in the iloc box
-- 
2.43.0


From 51dc3c0f3979aded275068f0da781612d8877f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:51 +0000
Subject: [PATCH 37/41] fix: HEIF: nested meta boxes overflow the stack

---
 src/heif/boxes/meta.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/heif/boxes/meta.rs b/src/heif/boxes/meta.rs
index c5b334e..ae41c22 100644
--- a/src/heif/boxes/meta.rs
+++ b/src/heif/boxes/meta.rs
@@ -232,10 +232,13 @@ MetaBox
         while local_cursor.position() < remaining_bytes as u64
         {
             let sub_header = BoxHeader::read_box_header(&mut local_cursor)?;
-            let sub_box    = read_box_based_on_header(
-                &mut local_cursor, 
-                sub_header
-            )?;
+            let sub_box    = match sub_header.get_box_type()
+            {
+                // Meta boxes are not to be nested (and could be nested deeper
+                // than the stack allows) so this is just some box
+                BoxType::meta => IsoBox::construct_from_cursor(&mut local_cursor, sub_header),
+                _             => read_box_based_on_header(&mut local_cursor, sub_header)
+            }?;
 
             other_boxes.push(sub_box);
         }
-- 
2.43.0


From add12e91f193cbf6939f04e3ec38fd59fdfab330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:52 +0000
Subject: [PATCH 38/41] fix: XMP: elements within a removed EXIF element left
 part of it behind

---
 src/xmp.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/xmp.rs b/src/xmp.rs
index 707ece2..3e99069 100644
--- a/src/xmp.rs
+++ b/src/xmp.rs
@@ -40,11 +40,13 @@ remove_exif_from_xmp
             Ok(Event::Start(ref event)) => {
                 let event_name = String::from_utf8(event.name().0.to_vec())?;
 
-                if event_name.starts_with("exif:")
+                // Elements within an EXIF element get removed as well, so these
+                // need to be counted, too
+                if skip_depth > 0 || event_name.starts_with("exif:")
                 {
                     skip_depth += 1;
                 }
-                else if skip_depth == 0
+                else
                 {
                     writer.write_event(Event::Start(get_exif_filtered_event(event)?))?;
                 }
@@ -76,7 +78,10 @@ remove_exif_from_xmp
             }
 
             Ok(Event::Eof) => {
-                assert_eq!(skip_depth, 0);
+                if skip_depth > 0
+                {
+                    return Err("XMP data ends within an EXIF element".into());
+                }
                 break;
             }
 
-- 
2.43.0


From acf4b1247c3947fb521007b0edc78cb2fed8da0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:54 +0000
Subject: [PATCH 39/41] fix: XMP: text far behind a removed EXIF element got
 removed as well

---
 src/xmp.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/xmp.rs b/src/xmp.rs
index 3e99069..2251d93 100644
--- a/src/xmp.rs
+++ b/src/xmp.rs
@@ -32,6 +32,10 @@ remove_exif_from_xmp
 
     loop 
     {
+        // Only the text *directly* behind a removed element may get skipped
+        let skip_this_nl = skip_next_nl;
+        skip_next_nl     = false;
+
         // Read in the event
         let read_event = reader.read_event_into(&mut read_buffer);
 
@@ -92,9 +96,9 @@ remove_exif_from_xmp
                     .filter(|c| *c == '\n' || !c.is_whitespace())
                     .collect::<Vec<char>>();
 
-                if characters == vec!['\n'] && skip_next_nl
+                if characters == vec!['\n'] && skip_this_nl
                 {
-                    skip_next_nl = false;
+                    // do nothing
                 }
                 else if skip_depth == 0 
                 {
-- 
2.43.0


From 0a348ec69970ca3f9fec9108ce8f46cf0f6a8f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:56 +0000
Subject: [PATCH 40/41] fix: XMP: malformed XML silently lost all data behind
 the malformed part

---
 src/xmp.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/xmp.rs b/src/xmp.rs
index 2251d93..8c7bf61 100644
--- a/src/xmp.rs
+++ b/src/xmp.rs
@@ -116,7 +116,9 @@ remove_exif_from_xmp
                     reader.buffer_position(), 
                     error_message
                 );
-                break;
+
+                // The remaining data must not get lost
+                return Err(error_message.into());
             }
         };
 
-- 
2.43.0


From 91d9bdc452ef8ae7c8b111552a931a801eacb2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:59 +0000
Subject: [PATCH 41/41] fix: XMP: attributes got lost or broken

---
 src/xmp.rs | 55 +++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 38 insertions(+), 17 deletions(-)

diff --git a/src/xmp.rs b/src/xmp.rs
index 8c7bf61..e13ff03 100644
--- a/src/xmp.rs
+++ b/src/xmp.rs
@@ -139,22 +139,43 @@ get_exif_filtered_event<'a>
         std::str::from_utf8(event.name().0)?
     );
 
-    new_event.extend_attributes(
-        event.attributes()
-            .filter_map(Result::ok)
-            .filter(|attribute| 
-                {
-                    if let Ok(key) = std::str::from_utf8(
-                        attribute.key.as_ref()
-                    ) 
-                    {
-                        !key.starts_with("exif:")
-                    } else {
-                        true
-                    }
-                }
-            ),
-    );
+    for attribute in event.attributes()
+    {
+        // A malformed attribute must not get lost
+        let attribute = attribute?;
+
+        if !attribute.key.as_ref().starts_with(b"exif:")
+        {
+            // The value gets written in double quotes, but may have been in 
+            // single quotes before and thus may contain double quotes
+            let value = escape_double_quotes(&attribute.value);
+            new_event.push_attribute((attribute.key.as_ref(), value.as_slice()));
+        }
+    }
 
     return Ok(new_event);
-}
\ No newline at end of file
+}
+
+fn
+escape_double_quotes
+(
+    value: &[u8]
+)
+-> Vec<u8>
+{
+    let mut escaped = Vec::new();
+
+    for byte in value
+    {
+        if *byte == b'"'
+        {
+            escaped.extend(b"&quot;");
+        }
+        else
+        {
+            escaped.push(*byte);
+        }
+    }
+
+    return escaped;
+}
-- 
2.43.0

