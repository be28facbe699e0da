From d2ff103ce33c095450258b1f80ca22179c51f7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:30 +0000
Subject: [PATCH 01/42] fix: write IFD entries in ascending tag order,
 including the synthesised SubIFD offset tags

---
 src/ifd/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ifd/mod.rs b/src/ifd/mod.rs
index 72e6e7b..ca4fbf9 100644
--- a/src/ifd/mod.rs
+++ b/src/ifd/mod.rs
@@ -504,6 +504,10 @@ ImageFileDirectory
             all_relevant_tags.extend(ifd_with_offset_info_only.get_tags().iter().cloned());
         }
 
+        // "The entries in an IFD must be sorted in ascending order by Tag."
+        // (TIFF 6.0 Specification, page 15/121)
+        all_relevant_tags.sort_by_key(|tag| tag.as_u16());
+
         // Start writing this IFD by adding the number of entries
         let count_entries = all_relevant_tags.iter().filter(
             |tag| tag.is_writable() || 
-- 
2.43.0


From 4666b0382e1c4b24e0e2921ad90057fdb1a7cb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:59 +0000
Subject: [PATCH 02/42] fix: ignore user-set SubIFD offset tags while encoding
 and don't swallow encoding errors

---
 src/ifd/mod.rs      |  7 +++++++
 src/metadata/mod.rs | 19 +++++++++----------
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/ifd/mod.rs b/src/ifd/mod.rs
index ca4fbf9..459aefe 100644
--- a/src/ifd/mod.rs
+++ b/src/ifd/mod.rs
@@ -493,7 +493,14 @@ ImageFileDirectory
 
         // Store all relevant tags (IFD tags + offset tags) in a temporary 
         // location and sort them there
+        // The value of a SubIFD offset tag is determined while encoding, so
+        // such tags are only relevant if they describe an existing SubIFD
         let mut all_relevant_tags = self.tags.clone();
+        all_relevant_tags.retain(|tag| 
+            !ExifTag::from_u16(tag.as_u16(), &self.ifd_type).is_ok_and(|known_tag|
+                matches!(known_tag.get_tag_type(), TagType::IFD_OFFSET(_))
+            )
+        );
         if let Some(ifd_with_offset_info_only) = ifds_with_offset_info_only
             .iter()
             .find(|ifd| 
diff --git a/src/metadata/mod.rs b/src/metadata/mod.rs
index 4e5ef43..529de51 100644
--- a/src/metadata/mod.rs
+++ b/src/metadata/mod.rs
@@ -192,22 +192,21 @@ Metadata
 
             let Some(last_ifd) = filter_result.last() else { continue; };
 
-            if let Ok((next_link_section, link_vec)) = last_ifd.encode_ifd(
+            let (next_link_section, link_vec) = last_ifd.encode_ifd(
                 self, 
                 &mut ifds_with_offset_info_only, 
                 &mut encode_vec, 
                 &mut current_offset
-            )
-            {
-                if let Some(index) = index_of_previous_ifds_link_section
-                {
-                    let mut cursor = Cursor::new(&mut encode_vec);
-                    cursor.set_position(index);
-                    cursor.write_all(&link_vec)?;
-                }
+            )?;
 
-                index_of_previous_ifds_link_section = Some(next_link_section);
+            if let Some(index) = index_of_previous_ifds_link_section
+            {
+                let mut cursor = Cursor::new(&mut encode_vec);
+                cursor.set_position(index);
+                cursor.write_all(&link_vec)?;
             }
+
+            index_of_previous_ifds_link_section = Some(next_link_section);
         }
 
         Ok(encode_vec)
-- 
2.43.0


From 6398a212c6d86dbb6386489911524422d94e91e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:02 +0000
Subject: [PATCH 03/42] fix: encode the actual number of components of a tag's
 value

---
 src/ifd/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ifd/mod.rs b/src/ifd/mod.rs
index 459aefe..595fc64 100644
--- a/src/ifd/mod.rs
+++ b/src/ifd/mod.rs
@@ -640,7 +640,9 @@ ImageFileDirectory
             encode_vec.extend(to_u8_vec_macro!(u16, &tag.format().as_u16(), &data.get_endian()).iter());
 
             // Add number of components /                                       4 bytes
-            let number_of_components: u32 = tag.number_of_components();
+            // Note: Needs to agree with the actual data, even if the
+            // specification predefines a (different) number for this tag
+            let number_of_components: u32 = value.len() as u32 / tag.format().bytes_per_component();
             encode_vec.extend(to_u8_vec_macro!(u32, &number_of_components, &data.get_endian()).iter());
 
             // Optional string padding (i.e. string is shorter than it should be)
-- 
2.43.0


From 99494f56d05bfad8232ef28f03ee293e57e19d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:43 +0000
Subject: [PATCH 04/42] fix: keep the exact value when decoding an unsigned
 rational for a signed rational tag

---
 src/exif_tag/decode.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/exif_tag/decode.rs b/src/exif_tag/decode.rs
index bdeb002..cfcb00b 100644
--- a/src/exif_tag/decode.rs
+++ b/src/exif_tag/decode.rs
@@ -124,8 +124,13 @@ decode_tag_with_format_exceptions
 			(ExifTagFormat::RATIONAL64S, ExifTagFormat::RATIONAL64U) => {
 				let uR64_data = <RATIONAL64U as U8conversion<RATIONAL64U>>::from_u8_vec(raw_data, endian);
 				let iR64_data = uR64_data
-					.into_iter().map(|x| x.into()).collect::<Vec<f64>>()
-					.into_iter().map(|x| x.into()).collect::<Vec<iR64>>();
+					.into_iter().map(|x| 
+						match (i32::try_from(x.nominator), i32::try_from(x.denominator))
+						{
+							(Ok(nominator), Ok(denominator)) => iR64 { nominator, denominator },
+							_                                => Into::<f64>::into(x).into(),
+						}
+					).collect::<Vec<iR64>>();
 
 				return raw_tag.set_value_to_iR64_vec(iR64_data).map_err(
 					|e| io_error_plain!(Other, format!("Could not decode tag {:?}: {}", raw_tag, e))
-- 
2.43.0


From a5c312457984cec899be99cb94f7f237a7ba15f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:46 +0000
Subject: [PATCH 05/42] fix: return an error instead of panicking on
 GPSAltitudeRef and INT8U values that can't be converted

---
 src/exif_tag/decode.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/exif_tag/decode.rs b/src/exif_tag/decode.rs
index cfcb00b..1ca3f55 100644
--- a/src/exif_tag/decode.rs
+++ b/src/exif_tag/decode.rs
@@ -74,8 +74,11 @@ decode_tag_with_format_exceptions
 				let int8u_data  = int16u_data.clone().into_iter().map(|x| x as u8).collect::<Vec<u8>>();
 				for (element_u16, element_u8) in int16u_data.iter().zip(int8u_data.iter())
 				{
-					// Assert that the int16u data is within int8u range
-					assert_eq!(*element_u16, *element_u8 as u16);
+					// Make sure that the int16u data is within int8u range
+					if *element_u16 != *element_u8 as u16
+					{
+						return io_error!(InvalidData, format!("Value {} of tag {:?} is not within INT8U range!", element_u16, raw_tag));
+					}
 				}
 				return raw_tag.set_value_to_int8u_vec(int8u_data).map_err(
 					|e| io_error_plain!(Other, format!("Could not decode tag {:?}: {}", raw_tag, e))
@@ -96,11 +99,11 @@ decode_tag_with_format_exceptions
 					// if it is 0x01 or 0x31 ("1") we set it to 1, and
 					// otherwise we panic and tell the user to open a ticket.
 
-					let first_char = raw_data[0];
+					let first_char = raw_data.first();
 					let int8u_data = match first_char
 					{
-						0x00 | 0x30 => vec![0u8],
-						0x01 | 0x31 => vec![1u8],
+						Some(0x00 | 0x30) => vec![0u8],
+						Some(0x01 | 0x31) => vec![1u8],
 						_ => io_error!(InvalidData, "Problem while decoding GPSAltitudeRef. Please open a new issue for little_exif!")?
 					};
 
-- 
2.43.0


From c15f38551bee4419681ddf20063bc8d41d7851f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:48 +0000
Subject: [PATCH 06/42] fix: check the available data before allocating memory
 for tag values, strips and thumbnails

---
 src/ifd/mod.rs | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/ifd/mod.rs b/src/ifd/mod.rs
index 595fc64..56c8171 100644
--- a/src/ifd/mod.rs
+++ b/src/ifd/mod.rs
@@ -29,6 +29,30 @@ use crate::u8conversion::U8conversion;
 const IFD_ENTRY_LENGTH: u32     = 12;
 const IFD_END_NO_LINK:  [u8; 4] = [0x00, 0x00, 0x00, 0x00];
 
+/// Reads exactly `length` many bytes from the current cursor position
+/// The length stems from the image file and may be larger than what is actually
+/// available, so this needs to be checked *before* allocating the memory.
+fn
+read_exact_vec
+(
+    data_cursor: &mut Cursor<&Vec<u8>>,
+    length:           u32
+)
+-> Result<Vec<u8>, std::io::Error>
+{
+    let available = (data_cursor.get_ref().len() as u64).saturating_sub(data_cursor.position());
+
+    if length as u64 > available
+    {
+        return io_error!(UnexpectedEof, format!("Not enough data! Required: {} Available: {}", length, available));
+    }
+
+    let mut buffer = vec![0u8; length as usize];
+    data_cursor.read_exact(&mut buffer)?;
+
+    return Ok(buffer);
+}
+
 /// The different types of Image File Directories (IFD). A generic IFD is one
 /// without further specialization, like e.g. IFD0. The generic IFDs start
 /// with IFD0, which is located via the offset at the start of the TIFF data. 
@@ -203,9 +227,7 @@ ImageFileDirectory
                 data_cursor.seek(std::io::SeekFrom::Current(hex_offset as i64))?;
 
                 // Read the raw data
-                let mut raw_data_buffer = vec![0u8; byte_count as usize];
-                data_cursor.read_exact(&mut raw_data_buffer)?;
-                raw_data = raw_data_buffer.to_vec();
+                raw_data = read_exact_vec(data_cursor, byte_count)?;
             
                 // Rewind the cursor to the start of the next entry
                 data_cursor.set_position(backup_position);
@@ -382,9 +404,7 @@ ImageFileDirectory
                     data_cursor.set_position(data_begin_position);
                     data_cursor.seek(std::io::SeekFrom::Current(*offset as i64))?;
 
-                    let mut data_buffer = vec![0u8; *byte_count as usize];
-                    data_cursor.read_exact(&mut data_buffer)?;
-                    strip_data.push(data_buffer);
+                    strip_data.push(read_exact_vec(data_cursor, *byte_count)?);
                 }
 
                 // Push StripOffset tag to tags vector
@@ -417,12 +437,10 @@ ImageFileDirectory
 
                 if offset.len() == 1 && length.len() == 1
                 {
-                    let mut thumbnail_data = vec![0u8; length[0] as usize];
-
                     // Gather the data at the offset
                     data_cursor.set_position(data_begin_position);
                     data_cursor.seek(std::io::SeekFrom::Current(offset[0] as i64))?;
-                    data_cursor.read_exact(&mut thumbnail_data)?;
+                    let thumbnail_data = read_exact_vec(data_cursor, length[0])?;
 
                     // Push ThumbnailOffset tag to tags vector
                     tags.push(ExifTag::ThumbnailOffset(Vec::new(), thumbnail_data));
-- 
2.43.0


From 909cad87a7da5fedfc2c986497f84bb2e44c3c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:51 +0000
Subject: [PATCH 07/42] fix: return an error for cyclic IFD links and duplicate
 SubIFDs instead of looping or panicking

---
 src/ifd/mod.rs      | 9 +++++++++
 src/metadata/mod.rs | 7 +++++++
 2 files changed, 16 insertions(+)

diff --git a/src/ifd/mod.rs b/src/ifd/mod.rs
index 56c8171..603acbc 100644
--- a/src/ifd/mod.rs
+++ b/src/ifd/mod.rs
@@ -280,6 +280,15 @@ ImageFileDirectory
             // If this is an IFD offset tag, perform a recursive call
             if let TagType::IFD_OFFSET(subifd_group) = tag.get_tag_type()
             {
+                // There may only be one SubIFD of each type per generic IFD
+                if insert_into.iter().any(|ifd|
+                    ifd.get_generic_ifd_nr() == generic_ifd_nr &&
+                    ifd.get_ifd_type()       == subifd_group
+                )
+                {
+                    return io_error!(InvalidData, format!("SubIFD {subifd_group:?} is linked more than once!"));
+                }
+
                 // Compute the offset to the SubIFD and save the current position
                 let offset          = from_u8_vec_res_macro!(u32, &raw_data, endian)? as usize;
                 let backup_position = data_cursor.position();
diff --git a/src/metadata/mod.rs b/src/metadata/mod.rs
index 529de51..984eef5 100644
--- a/src/metadata/mod.rs
+++ b/src/metadata/mod.rs
@@ -303,8 +303,15 @@ Metadata
         // Decode all the IFDs
         let mut ifds = Vec::new();
         let mut generic_ifd_nr = 0;
+        let mut visited_offsets = std::collections::HashSet::new();
         while let Some(ifd_offset) = ifd_offset_option
         {
+            // Make sure that the linked IFDs don't form a cycle
+            if !visited_offsets.insert(ifd_offset)
+            {
+                return io_error!(InvalidData, format!("IFD at offset {} is linked more than once!", ifd_offset));
+            }
+
             data_cursor.set_position(data_start_position);
             data_cursor.seek(std::io::SeekFrom::Current(ifd_offset as i64))?;
 
-- 
2.43.0


From 7e55c958356758b5338609dc5945948b43bca260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:15 +0000
Subject: [PATCH 08/42] fix: keep sign and saturate correctly when converting
 numbers to rationals

---
 src/rational.rs | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/rational.rs b/src/rational.rs
index 870aeed..27432af 100644
--- a/src/rational.rs
+++ b/src/rational.rs
@@ -83,10 +83,16 @@ f64_to_rational64s
 )
 -> iR64
 {
-    let best_approximation = f64_to_rational64u(real_number);
+    // The negative range is larger by one compared to the positive range
+    let max_nominator = if real_number < 0.0
+        { i32::MIN.unsigned_abs() }
+    else
+        { i32::MAX as u32 };
+
+    let best_approximation = approximate_with_rational(real_number, max_nominator);
     return iR64 {
         nominator: if real_number < 0.0 
-            { 0-best_approximation.nominator as i32 } 
+            { 0i32.wrapping_sub_unsigned(best_approximation.nominator) } 
         else 
             { best_approximation.nominator as i32 },
         denominator: best_approximation.denominator as i32
@@ -99,6 +105,20 @@ f64_to_rational64u
     real_number:     f64,
 )
 -> uR64
+{
+    return approximate_with_rational(real_number, u32::MAX);
+}
+
+/// Approximates the absolute value of the given number with a fraction where
+/// the nominator does not exceed the given maximum and the denominator does
+/// not exceed `i32::MAX`
+fn
+approximate_with_rational
+(
+    real_number:     f64,
+    max_nominator:   u32,
+)
+-> uR64
 {
     // Make sure that we are dealing with positive real numbers
     let real_number = real_number.abs();
@@ -110,9 +130,9 @@ f64_to_rational64u
     }
     
     // Check if real number is too large for us to handle
-    if real_number > u32::MAX as f64 - 0.5
+    if real_number > max_nominator as f64 - 0.5
     {
-        return uR64 { nominator: i32::MAX as u32, denominator: 1};
+        return uR64 { nominator: max_nominator, denominator: 1};
     }
 
     let mut reciprocal_residual     = real_number;
@@ -143,7 +163,7 @@ f64_to_rational64u
         if convergent.nominator > 0
         {
             n = std::cmp::min(
-                (u32::MAX - previous_convergent.nominator) / convergent.nominator, 
+                (max_nominator - previous_convergent.nominator) / convergent.nominator, 
                 n
             );	
         }
-- 
2.43.0


From 67908be5cecd04c0a66922f80a0b71baec19c14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:35 +0000
Subject: [PATCH 09/42] fix: return an error instead of panicking when a tag is
 built from ill-fitting bytes

---
 src/exif_tag/mod.rs | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/exif_tag/mod.rs b/src/exif_tag/mod.rs
index d11f305..16f1a14 100644
--- a/src/exif_tag/mod.rs
+++ b/src/exif_tag/mod.rs
@@ -174,32 +174,32 @@ macro_rules! build_tag_enum {
 				{
 					$(
 						($hex_value, ExifTagGroup::$group) => Ok(ExifTag::$tag(
-							<paste!{[<$format_enum>]} as U8conversion<paste!{[<$format_enum>]}>>::from_u8_vec(raw_data, endian)
+							<paste!{[<$format_enum>]} as U8conversion<paste!{[<$format_enum>]}>>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?
 						)),
 					)*
 
-					(0x0111, _) => Ok(ExifTag::StripOffsets(   <INT32U as U8conversion<INT32U>>::from_u8_vec(&raw_data, endian), Vec::new())),
-					(0x0117, _) => Ok(ExifTag::StripByteCounts(<INT32U as U8conversion<INT32U>>::from_u8_vec(&raw_data, endian),           )),
+					(0x0111, _) => Ok(ExifTag::StripOffsets(   <INT32U as U8conversion<INT32U>>::from_u8_vec_res(&raw_data, endian).map_err(|e| e.to_string())?, Vec::new())),
+					(0x0117, _) => Ok(ExifTag::StripByteCounts(<INT32U as U8conversion<INT32U>>::from_u8_vec_res(&raw_data, endian).map_err(|e| e.to_string())?,           )),
 
-					(0x0201, _) => Ok(ExifTag::ThumbnailOffset(<INT32U as U8conversion<INT32U>>::from_u8_vec(&raw_data, endian), Vec::new())),
-					(0x0202, _) => Ok(ExifTag::ThumbnailLength(<INT32U as U8conversion<INT32U>>::from_u8_vec(&raw_data, endian),           )),
+					(0x0201, _) => Ok(ExifTag::ThumbnailOffset(<INT32U as U8conversion<INT32U>>::from_u8_vec_res(&raw_data, endian).map_err(|e| e.to_string())?, Vec::new())),
+					(0x0202, _) => Ok(ExifTag::ThumbnailLength(<INT32U as U8conversion<INT32U>>::from_u8_vec_res(&raw_data, endian).map_err(|e| e.to_string())?,           )),
 
 					_ => {
 						// In this case, the given hex_value represents a tag that is unknown
 						match *format
 						{
-							ExifTagFormat::INT8U       => Ok(ExifTag::UnknownINT8U(      <INT8U       as U8conversion<INT8U      >>::from_u8_vec(raw_data, endian), hex_value, *group)),
-							ExifTagFormat::STRING      => Ok(ExifTag::UnknownSTRING(     <STRING      as U8conversion<STRING     >>::from_u8_vec(raw_data, endian), hex_value, *group)),
-							ExifTagFormat::INT16U      => Ok(ExifTag::UnknownINT16U(     <INT16U      as U8conversion<INT16U     >>::from_u8_vec(raw_data, endian), hex_value, *group)),
-							ExifTagFormat::INT32U      => Ok(ExifTag::UnknownINT32U(     <INT32U      as U8conversion<INT32U     >>::from_u8_vec(raw_data, endian), hex_value, *group)),
-							ExifTagFormat::RATIONAL64U => Ok(ExifTag::UnknownRATIONAL64U(<RATIONAL64U as U8conversion<RATIONAL64U>>::from_u8_vec(raw_data, endian), hex_value, *group)),
-							ExifTagFormat::INT8S       => Ok(ExifTag::UnknownINT8S(      <INT8S       as U8conversion<INT8S      >>::from_u8_vec(raw_data, endian), hex_value, *group)),
-							ExifTagFormat::UNDEF       => Ok(ExifTag::UnknownUNDEF(      <UNDEF       as U8conversion<UNDEF      >>::from_u8_vec(raw_data, endian), hex_value, *group)),
-							ExifTagFormat::INT16S      => Ok(ExifTag::UnknownINT16S(     <INT16S      as U8conversion<INT16S     >>::from_u8_vec(raw_data, endian), hex_value, *group)),
-							ExifTagFormat::INT32S      => Ok(ExifTag::UnknownINT32S(     <INT32S      as U8conversion<INT32S     >>::from_u8_vec(raw_data, endian), hex_value, *group)),
-							ExifTagFormat::RATIONAL64S => Ok(ExifTag::UnknownRATIONAL64S(<RATIONAL64S as U8conversion<RATIONAL64S>>::from_u8_vec(raw_data, endian), hex_value, *group)),
-							ExifTagFormat::FLOAT       => Ok(ExifTag::UnknownFLOAT(      <FLOAT       as U8conversion<FLOAT      >>::from_u8_vec(raw_data, endian), hex_value, *group)),
-							ExifTagFormat::DOUBLE      => Ok(ExifTag::UnknownDOUBLE(     <DOUBLE      as U8conversion<DOUBLE     >>::from_u8_vec(raw_data, endian), hex_value, *group)),
+							ExifTagFormat::INT8U       => Ok(ExifTag::UnknownINT8U(      <INT8U       as U8conversion<INT8U      >>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, hex_value, *group)),
+							ExifTagFormat::STRING      => Ok(ExifTag::UnknownSTRING(     <STRING      as U8conversion<STRING     >>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, hex_value, *group)),
+							ExifTagFormat::INT16U      => Ok(ExifTag::UnknownINT16U(     <INT16U      as U8conversion<INT16U     >>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, hex_value, *group)),
+							ExifTagFormat::INT32U      => Ok(ExifTag::UnknownINT32U(     <INT32U      as U8conversion<INT32U     >>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, hex_value, *group)),
+							ExifTagFormat::RATIONAL64U => Ok(ExifTag::UnknownRATIONAL64U(<RATIONAL64U as U8conversion<RATIONAL64U>>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, hex_value, *group)),
+							ExifTagFormat::INT8S       => Ok(ExifTag::UnknownINT8S(      <INT8S       as U8conversion<INT8S      >>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, hex_value, *group)),
+							ExifTagFormat::UNDEF       => Ok(ExifTag::UnknownUNDEF(      <UNDEF       as U8conversion<UNDEF      >>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, hex_value, *group)),
+							ExifTagFormat::INT16S      => Ok(ExifTag::UnknownINT16S(     <INT16S      as U8conversion<INT16S     >>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, hex_value, *group)),
+							ExifTagFormat::INT32S      => Ok(ExifTag::UnknownINT32S(     <INT32S      as U8conversion<INT32S     >>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, hex_value, *group)),
+							ExifTagFormat::RATIONAL64S => Ok(ExifTag::UnknownRATIONAL64S(<RATIONAL64S as U8conversion<RATIONAL64S>>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, hex_value, *group)),
+							ExifTagFormat::FLOAT       => Ok(ExifTag::UnknownFLOAT(      <FLOAT       as U8conversion<FLOAT      >>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, hex_value, *group)),
+							ExifTagFormat::DOUBLE      => Ok(ExifTag::UnknownDOUBLE(     <DOUBLE      as U8conversion<DOUBLE     >>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, hex_value, *group)),
 						}
 					},
 				}
-- 
2.43.0


From c0d0a52d18c8aa4bcbb4d9dc5de83bed9e2ac141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:20 +0000
Subject: [PATCH 10/42] fix: return an error when the EXIF data does not fit
 into a JPG APP1 segment

---
 src/jpg.rs                  | 14 +++++++++-----
 src/metadata/metadata_io.rs |  2 +-
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/jpg.rs b/src/jpg.rs
index 2ce0949..97022ed 100644
--- a/src/jpg.rs
+++ b/src/jpg.rs
@@ -27,14 +27,18 @@ encode_metadata_jpg
 (
     exif_vec: &[u8],
 )
--> Vec<u8>
+-> Result<Vec<u8>, std::io::Error>
 {
     // vector storing the data that will be returned
     let mut jpg_exif: Vec<u8> = Vec::new();
 
     // Compute the length of the exif data (includes the two bytes of the
     // actual length field)
-    let length = 2u16 + (EXIF_HEADER.len() as u16) + (exif_vec.len() as u16);
+    // A JPG segment can't hold more data than what fits in this 2 byte field
+    let Ok(length) = u16::try_from(2 + EXIF_HEADER.len() + exif_vec.len()) else
+    {
+        return io_error!(InvalidData, "EXIF data too large for a JPG APP1 segment!");
+    };
 
     // Start with the APP1 marker and the length of the data
     // Then copy the previously encoded EXIF data 
@@ -43,7 +47,7 @@ encode_metadata_jpg
     jpg_exif.extend(EXIF_HEADER.iter());
     jpg_exif.extend(exif_vec.iter());
 
-    return jpg_exif;
+    return Ok(jpg_exif);
 }
 
 
@@ -284,7 +288,7 @@ as_u8_vec
 (
     general_encoded_metadata: &[u8],
 )
--> Vec<u8>
+-> Result<Vec<u8>, std::io::Error>
 {
     encode_metadata_jpg(general_encoded_metadata)
 }
@@ -303,7 +307,7 @@ write_metadata
     clear_metadata(file_buffer)?;
 
     // Encode the data specifically for JPG
-    let mut encoded_metadata = encode_metadata_jpg(&metadata.encode()?);
+    let mut encoded_metadata = encode_metadata_jpg(&metadata.encode()?)?;
 
     // Insert the metadata right after the signature
     crate::util::insert_multiple_at(file_buffer, 2, &mut encoded_metadata);
diff --git a/src/metadata/metadata_io.rs b/src/metadata/metadata_io.rs
index 3051daf..06bb2bf 100644
--- a/src/metadata/metadata_io.rs
+++ b/src/metadata/metadata_io.rs
@@ -389,7 +389,7 @@ Metadata
             FileExtension::PNG { as_zTXt_chunk } 
                 =>  png::as_u8_vec(&general_encoded_metadata, as_zTXt_chunk),
             FileExtension::JPEG 
-                =>  jpg::as_u8_vec(&general_encoded_metadata),
+                =>  jpg::as_u8_vec(&general_encoded_metadata)?,
             FileExtension::WEBP 
                  => webp::as_u8_vec(&general_encoded_metadata),
             FileExtension::HEIF 
-- 
2.43.0


From b33c9f79339b758fa2d3bee764ac12494792c94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:24 +0000
Subject: [PATCH 11/42] fix: return an error for JPG segments with an
 impossible length when clearing

---
 src/jpg.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/jpg.rs b/src/jpg.rs
index 97022ed..1c69dd6 100644
--- a/src/jpg.rs
+++ b/src/jpg.rs
@@ -157,6 +157,11 @@ clear_segment
 
             // Decode the length to determine how much more data there is
             let length = from_u8_vec_res_macro!(u16, &length_buffer, &Endian::Big)?;
+            if length < 2
+            {
+                return io_error!(InvalidData, "Mangled JPG data encountered!");
+            }
+
             let remaining_length = (length - 2) as usize;
 
             if byte_buffer[0] == segment_marker                                 // Given marker, e.g. for APP1
-- 
2.43.0


From 371531c0e622b9b13dc75dc2849f4b21aabc155c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:54 +0000
Subject: [PATCH 12/42] fix: don't read the EXIF prefix beyond the end of a
 short JPG APP1 segment

---
 src/jpg.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/jpg.rs b/src/jpg.rs
index 1c69dd6..17b71e6 100644
--- a/src/jpg.rs
+++ b/src/jpg.rs
@@ -174,9 +174,13 @@ clear_segment
                 // If we are given prefix bytes to check for, read them in
                 if let Some(prefix) = prefix_bytes
                 {
-                    let mut prefix_buffer = vec![0u8; prefix.len()];
-                    cursor.read_exact(&mut prefix_buffer)?;
-                    cursor.seek(SeekFrom::Current(-(prefix_buffer.len() as i64)))?;
+                    // (a segment may be too short to contain the prefix)
+                    let segment_start = cursor.position();
+                    let mut prefix_buffer = Vec::new();
+                    Read::by_ref(&mut cursor)
+                        .take(std::cmp::min(prefix.len(), remaining_length) as u64)
+                        .read_to_end(&mut prefix_buffer)?;
+                    cursor.set_position(segment_start);
 
                     // We are given a prefix but don't know yet if it matches
                     // So set the override to true for now as we might have to
-- 
2.43.0


From 305c66e2534f24f54ac2685d682d30941641ea29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:57 +0000
Subject: [PATCH 13/42] fix: truncate the JPG file if it gets shorter by
 writing metadata

---
 src/jpg.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jpg.rs b/src/jpg.rs
index 17b71e6..84b11b3 100644
--- a/src/jpg.rs
+++ b/src/jpg.rs
@@ -348,8 +348,10 @@ file_write_metadata
     write_metadata(&mut file_buffer, metadata)?;
 
     // Seek back to start & write the file
+    // The new data may be shorter, so cut off what remains of the old data
     file.seek(SeekFrom::Start(0))?;
     file.write_all(&file_buffer)?;
+    file.set_len(file_buffer.len() as u64)?;
 
     return Ok(());
 }
-- 
2.43.0


From f874febb62e8bcfc8a14c8a8a5934ad3e7dedcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:00 +0000
Subject: [PATCH 14/42] fix: skip fill bytes in front of JPG markers

---
 src/jpg.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/jpg.rs b/src/jpg.rs
index 84b11b3..a2c58f5 100644
--- a/src/jpg.rs
+++ b/src/jpg.rs
@@ -142,6 +142,12 @@ clear_segment
 
         if previous_byte_was_marker_prefix
         {
+            // Any marker may be preceded by further 0xFF fill bytes
+            if byte_buffer[0] == JPG_MARKER_PREFIX
+            {
+                continue;
+            }
+
             // Check if this is the end of the file. In that case, the length
             // data can't be read and we need to return prematurely. 
             if byte_buffer[0] == 0xd9                                           // EOI marker
@@ -421,6 +427,11 @@ skip_ecs
                     // Do nothing
                 },
 
+                JPG_MARKER_PREFIX => {
+                    // Fill byte, the actual marker is yet to come
+                    continue;
+                },
+
                 _ => {
                     // Position back to where the 0xFF byte is located
                     cursor.seek(SeekFrom::Current(-2))?;
@@ -457,6 +468,12 @@ generic_read_metadata
 
         if previous_byte_was_marker_prefix
         {
+            // Any marker may be preceded by further 0xFF fill bytes
+            if byte_buffer[0] == JPG_MARKER_PREFIX
+            {
+                continue;
+            }
+
             // Check if this is the end of the file. In that case, the length
             // data can't be read and we need to return prematurely. 
             // This is why this case can't be included in the match afterwards.
-- 
2.43.0


From 4d86c11b93215595bb988ccbacfa8564fe211877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:03 +0000
Subject: [PATCH 15/42] fix: ignore JPG APP1 segments that don't contain EXIF
 data when reading

---
 src/jpg.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/jpg.rs b/src/jpg.rs
index a2c58f5..eb5808b 100644
--- a/src/jpg.rs
+++ b/src/jpg.rs
@@ -500,11 +500,15 @@ generic_read_metadata
             match byte_buffer[0]
             {
                 0xe1 => {                                                       // APP1 marker
-                    // Read in & return the remaining data
+                    // Read in & return the remaining data if it is EXIF data
                     let mut app1_buffer = vec![0u8; remaining_length];
                     cursor.read_exact(&mut app1_buffer)?;
 
-                    return Ok(app1_buffer);
+                    // APP1 is also used for other data, e.g. XMP
+                    if app1_buffer.starts_with(&EXIF_HEADER)
+                    {
+                        return Ok(app1_buffer);
+                    }
                 },
 
                 0xda => {                                                       // SOS marker
-- 
2.43.0


From 419cc5f516150f1abc4122a5c56a25ab531abf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:29 +0000
Subject: [PATCH 16/42] fix: don't leave a half-modified image behind when
 writing or clearing metadata in a vector fails

---
 src/metadata/metadata_io.rs | 47 ++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/src/metadata/metadata_io.rs b/src/metadata/metadata_io.rs
index 06bb2bf..f61a220 100644
--- a/src/metadata/metadata_io.rs
+++ b/src/metadata/metadata_io.rs
@@ -18,6 +18,25 @@ use crate::webp;
 
 use super::Metadata;
 
+/// Runs an operation that modifies the given image on a copy and only keeps the
+/// result if that was successful, so an error leaves the image as it was before
+fn
+modify_or_keep
+<F>
+(
+    file_buffer: &mut Vec<u8>,
+    operation:   F
+)
+-> Result<(), std::io::Error>
+where F: FnOnce(&mut Vec<u8>) -> Result<(), std::io::Error>
+{
+    let mut modified_buffer = file_buffer.clone();
+    operation(&mut modified_buffer)?;
+    *file_buffer = modified_buffer;
+
+    return Ok(());
+}
+
 impl
 Metadata
 {
@@ -195,17 +214,17 @@ Metadata
         match file_type
         {
             FileExtension::HEIF
-                => heif::clear_metadata(file_buffer),
+                => modify_or_keep(file_buffer, heif::clear_metadata),
             FileExtension::JPEG 
-                =>  jpg::clear_metadata(file_buffer),
+                => modify_or_keep(file_buffer, jpg::clear_metadata),
             FileExtension::JXL
-                =>  jxl::clear_metadata(file_buffer),
+                => modify_or_keep(file_buffer, jxl::clear_metadata),
             FileExtension::PNG { as_zTXt_chunk: _ }
-                =>  png::clear_metadata(file_buffer),
+                => modify_or_keep(file_buffer, png::clear_metadata),
             FileExtension::TIFF
-                => tiff::vec::clear_metadata(file_buffer),
+                => modify_or_keep(file_buffer, tiff::vec::clear_metadata),
             FileExtension::WEBP
-                => webp::vec::clear_metadata(file_buffer),
+                => modify_or_keep(file_buffer, webp::vec::clear_metadata),
             _
                 => return io_error!(
                     Other, 
@@ -233,7 +252,7 @@ Metadata
         match file_type
         {
             FileExtension::JPEG 
-                =>  jpg::clear_segment(file_buffer, 0xec, None),
+                => modify_or_keep(file_buffer, |buffer| jpg::clear_segment(buffer, 0xec, None)),
             _
                 => return io_error!(
                     Other, 
@@ -261,7 +280,7 @@ Metadata
         match file_type
         {
             FileExtension::JPEG 
-                =>  jpg::clear_segment(file_buffer, 0xed, None),
+                => modify_or_keep(file_buffer, |buffer| jpg::clear_segment(buffer, 0xed, None)),
             _
                 => return io_error!(
                     Other, 
@@ -421,17 +440,17 @@ Metadata
         match file_type
         {
             FileExtension::HEIF
-                => heif::write_metadata(file_buffer, self),
+                => modify_or_keep(file_buffer, |buffer| heif::write_metadata(buffer, self)),
             FileExtension::JPEG 
-                =>  jpg::write_metadata(file_buffer, self),
+                => modify_or_keep(file_buffer, |buffer| jpg::write_metadata(buffer, self)),
             FileExtension::JXL 
-                =>  jxl::write_metadata(file_buffer, self),
+                => modify_or_keep(file_buffer, |buffer| jxl::write_metadata(buffer, self)),
             FileExtension::PNG { as_zTXt_chunk: _ }
-                =>  png::write_metadata(file_buffer, self),
+                => modify_or_keep(file_buffer, |buffer| png::write_metadata(buffer, self)),
             FileExtension::TIFF
-                => tiff::vec::write_metadata(file_buffer, self),
+                => modify_or_keep(file_buffer, |buffer| tiff::vec::write_metadata(buffer, self)),
             FileExtension::WEBP
-                => webp::vec::write_metadata(file_buffer, self),
+                => modify_or_keep(file_buffer, |buffer| webp::vec::write_metadata(buffer, self)),
             _
                 => return io_error!(
                     Other, 
-- 
2.43.0


From 22dd982b991dc6262c834becf86a767e5e0559d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:31 +0000
Subject: [PATCH 17/42] fix: remove left over old data when a TIFF gets shorter
 by writing or clearing metadata

---
 src/tiff/file.rs | 28 +++++++++++++++++++++++-----
 src/tiff/vec.rs  | 16 ++++++++++++++--
 2 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/src/tiff/file.rs b/src/tiff/file.rs
index 0066f7c..db5c3ae 100644
--- a/src/tiff/file.rs
+++ b/src/tiff/file.rs
@@ -3,6 +3,8 @@
 
 use std::io::BufReader;
 use std::io::BufWriter;
+use std::io::Seek;
+use std::io::Write;
 use std::path::Path;
 
 use crate::general_file_io::open_read_file;
@@ -38,9 +40,7 @@ clear_metadata
 	data.reduce_to_a_minimum();
 
 	// Write the reduced data back to the backup cursor
-	generic_write_metadata(&mut BufWriter::new(open_write_file(path)?), &data)?;
-
-	return Ok(());
+	return overwrite_file(path, &data);
 }
 
 pub(crate) fn 
@@ -50,7 +50,25 @@ write_metadata
 	metadata: &Metadata
 )
 -> Result<(), std::io::Error>
+{
+	return overwrite_file(path, metadata);
+}
+
+fn
+overwrite_file
+(
+	path:     &Path,
+	metadata: &Metadata
+)
+-> Result<(), std::io::Error>
 {
 	let mut buffered_file = BufWriter::new(open_write_file(path)?);
-	return generic_write_metadata(&mut buffered_file, metadata);
-}
\ No newline at end of file
+	generic_write_metadata(&mut buffered_file, metadata)?;
+
+	// Cut off what remains of the old data if the new data is shorter
+	buffered_file.flush()?;
+	let new_length = buffered_file.stream_position()?;
+	buffered_file.get_ref().set_len(new_length)?;
+
+	return Ok(());
+}
diff --git a/src/tiff/vec.rs b/src/tiff/vec.rs
index 09ac912..c6470d1 100644
--- a/src/tiff/vec.rs
+++ b/src/tiff/vec.rs
@@ -39,7 +39,13 @@ clear_metadata
 
 	// Write the reduced data back to the backup cursor
 	cursor.set_position(cursor_start_pos);
-	return generic_write_metadata(&mut cursor, &data);
+	generic_write_metadata(&mut cursor, &data)?;
+
+	// Cut off what remains of the old data if the new data is shorter
+	let new_length = cursor.position() as usize;
+	cursor.into_inner().truncate(new_length);
+
+	return Ok(());
 }
 
 pub(crate) fn
@@ -51,5 +57,11 @@ write_metadata
 -> Result<(), std::io::Error>
 {
 	let mut cursor = Cursor::new(file_buffer);
-	return generic_write_metadata(&mut cursor, metadata);
+	generic_write_metadata(&mut cursor, metadata)?;
+
+	// Cut off what remains of the old data if the new data is shorter
+	let new_length = cursor.position() as usize;
+	cursor.into_inner().truncate(new_length);
+
+	return Ok(());
 }
\ No newline at end of file
-- 
2.43.0


From 405dbeca5f822cc5bd6bf705ff413033d56ebb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:27 +0000
Subject: [PATCH 18/42] fix: handle JXL boxes with special or invalid sizes
 instead of panicking, looping forever or misreading them

---
 src/jxl.rs | 275 ++++++++++++++++++++++-------------------------------
 1 file changed, 115 insertions(+), 160 deletions(-)

diff --git a/src/jxl.rs b/src/jxl.rs
index ee028e6..861c9b1 100644
--- a/src/jxl.rs
+++ b/src/jxl.rs
@@ -1,7 +1,6 @@
 // Copyright © 2024-2026 Tobias J. Prisching <tobias.prisching@icloud.com> and CONTRIBUTORS
 // See https://github.com/TechnikTobi/little_exif#license for licensing details
 
-use std::fs::File;
 use std::io::Cursor;
 use std::io::Read;
 use std::io::Seek;
@@ -101,30 +100,67 @@ check_signature
     return Ok(());
 }
 
+/// The position of a box in a JXL file and where its data is located
+struct JxlBox
+{
+    box_type:   [u8; 4],
+    start:      u64,
+    data_start: u64,
+    end:        u64,
+}
+
+impl JxlBox
+{
+    fn data_length(&self) -> usize
+    {
+        (self.end - self.data_start) as usize
+    }
+}
+
+/// Reads the header of the box at the current cursor position. 
+/// Afterwards, the cursor is positioned at the start of the data of the box.
+/// Takes care of the special values for the 4 byte length field:
+/// - 0: The box extends to the end of the file
+/// - 1: The actual length is given by an 8 byte field after the box type
 fn
-file_check_signature
+read_box_header
+<T: Seek + Read>
 (
-    path: &Path
+    cursor: &mut T
 )
--> Result<File, std::io::Error>
+-> Result<JxlBox, std::io::Error>
 {
-    let mut file = open_write_file(path)?;
+    let start       = cursor.stream_position()?;
+    let file_length = cursor.seek(SeekFrom::End(0))?;
+    cursor.seek(SeekFrom::Start(start))?;
 
-    let mut signature_buffer = [0u8; 12];
-    let bytes_read = file.read(&mut signature_buffer)?;
+    let mut length_buffer = [0u8; 4];
+    cursor.read_exact(&mut length_buffer)?;
 
-    if bytes_read != 12
+    let mut box_type = [0u8; 4];
+    cursor.read_exact(&mut box_type)?;
+
+    let end = match u32::from_be_bytes(length_buffer)
+    {
+        0 => Some(file_length),
+        1 => {
+            let mut large_length_buffer = [0u8; 8];
+            cursor.read_exact(&mut large_length_buffer)?;
+            start.checked_add(u64::from_be_bytes(large_length_buffer))
+        },
+        length => start.checked_add(length as u64)
+    };
+
+    let data_start = cursor.stream_position()?;
+
+    match end
     {
-        return io_error!(InvalidData, "Can't open JXL file - Can't read signature!");
+        Some(end) if data_start <= end && end <= file_length 
+            => Ok(JxlBox { box_type, start, data_start, end }),
+        _   => io_error!(InvalidData, "Invalid box length found in JXL file!")
     }
-
-    check_signature(&signature_buffer)?;
-
-    return Ok(file);
 }
 
-
-
 pub(crate) fn
 clear_metadata
 (
@@ -140,27 +176,21 @@ clear_metadata
     {
         if position >= file_buffer.len() { return Ok(()); }
 
-        // Get the first 4 bytes at the current cursor position to determine
-        // the length of the current box 
-        let length_buffer = file_buffer[position..position+4].to_vec();
-        let length        = from_u8_vec_res_macro!(u32, &length_buffer, &Endian::Big)? as usize;
+        let mut cursor = Cursor::new(&*file_buffer);
+        cursor.set_position(position as u64);
 
-        // Next, read the box type
-        let type_buffer = file_buffer[position+4..position+8].to_vec();
+        let jxl_box      = read_box_header(&mut cursor)?;
+        let box_end      = jxl_box.end as usize;
+        let contains_exif = box_contains_exif(&mut cursor, &jxl_box)?;
 
-        if box_contains_exif(
-            &mut Cursor::new(
-                file_buffer[position+8..position+12].to_vec()
-            ), 
-            [type_buffer[0], type_buffer[1], type_buffer[2], type_buffer[3]]
-        )?
+        if contains_exif
         {
-            range_remove(file_buffer, position, position+length);
+            range_remove(file_buffer, position, box_end);
         }
         else
         {
             // Not an EXIF box so skip it
-            position += length;
+            position = box_end;
         }
     }
 }
@@ -172,50 +202,20 @@ file_clear_metadata
 )
 -> Result<(), std::io::Error>
 {
-    let mut file = file_check_signature(path)?;
-
-    let mut length_buffer = [0u8; 4];
-    let mut type_buffer   = [0u8; 4];
-
-    loop
-    {
-        let position        = file.stream_position()?;
-        let old_file_length = file.metadata()?.len();
-        if position >= old_file_length { return Ok(()); }
-
-        file.read_exact(&mut length_buffer)?;
-        file.read_exact(&mut type_buffer)?;
-
-        let length = from_u8_vec_res_macro!(u32, &length_buffer, &Endian::Big)? as usize;
-
-        if box_contains_exif(&mut file, type_buffer)?
-        {
-            // Seek past the EXIF box ...
-            file.seek(SeekFrom::Current((length-8) as i64))?;
-
-
-            // ... copy everything from here onwards into a buffer ...
-            let mut buffer = Vec::new();
-            file.read_to_end(&mut buffer)?;
+    // Load the entire file into memory instead of performing multiple read, 
+    // seek and write operations
+    let mut file = open_write_file(path)?;
+    let mut file_buffer: Vec<u8> = Vec::new();
+    file.read_to_end(&mut file_buffer)?;
 
-            // ... seek back to the start of the EXIF box ...
-            file.seek(std::io::SeekFrom::Start(position))?;
+    clear_metadata(&mut file_buffer)?;
 
-            // ... overwrite everything from here onward ...
-            file.write_all(&buffer)?;
-            file.seek(std::io::SeekFrom::Start(position))?;
+    // Seek back to start, write the file and adjust its length
+    file.seek(SeekFrom::Start(0))?;
+    file.write_all(&file_buffer)?;
+    file.set_len(file_buffer.len() as u64)?;
 
-            // ... and finally update the file size - otherwise there will be
-            // duplicate bytes at the end!
-            file.set_len(old_file_length - length as u64)?;
-        }
-        else
-        {
-            // Not an EXIF box so skip it
-            assert_eq!(position+8, file.stream_position()?);
-            file.seek(SeekFrom::Current((length-8) as i64))?;
-        }
-    }
+    return Ok(());
 }
 
 
@@ -244,16 +244,18 @@ fn
 box_contains_exif
 <T: Seek + Read>
 (
-    cursor:      &mut T,
-    type_buffer:  [u8; 4],
+    cursor:  &mut T,
+    jxl_box: &JxlBox,
 )
 -> Result<bool, std::io::Error>
 {
-    if type_buffer == EXIF
+    if jxl_box.box_type == EXIF
     {
         return Ok(true);
     }
-    if type_buffer == BROB_BOX && check_brob_type_for_exif(cursor)?
+    if jxl_box.box_type == BROB_BOX 
+        && jxl_box.data_length() >= 4 
+        && check_brob_type_for_exif(cursor)?
     {
         return Ok(true);
     }
@@ -310,76 +312,38 @@ generic_read_metadata
 {
     loop
     {
-        // Get the first 4 bytes at the current cursor position to determine
-        // the length of the current box (and account for the 8 bytes of length
-        // and box type)
-        let mut length_buffer = [0u8; 4];
-        cursor.read_exact(&mut length_buffer)?;
-        let length = from_u8_vec_res_macro!(u32, &length_buffer, &Endian::Big)?.checked_sub(8).ok_or(
-            std::io::Error::new(
-                std::io::ErrorKind::InvalidData,
-                "Invalid box length found when reading JXL metadata!"
-            )
-        )?;
-
-        // Next, read the box type
-        let mut type_buffer = [0u8; 4];
-        cursor.read_exact(&mut type_buffer)?;
-
-        match type_buffer
+        let jxl_box = read_box_header(cursor)?;
+
+        if !box_contains_exif(cursor, &jxl_box)?
         {
-            EXIF => {
-                // Skip the next 4 bytes (which contain the minor version???)
-                cursor.seek(SeekFrom::Current(4))?;
-
-                // `length-4` because of the previous relative seek operation
-                let mut exif_buffer = vec![0u8; (length-4) as usize];
-                cursor.read_exact(&mut exif_buffer)?;
-
-                return Ok(exif_buffer);
-            },
-
-            BROB_BOX => { // -> Brotli encoded data
-
-                let position = cursor.stream_position()? as usize;
-
-                if check_brob_type_for_exif(cursor)?
-                {
-                    // Skip the next 4 bytes (which contain the minor version???)
-                    cursor.seek(SeekFrom::Current(4))?;
-
-                    let mut compressed_exif_buffer = vec![
-                        0u8; 
-                        (length-4) as usize
-                    ];
-                    cursor.read_exact(&mut compressed_exif_buffer)?;
-                    
-                    let mut decompressed_exif_buffer = Vec::new();
-
-                    match brotli::BrotliDecompress(
-                        &mut Cursor::new(compressed_exif_buffer), 
-                        &mut decompressed_exif_buffer
-                    ) 
-                    {
-                        Ok(_)  => (),
-                        Err(e) => return Err(e)
-                    };
-
-                    // Ignore the next 4 bytes (I guess for the same reason 
-                    // as above - some sort of minor version?)
-                    return Ok(decompressed_exif_buffer[4..].to_vec());
-                }
-                else 
-                {
-                    cursor.seek(SeekFrom::Start(position as u64 + length as u64))?;
-                }
-            }
+            // Not an EXIF box so skip it
+            cursor.seek(SeekFrom::Start(jxl_box.end))?;
+            continue;
+        }
 
-            _ => {
-                // Not an EXIF box so skip it
-                cursor.seek(SeekFrom::Current(length as i64))?;
-            }
+        let mut exif_buffer = vec![0u8; jxl_box.data_length()];
+        cursor.read_exact(&mut exif_buffer)?;
+
+        if jxl_box.box_type == BROB_BOX // -> Brotli encoded data
+        {
+            let mut decompressed_exif_buffer = Vec::new();
+
+            // Skip the first 4 bytes (type of the compressed box)
+            brotli::BrotliDecompress(
+                &mut Cursor::new(&exif_buffer[4..]), 
+                &mut decompressed_exif_buffer
+            )?;
+
+            exif_buffer = decompressed_exif_buffer;
         }
+
+        // Skip the next 4 bytes (which contain the minor version???)
+        if exif_buffer.len() < 4
+        {
+            return io_error!(InvalidData, "JXL EXIF box is too short!");
+        }
+
+        return Ok(exif_buffer.split_off(4));
     }
 }
 
@@ -419,31 +383,22 @@ find_insert_position
 
     loop
     {
-        // Get the first 4 bytes at the current cursor position to determine
-        // the length of the current box (and account for the 8 bytes of length
-        // and box type)
-        let mut length_buffer = [0u8; 4];
-        cursor.read_exact(&mut length_buffer)?;
-        let length = from_u8_vec_res_macro!(u32, &length_buffer, &Endian::Big)?.checked_sub(8).ok_or(
-            std::io::Error::new(
-                std::io::ErrorKind::InvalidData,
-                "Invalid box length found when reading JXL metadata!"
-            )
-        )? as usize;
-
-        // Next, read the box type
-        let mut type_buffer = [0u8; 4];
-        cursor.read_exact(&mut type_buffer)?;
-
-        match type_buffer
+        if cursor.position() as usize >= file_buffer.len()
+        {
+            return Ok(file_buffer.len());
+        }
+
+        let jxl_box = read_box_header(&mut cursor)?;
+
+        match jxl_box.box_type
         {
             IsoBmffBoxType::JXL |
             IsoBmffBoxType::FTYP => {
                 // Place exif box after these boxes
-                cursor.seek(SeekFrom::Current(length as i64))?;
+                cursor.set_position(jxl_box.end);
             }
             _ => {
-                return Ok(cursor.position() as usize - 8);
+                return Ok(jxl_box.start as usize);
             }
         }
     }
-- 
2.43.0


From f73e0019a0f83abf3640a5311930a5a872c6546a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:10 +0000
Subject: [PATCH 19/42] fix: honour the TIFF header offset of JXL EXIF boxes

---
 src/jxl.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/jxl.rs b/src/jxl.rs
index 861c9b1..ec8c0a5 100644
--- a/src/jxl.rs
+++ b/src/jxl.rs
@@ -337,13 +337,19 @@ generic_read_metadata
             exif_buffer = decompressed_exif_buffer;
         }
 
-        // Skip the next 4 bytes (which contain the minor version???)
+        // The first 4 bytes tell where the TIFF header starts after them
         if exif_buffer.len() < 4
         {
             return io_error!(InvalidData, "JXL EXIF box is too short!");
         }
 
-        return Ok(exif_buffer.split_off(4));
+        let tiff_header_offset = from_u8_vec_res_macro!(u32, &exif_buffer[0..4], &Endian::Big)? as usize;
+        if tiff_header_offset > exif_buffer.len() - 4
+        {
+            return io_error!(InvalidData, "Invalid TIFF header offset in JXL EXIF box!");
+        }
+
+        return Ok(exif_buffer.split_off(4 + tiff_header_offset));
     }
 }
 
-- 
2.43.0


From 7d1cceb6193548d7501260b1d60ae342305d8c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:12 +0000
Subject: [PATCH 20/42] fix: truncate the JXL file if it gets shorter by
 writing metadata

---
 src/jxl.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jxl.rs b/src/jxl.rs
index ec8c0a5..0b0ef46 100644
--- a/src/jxl.rs
+++ b/src/jxl.rs
@@ -470,9 +470,10 @@ file_write_metadata
     // specific encoding, so we pass only the generally encoded metadata here
     write_metadata(&mut file_buffer, metadata)?;
 
-    // Seek back to start & write the file
+    // Seek back to start, write the file and adjust its length
     file.seek(SeekFrom::Start(0))?;
     file.write_all(&file_buffer)?;
+    file.set_len(file_buffer.len() as u64)?;
 
     return Ok(());
 }
\ No newline at end of file
-- 
2.43.0


From 7ed0bd5e81837f0bfcc4beda6c2c6889cba383d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:15 +0000
Subject: [PATCH 21/42] fix: clearing a simple JXL codestream succeeds as there
 is nothing to clear

---
 src/jxl.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/jxl.rs b/src/jxl.rs
index 0b0ef46..a3a230b 100644
--- a/src/jxl.rs
+++ b/src/jxl.rs
@@ -168,6 +168,12 @@ clear_metadata
 )
 -> Result<(), std::io::Error>
 {
+    // A simple codestream can't hold any metadata, so there is nothing to clear
+    if starts_with_jxl_signature(file_buffer)
+    {
+        return Ok(());
+    }
+
     check_signature(file_buffer)?;
 
     let mut position = 0;
-- 
2.43.0


From 0e6d0c53fcca1c3c91e5a2154eb6cf581cf0f517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:18 +0000
Subject: [PATCH 22/42] fix: WebP chunk handling - correct VP8L dimensions and
 alpha flag, VP8 conversion in vectors, clear the right chunks, keep odd
 sizes, no panics; files use the same code as vectors

---
 src/webp/file.rs | 699 ++---------------------------------------------
 src/webp/mod.rs  |  36 +--
 src/webp/vec.rs  | 352 ++++++++----------------
 3 files changed, 153 insertions(+), 934 deletions(-)

diff --git a/src/webp/file.rs b/src/webp/file.rs
index 371c678..c632817 100644
--- a/src/webp/file.rs
+++ b/src/webp/file.rs
@@ -1,255 +1,52 @@
 // Copyright © 2024-2026 Tobias J. Prisching <tobias.prisching@icloud.com> and CONTRIBUTORS
 // See https://github.com/TechnikTobi/little_exif#license for licensing details
 
-use std::fs::File;
 use std::io::Read;
-use std::io::Write;
 use std::io::Seek;
 use std::io::SeekFrom;
+use std::io::Write;
 use std::path::Path;
 
-use crate::endian::*;
+use crate::general_file_io::open_read_file;
+use crate::general_file_io::open_write_file;
 use crate::metadata::Metadata;
-use crate::u8conversion::*;
-use crate::general_file_io::*;
-use super::riff_chunk::RiffChunk;
-use super::riff_chunk::RiffChunkDescriptor;
-use super::*;
 
-/// A WebP file starts as follows
-/// - The RIFF signature: ASCII characters "R", "I", "F", "F"  -> 4 bytes
-/// - The file size starting at offset 8                       -> 4 bytes
-/// - The WEBP signature: ASCII characters "W", "E", "B", "P"  -> 4 bytes
-/// 
-/// This function checks these 3 sections and their correctness after making
-/// sure that the file actually exists and can be opened. 
-/// Finally, the file struct is returned for further processing
+/// Reads in the entire file at the given path
 fn
-check_signature
+read_file
 (
     path: &Path
 )
--> Result<File, std::io::Error>
+-> Result<Vec<u8>, std::io::Error>
 {
-    let mut file = open_write_file(path)?;
-
-    // Get the first 12 bytes that are required for the following checks
-    let mut first_12_bytes = [0u8; 12];
-    let     bytes_read     = file.read(&mut first_12_bytes)?;
-
-    if bytes_read != 12
-    {
-        return io_error!(InvalidData, "Can't open WebP file - Can't read & check signature!");
-    }
-
-    let first_12_bytes_vec = first_12_bytes.to_vec();
-    
-    // Perform checks
-    check_riff_signature(&first_12_bytes_vec             )?;
-    check_byte_count(    &first_12_bytes_vec, Some(&file))?;
-    check_webp_signature(&first_12_bytes_vec             )?;
-
-    // Signature is valid - can proceed using the file as WebP file
-    return Ok(file);
+    let mut file_buffer = Vec::new();
+    open_read_file(path)?.read_to_end(&mut file_buffer)?;
+    return Ok(file_buffer);
 }
 
 
 
-/// Gets the next RIFF chunk, starting at the current file cursor
-/// Advances the cursor to the start of the next chunk
+/// Applies the given modification to the contents of the file at the given 
+/// path. In case the modification fails the file is left as it was.
 fn
-get_next_chunk
-<T: Seek + Read>
+modify_file
 (
-    file: &mut T
+    path:   &Path,
+    modify: impl FnOnce(&mut Vec<u8>) -> Result<(), std::io::Error>
 )
--> Result<RiffChunk, std::io::Error>
-{
-    // Read the start of the chunk
-    let mut chunk_start = [0u8; 8];
-    let mut bytes_read = file.read(&mut chunk_start)?;
-
-    // Check that indeed 8 bytes were read
-    if bytes_read != 8
-    {
-        return io_error!(UnexpectedEof, "Could not read start of chunk");
-    }
-
-    // Construct name of chunk and its length
-    let chunk_name = String::from_utf8(chunk_start[0..4].to_vec());
-    let mut chunk_length = from_u8_vec_res_macro!(u32, &chunk_start[4..8], &Endian::Little)?;
-
-    // Account for the possible padding byte
-    chunk_length += chunk_length % 2;
-
-    // Read RIFF chunk data
-    let mut chunk_data_buffer = vec![0u8; chunk_length as usize];
-    bytes_read = file.read(&mut chunk_data_buffer)?;
-    if bytes_read != chunk_length as usize
-    {
-        return io_error!(
-            Other, 
-            format!("Could not read RIFF chunk data! Expected {chunk_length} bytes but read {bytes_read}")
-        );
-    }
-
-    if let Ok(parsed_chunk_name) = chunk_name
-    {
-        return Ok(RiffChunk::new(
-            parsed_chunk_name as String, 
-            chunk_length      as usize,
-            chunk_data_buffer as Vec<u8>
-        ));
-    }
-    else
-    {
-        return io_error!(Other, "Could not parse RIFF fourCC chunk name!");
-    }
-}
-
-
-
-/// Gets a descriptor of the next RIFF chunk, starting at the current file
-/// cursor position. Advances the cursor to the start of the next chunk
-/// Relies on `get_next_chunk` by basically calling that function and throwing
-/// away the actual payload
-fn
-get_next_chunk_descriptor
-<T: Seek + Read>
-(
-    file: &mut T
-)
--> Result<RiffChunkDescriptor, std::io::Error>
-{
-    let next_chunk_result = get_next_chunk(file)?;
-    return Ok(next_chunk_result.descriptor());
-}
-
-
-
-/// "Parses" the WebP file by checking various properties:
-/// - Can the file be opened and is the signature valid, including the file size?
-/// - Are the chunks and their size descriptions OK? Relies on the local subroutine `get_next_chunk_descriptor`
-pub(crate) fn
-parse_webp
-(
-    path: &Path
-)
--> Result<Vec<RiffChunkDescriptor>, std::io::Error>
-{
-    let mut file   = check_signature(path)?;
-    let mut chunks = Vec::new();
-
-    // The amount of data we expect to read while parsing the chunks
-    let expected_length = file.metadata()?.len();
-
-    // How much data we have parsed so far.
-    // Starts with 12 bytes: 
-    // - 4 bytes for RIFF signature
-    // - 4 bytes for file size
-    // - 4 bytes for WEBP signature
-    // These bytes are already read in by the `check_signature` subroutine
-    let mut parsed_length = 12u64;
-
-    loop
-    {
-        let next_chunk_descriptor_result = get_next_chunk_descriptor(&mut file);
-        if let Ok(chunk_descriptor) = next_chunk_descriptor_result
-        {
-            // The parsed length increases by the length of the chunk's 
-            // header (4 byte) + it's size section (4 byte) and the payload
-            // size, which is noted by the aforementioned size section
-            parsed_length += 4u64 + 4u64 + chunk_descriptor.len() as u64;
-
-            // Add the chunk descriptor
-            chunks.push(chunk_descriptor);
-            
-            if parsed_length == expected_length
-            {
-                // In this case we don't expect any more data to be in the file
-                break;
-            }
-        }
-        else
-        {
-            // This is the case when the read of the next chunk descriptor 
-            // fails due to not being able to fetch 8 bytes for the header and
-            // chunk size information, indicating that there is no further data
-            // in the file and we are done with parsing.
-            // If the subroutine fails due to other reasons, the error gets
-            // propagated further.
-            if let Err(e) = next_chunk_descriptor_result
-            {
-                if e.kind() == std::io::ErrorKind::UnexpectedEof
-                {
-                    break;
-                }
-                else
-                {
-                    return Err(e);
-                }
-            }
-        }
-    }
-
-    return Ok(chunks);
-}
-
-
-
-fn
-check_exif_in_file
-(
-    path: &Path
-)
--> Result<(File, Vec<RiffChunkDescriptor>), std::io::Error>
+-> Result<(), std::io::Error>
 {
-    // Parse the WebP file - if this fails, we surely can't read any metadata
-    let parsed_webp_result = parse_webp(path)?;
+    let mut file        = open_write_file(path)?;
+    let mut file_buffer = Vec::new();
+    file.read_to_end(&mut file_buffer)?;
 
-    // Next, check if this is an Extended File Format WebP file
-    // In this case, the first Chunk SHOULD have the type "VP8X"
-    // Otherwise, the file is either invalid ("VP8X" at wrong location) or a 
-    // Simple File Format WebP file which don't contain any EXIF metadata.
-    if let Some(first_chunk) = parsed_webp_result.first()
-    {
-        // Compare the chunk descriptor header.
-        if first_chunk.header().to_lowercase() != VP8X_HEADER.to_lowercase()
-        {
-            return io_error!(
-                Other, 
-                format!("Expected first chunk of WebP file to be of type 'VP8X' but instead got {}!", first_chunk.header())
-            );
-        }
-    }
-    else
-    {
-        return io_error!(Other, "Could not read first chunk descriptor of WebP file!");
-    }
+    modify(&mut file_buffer)?;
 
-    // Finally, check the flag by opening up the file and reading the data of
-    // the VP8X chunk
-    // Regarding the seek:
-    // - RIFF + file size + WEBP -> 12 byte
-    // - VP8X header             ->  4 byte
-    // - VP8X chunk size         ->  4 byte
-    let mut file = check_signature(path)?;
-    let mut flag_buffer = vec![0u8; 4usize];
-    file.seek(SeekFrom::Start(12u64 + 4u64 + 4u64))?;
-    if file.read(&mut flag_buffer)? != 4
-    {
-        return io_error!(Other, "Could not read flags of VP8X chunk!");
-    }
+    file.seek(SeekFrom::Start(0))?;
+    file.write_all(&file_buffer)?;
+    file.set_len(file_buffer.len() as u64)?;
 
-    // Check the 5th bit of the 32 bit flag_buffer. 
-    // For further details see the Extended File Format section at
-    // https://developers.google.com/speed/webp/docs/riff_container#extended_file_format
-    if flag_buffer[0] & 0x08 != 0x08
-    {
-        return io_error!(Other, "No EXIF chunk according to VP8X flags!");
-    }
-
-    return Ok((file, parsed_webp_result));
+    return Ok(());
 }
 
 
@@ -263,294 +60,7 @@ read_metadata
 )
 -> Result<Vec<u8>, std::io::Error>
 {
-    // Check the file signature, parse it, check that it has a VP8X chunk and
-    // the EXIF flag is set there
-    let (mut file, parse_webp_result) = check_exif_in_file(path)?;
-
-    // At this point we have established that the file has to contain an EXIF
-    // chunk at some point. So, now we need to find & return it
-    // Start by seeking to the start of the first chunk and visiting chunk after
-    // chunk via checking the type and seeking again to the next chunk via the
-    // size information
-    file.seek(SeekFrom::Start(12u64))?;
-    let mut header_buffer = vec![0u8; 4usize];
-    let mut chunk_index = 0usize;
-    loop
-    {
-        // Read the chunk type into the buffer
-        if file.read(&mut header_buffer)? != 4
-        {
-            return io_error!(Other, "Could not read chunk type while traversing WebP file!");
-        }
-        let chunk_type = String::from_u8_vec(&header_buffer.to_vec(), &Endian::Little);
-
-        // Check that this is still the type that we expect from the previous
-        // parsing over the file
-        // TODO: Maybe remove this part?
-        let Some(chunk_at_index) = parse_webp_result.get(chunk_index) else
-        {
-            return io_error!(
-                Other, 
-                format!("Could not get chunk descriptor at index {} while traversing WebP file!", chunk_index)
-            );
-        }; 
-
-        let expected_chunk_type = chunk_at_index.header();
-        if chunk_type != expected_chunk_type
-        {
-            return io_error!(
-                Other, 
-                format!("Got unexpected chunk type! Expected {} but got {}", 
-                    expected_chunk_type, 
-                    chunk_type
-                )
-            );
-        }
-
-        // Get the size of this chunk from the previous parsing process and skip
-        // the 4 bytes regarding the size
-        let chunk_size = chunk_at_index.len();
-        file.seek(std::io::SeekFrom::Current(4))?;
-
-        if chunk_type.to_lowercase() == EXIF_CHUNK_HEADER.to_lowercase()
-        {
-            // Read the EXIF chunk's data into a buffer
-            let mut payload_buffer = vec![0u8; chunk_size];
-            let     bytes_read     = file.read(&mut payload_buffer)?;
-
-            if bytes_read != chunk_size
-            {
-                return io_error!(
-                    Other, 
-                    format!("Could not read entire EXIF chunk data! Expected {chunk_size} bytes but read {bytes_read}")
-                );
-            }
-
-            // Add the 6 bytes of the EXIF_HEADER as Prefix for the generic EXIF
-            // data parser that is called on the result of this read function
-            // Otherwise the result would directly start with the Endianness
-            // information, leading to a failed EXIF header signature check in 
-            // the function `decode_metadata_general`
-            let mut raw_exif_data = EXIF_HEADER.to_vec();
-            raw_exif_data.append(&mut payload_buffer);
-
-            return Ok(raw_exif_data);
-        }
-        else
-        {
-            // Skip the entire chunk
-            file.seek(std::io::SeekFrom::Current(chunk_size as i64))?;
-
-            // Note that we have to seek another byte in case the chunk is of 
-            // uneven size to account for the padding byte that must be included
-            file.seek(std::io::SeekFrom::Current(chunk_size as i64 % 2))?;
-        }
-
-        // Update for next loop iteration
-        chunk_index += 1;
-    }
-}
-
-
-
-fn
-update_file_size_information
-(
-    file:  &mut File,
-    delta: i32
-)
--> Result<(), std::io::Error>
-{
-    // Note from the documentation:
-    // As the size of any chunk is even, the size given by the RIFF header is also even.
-
-    // Update the file size information, first by reading in the current value...
-    file.seek(SeekFrom::Start(4))?;
-    let mut file_size_buffer = [0u8; 4];
-
-    // ...converting it to u32 representation...
-    let bytes_read = file.read(&mut file_size_buffer)?;
-
-    if bytes_read != 4
-    {
-        return io_error!(Other, "Could not read file size information from WebP file!");
-    }
-
-    let old_file_size = from_u8_vec_res_macro!(u32, &file_size_buffer, &Endian::Little)?;
-
-    // ...adding the delta byte count (and performing some checks)...
-    if delta < 0
-    {
-        assert!(old_file_size as i32 > delta);
-    }
-    let new_file_size = (old_file_size as i32 + delta) as u32;
-
-    assert!(old_file_size % 2 == 0);
-    assert!(new_file_size % 2 == 0);
-
-    // ...and writing back to file...
-    file.seek(SeekFrom::Start(4))?;
-    file.write_all(&to_u8_vec_macro!(u32, &new_file_size, &Endian::Little))?;
-
-    Ok(())
-}
-
-
-
-fn
-convert_to_extended_format
-(
-    file: &mut File
-)
--> Result<(), std::io::Error>
-{
-    // Start by getting the first chunk of the WebP file
-    file.seek(SeekFrom::Start(12))?;
-    let first_chunk = get_next_chunk(file)?;
-
-    // Find out what simple type of WebP file we are dealing with
-    let (width, height) = match first_chunk.descriptor().header().as_str()
-    {
-        "VP8 " 
-            => get_dimension_info_from_vp8_chunk(first_chunk.payload()),
-        "VP8L"
-            => get_dimension_info_from_vp8l_chunk(first_chunk.payload()),
-        _ 
-            => io_error!(Other, "Expected either 'VP8 ' or 'VP8L' chunk for conversion!")
-    }?;
-
-    let width_vec  = to_u8_vec_macro!(u32, &width,  &Endian::Little);
-    let height_vec = to_u8_vec_macro!(u32, &height, &Endian::Little);
-
-    let mut vp8x_chunk = vec![
-        0x56, 0x50, 0x38, 0x58, // ASCII chars "V", "P", "8", "X"                  -> 4 byte
-        0x0A, 0x00, 0x00, 0x00, // size of this chunk (32 + 24 + 24 bit = 10 byte) -> 4 byte
-        0x00, 0x00, 0x00, 0x00, // Flags and reserved area                         -> 4 byte
-    ];
-
-    // Add the two 24 bits for width and height information
-    for byte in  width_vec.iter().take(3) { vp8x_chunk.push(*byte); }
-    for byte in height_vec.iter().take(3) { vp8x_chunk.push(*byte); }
-
-    // Write the VP8X chunk, first by reading the file (except for the header)
-    // into a buffer...
-    let mut buffer = Vec::new();
-    file.seek(SeekFrom::Start(12u64))?;
-    file.read_to_end(&mut buffer)?;
-
-    // ...actually writing the VP8X chunk data...
-    file.seek(SeekFrom::Start(12u64))?;
-    if file.write(&vp8x_chunk)? != vp8x_chunk.len()
-    {
-        return io_error!(Other, "Could not write entire VP8X chunk data!");
-    }
-
-    // ...and writing back the file contents
-    if file.write(&buffer)? != buffer.len()
-    {
-        return io_error!(Other, "Could not write back entire WebP file data!");
-    }
-
-    // Finally, update the file size information
-    update_file_size_information(file, 18)?;
-
-    Ok(())
-}
-
-
-
-fn
-get_dimension_info_from_vp8l_chunk
-(
-    payload: &[u8],
-)
--> Result<(u32, u32), std::io::Error>
-{
-    // Get the 4 bytes containing the dimension information
-    // (although we only need 28 bits)
-    // Starting at byte 1 instead of 0 due to the 0x2F byte
-    // See: https://developers.google.com/speed/webp/docs/webp_lossless_bitstream_specification#3_riff_header
-    let width_height_info_buffer = payload[1..5].to_vec();
-    
-    // Convert to a single u32 number for bit-mask operations
-    let width_height_info = from_u8_vec_res_macro!(u32, &width_height_info_buffer, &Endian::Little)?;
-    
-    let mut width  = 0;
-    let mut height = 0;
-
-    // Get the first 14 bit to construct the width
-    for bit_index in 0..14
-    {
-        width  |= ((width_height_info >> (27 - bit_index)) & 0x01) << (13 - (bit_index % 14));
-    }
-
-    // Get the next 14 bit to construct the height
-    for bit_index in 14..28
-    {
-        height |= ((width_height_info >> (27 - bit_index)) & 0x01) << (13 - (bit_index % 14));
-    }
-
-    return Ok((width, height));
-}
-
-
-
-fn
-set_exif_flag
-(
-    path:  &Path,
-    exif_flag_value: bool
-)
--> Result<(), std::io::Error>
-{
-    // Parse the WebP file - if this fails, we surely can't read any metadata
-    let parsed_webp_result = parse_webp(path)?;
-
-    // Open the file for further processing
-    let mut file = check_signature(path)?;
-
-    // Next, check if this is an Extended File Format WebP file
-    // In this case, the first Chunk SHOULD have the type "VP8X"
-    // Otherwise we have to create the VP8X chunk!
-    if let Some(first_chunk) = parsed_webp_result.first()
-    {
-        // Compare the chunk descriptor header and call chunk creator if required
-        if first_chunk.header().to_lowercase() != VP8X_HEADER.to_lowercase()
-        {
-            convert_to_extended_format(&mut file)?;
-        }
-    }
-    else
-    {
-        return io_error!(Other, "Could not read first chunk descriptor of WebP file!");
-    }	
-
-    // At this point we know that we have a VP8X chunk at the expected location
-    // So, read in the flags and set the EXIF flag according to the given bool
-    let mut flag_buffer = vec![0u8; 4usize];
-    file.seek(SeekFrom::Start(12u64 + 4u64 + 4u64))?;
-    if file.read(&mut flag_buffer)? != 4
-    {
-        return io_error!(Other, "Could not read flags of VP8X chunk!");
-    }
-
-    // Mask the old flag by either or-ing with 1 at the EXIF flag position for
-    // setting it to true, or and-ing with 1 everywhere but the EXIF flag pos
-    // to set it to false
-    flag_buffer[0] = if exif_flag_value
-    {
-        flag_buffer[0] | 0x08
-    }
-    else
-    {
-        flag_buffer[0] & 0b11110111
-    };
-
-    // Write flag buffer back to the file
-    file.seek(SeekFrom::Start(12u64 + 4u64 + 4u64))?;
-    file.write_all(&flag_buffer)?;
-
-    Ok(())
+    return super::vec::read_metadata(&read_file(path)?);
 }
 
 
@@ -562,86 +72,7 @@ clear_metadata
 )
 -> Result<(), std::io::Error>
 {
-    // Check the file signature, parse it, check that it has a VP8X chunk and
-    // the EXIF flag is set there
-    let (mut file, parse_webp_result) = match check_exif_in_file(path) 
-    {
-        Ok((file, parse_webp_result)) => (file, parse_webp_result),
-        Err(e) => {
-            match e.to_string().as_str()
-            {
-                "No EXIF chunk according to VP8X flags!"
-                    => return Ok(()),
-                "Expected first chunk of WebP file to be of type 'VP8X' but instead got VP8L!"
-                    => return Ok(()),
-                "Expected first chunk of WebP file to be of type 'VP8X' but instead got VP8 !"
-                    => return Ok(()),
-                _
-                    => return Err(e)
-            }
-        }
-    };
-
-    // Compute a delta of how much the file size information has to change
-    let mut delta = 0i32;
-
-    // Skip the WEBP signature
-    file.seek(std::io::SeekFrom::Current(4i64))?;
-
-    for parsed_chunk in parse_webp_result
-    {
-        // At the start of each iteration, the file cursor is at the start of
-        // the fourCC section of a chunk
-
-        // Compute how many bytes this chunk has
-        let parsed_chunk_byte_count = 
-            4u64                            // fourCC section of EXIF chunk
-            + 4u64                          // size information of EXIF chunk
-            + parsed_chunk.len() as u64     // actual size of EXIF chunk data
-            + parsed_chunk.len() as u64 % 2 // accounting for possible padding byte
-        ;
-
-        // Not an EXIF chunk, seek to next one and continue
-        if parsed_chunk.header().to_lowercase() != EXIF_CHUNK_HEADER.to_lowercase()
-        {
-            file.seek(std::io::SeekFrom::Current(parsed_chunk_byte_count as i64))?;
-            continue;
-        }
-
-        // Get the current size of the file in bytes
-        let old_file_byte_count = file.metadata()?.len();
-
-        // Get a backup of the current cursor position
-        let exif_chunk_start_cursor_position = SeekFrom::Start(file.stream_position()?);
-
-        // Skip the EXIF chunk ...
-        file.seek(std::io::SeekFrom::Current(parsed_chunk_byte_count as i64))?;
-
-        // ...and copy everything afterwards into a buffer...
-        let mut buffer = Vec::new();
-        file.read_to_end(&mut buffer)?;
-
-        // ...and seek back to where the EXIF chunk is located...
-        file.seek(exif_chunk_start_cursor_position)?;
-
-        // ...and overwrite the EXIF chunk...
-        file.write_all(&buffer)?;
-
-        // ...and finally update the size of the file
-        file.set_len(old_file_byte_count - parsed_chunk_byte_count)?;
-
-        // Additionally, update the size information that gets written to the 
-        // file header after this loop
-        delta -= parsed_chunk_byte_count as i32;
-    }
-
-    // Update file size information
-    update_file_size_information(&mut file, delta)?;
-    
-    // Set the flags in the VP8X chunk. First, read in the current flags
-    set_exif_flag(path, false)?;
-
-    return Ok(());
+    return modify_file(path, super::vec::clear_metadata);
 }
 
 
@@ -658,85 +89,7 @@ write_metadata
 )
 -> Result<(), std::io::Error>
 {
-    // Clear the metadata from the file and return if this results in an error
-    clear_metadata(path)?;
-
-    // Encode the general metadata format to WebP specifications
-    let encoded_metadata = encode_metadata_webp(&metadata.encode()?);
-
-    // Open the file...
-    let mut file = check_signature(path)?;
-
-    // ...and find a location where to put the EXIF chunk
-    // This is done by requesting a chunk descriptor as long as we find a chunk
-    // that is both known and should be located *before* the EXIF chunk
-    let pre_exif_chunks = [
-        "VP8X",
-        "VP8",
-        "VP8L",
-        "ICCP",
-        "ANIM"
-    ];
-
-    loop
-    {
-        // Request a chunk descriptor. If this fails, check the error 
-        // Depending on its type, either continue normally or return it
-        let chunk_descriptor_result = get_next_chunk_descriptor(&mut file);
-
-        match chunk_descriptor_result
-        {
-            Ok(chunk_descriptor) => {
-                let mut chunk_type_found_in_pre_exif_chunks = false;
-
-                // Check header of chunk descriptor against any of the known chunks
-                // that should come before the EXIF chunk
-                for pre_exif_chunk in &pre_exif_chunks
-                {
-                    chunk_type_found_in_pre_exif_chunks |= pre_exif_chunk.to_lowercase() == chunk_descriptor.header().to_lowercase();
-                }
-
-                if !chunk_type_found_in_pre_exif_chunks
-                {
-                    break;
-                }
-            },
-            Err(e) => {
-                match e.kind()
-                {
-                    std::io::ErrorKind::UnexpectedEof
-                        => break, // No further chunks, place EXIF chunk here
-                    _
-                        => return Err(e)
-                }
-            }
-        }
-    }
-
-    // Next, read remaining file into a buffer...
-    let current_file_cursor = SeekFrom::Start(file.stream_position()?);
-    let mut read_buffer = Vec::new();
-    file.read_to_end(&mut read_buffer)?;
-
-    // ...and write the EXIF chunk at the previously found location...
-    file.seek(current_file_cursor)?;
-    file.write_all(&encoded_metadata)?;
-
-    // ...and writing back the remaining file content
-    file.write_all(&read_buffer)?;
-
-    // Update the file size information by adding the byte count of the EXIF chunk
-    // (Note: Due to  the WebP specific encoding function, this vector already
-    // contains the EXIF header characters and size information, as well as the
-    // possible padding byte. Therefore, simply taking the length of this
-    // vector takes their byte count also into account and no further values
-    // need to be added)
-    update_file_size_information(&mut file, encoded_metadata.len() as i32)?;
-
-    // Finally, set the EXIF flag
-    set_exif_flag(path, true)?;
-
-    return Ok(());
+    return modify_file(path, |file_buffer| super::vec::write_metadata(file_buffer, metadata));
 }
 
 
diff --git a/src/webp/mod.rs b/src/webp/mod.rs
index 287a269..baec826 100644
--- a/src/webp/mod.rs
+++ b/src/webp/mod.rs
@@ -11,8 +11,6 @@ pub(crate) const WEBP_SIGNATURE:       [u8; 4] = [0x57, 0x45, 0x42, 0x50];
 pub(crate) const VP8X_HEADER:          &str    = "VP8X";
 pub(crate) const EXIF_CHUNK_HEADER:    &str    = "EXIF";
 
-use std::fs::File;
-
 use crate::endian::Endian;
 use crate::general_file_io::io_error;
 use crate::io_error_plain;
@@ -71,7 +69,6 @@ fn
 check_byte_count
 (
     file_buffer: &[u8],
-    opt_file:     Option<&File>,
 )
 -> Result<(), std::io::Error>
 {
@@ -83,14 +80,7 @@ check_byte_count
         io_error_plain!(InvalidData, "Can't open WebP file - Byte count in RIFF header is too large!")
     )?;
 
-    if let Some(file) = opt_file
-    {
-        if file.metadata()?.len() != byte_count as u64
-        {
-            return io_error!(InvalidData, "Can't open WebP file - Promised byte count does not correspond with file size!");
-        }
-    }
-    else if file_buffer.len() != byte_count as usize
+    if file_buffer.len() != byte_count as usize
     {
         return io_error!(InvalidData, format!("Can't handle WebP file buffer - Promised byte count {} does not correspond with file buffer length {}!", byte_count, file_buffer.len()));
     }
@@ -155,24 +145,28 @@ get_dimension_info_from_vp8_chunk
     // VP8 Data Format https://datatracker.ietf.org/doc/html/rfc6386#section-9.1
     // Parsing function function vp8_parse_frame_header: https://datatracker.ietf.org/doc/html/rfc6386#section-20.4
 
-    let header_magic = payload[3..=5].to_vec();
-    if 
-        header_magic.len() != 3 || 
-        !matches!(header_magic.as_slice(), &[0x9d, 0x01, 0x2a]) 
+    let Some(frame_header) = payload.get(0..10) else
+    {
+        return io_error!(Other, "VP8 chunk too small to contain frame header");
+    };
+
+    if frame_header[3..=5] != [0x9d, 0x01, 0x2a]
     {
         return io_error!(Other, "Invalid VP8 Frame Header Magic");
     }
 
-    let header_width_bytes  = payload[6..=7].to_vec();
-    let header_height_bytes = payload[8..=9].to_vec();
-
-    let width_info  = from_u8_vec_res_macro!(u16, &header_width_bytes,  &Endian::Little)?;
-    let height_info = from_u8_vec_res_macro!(u16, &header_height_bytes, &Endian::Little)?;
+    let width_info  = from_u8_vec_res_macro!(u16, &frame_header[6..=7], &Endian::Little)?;
+    let height_info = from_u8_vec_res_macro!(u16, &frame_header[8..=9], &Endian::Little)?;
 
     // zero out the top 2 bits of each of the dimensions (scaling factor bits)
     let bitmask_14 = (1 << 14) - 1;
     let width  = width_info  & bitmask_14;
     let height = height_info & bitmask_14;
 
+    if width == 0 || height == 0
+    {
+        return io_error!(Other, "Invalid VP8 frame dimensions");
+    }
+
     return Ok((width as u32 -1, height as u32 -1));
-}
\ No newline at end of file
+}
diff --git a/src/webp/vec.rs b/src/webp/vec.rs
index 129bcf9..234768c 100644
--- a/src/webp/vec.rs
+++ b/src/webp/vec.rs
@@ -3,7 +3,6 @@
 
 use std::io::Cursor;
 use std::io::Read;
-use std::io::Seek;
 use std::io::Write;
 
 use crate::general_file_io::EXIF_HEADER;
@@ -34,7 +33,7 @@ check_signature
     }
 
     check_riff_signature(file_buffer      )?;
-    check_byte_count(    file_buffer, None)?;
+    check_byte_count(    file_buffer)?;
     check_webp_signature(file_buffer      )?;
 
     let mut cursor = Cursor::new(file_buffer);
@@ -57,7 +56,7 @@ get_next_chunk
     // Read the start of the chunk
     let mut chunk_start = [0u8; 8];
 
-    let mut bytes_read = cursor.read(&mut chunk_start)?;
+    let bytes_read = cursor.read(&mut chunk_start)?;
 
     // Check that indeed 8 bytes were read
     if bytes_read != 8
@@ -66,35 +65,30 @@ get_next_chunk
     }
 
     // Construct name of chunk and its length
-    let chunk_name = String::from_utf8(chunk_start[0..4].to_vec());
-    let mut chunk_length = from_u8_vec_res_macro!(u32, &chunk_start[4..8], &Endian::Little)?;
-
-    // Account for the possible padding byte
-    chunk_length += chunk_length % 2;
-
-    // Read RIFF chunk data
-    let mut chunk_data_buffer = vec![0u8; chunk_length as usize];
-    bytes_read = cursor.read(&mut chunk_data_buffer)?;
-    if bytes_read != chunk_length as usize
+    // Note: The name may consist of arbitrary bytes in case of unknown chunks
+    let chunk_name   = String::from_utf8_lossy(&chunk_start[0..4]).into_owned();
+    let chunk_length = from_u8_vec_res_macro!(u32, &chunk_start[4..8], &Endian::Little)?;
+
+    // Read RIFF chunk data, accounting for the possible padding byte
+    let padded_chunk_length = chunk_length as u64 + chunk_length as u64 % 2;
+    let remaining_length    = (cursor.get_ref().len() as u64).saturating_sub(cursor.position());
+    if padded_chunk_length > remaining_length
     {
         return io_error!(
             Other, 
-            format!("Could not read RIFF chunk data! Expected {chunk_length} bytes but read {bytes_read}")
+            format!("Could not read RIFF chunk data! Expected {padded_chunk_length} bytes but only {remaining_length} are left")
         );
     }
 
-    if let Ok(parsed_chunk_name) = chunk_name
-    {
-        return Ok(RiffChunk::new(
-            parsed_chunk_name as String, 
-            chunk_length      as usize,
-            chunk_data_buffer as Vec<u8>
-        ));
-    }
-    else
-    {
-        return io_error!(Other, "Could not parse RIFF fourCC chunk name!");
-    }
+    let mut chunk_data_buffer = vec![0u8; padded_chunk_length as usize];
+    cursor.read_exact(&mut chunk_data_buffer)?;
+    chunk_data_buffer.truncate(chunk_length as usize);
+
+    return Ok(RiffChunk::new(
+        chunk_name        as String, 
+        chunk_length      as usize,
+        chunk_data_buffer as Vec<u8>
+    ));
 }
 
 
@@ -149,7 +143,7 @@ parse_webp
             // The parsed length increases by the length of the chunk's 
             // header (4 byte) + it's size section (4 byte) and the payload
             // size, which is noted by the aforementioned size section
-            parsed_length += 4 + 4 + chunk_descriptor.len();
+            parsed_length += 4 + 4 + chunk_descriptor.len() + chunk_descriptor.len() % 2;
 
             // Add the chunk descriptor
             chunks.push(chunk_descriptor);
@@ -258,116 +252,52 @@ read_metadata
     let (mut cursor, parse_webp_result) = check_exif_in_file(file_buffer)?;
 
     // At this point we have established that the file has to contain an EXIF
-    // chunk at some point. So, now we need to find & return it
-    // Start by seeking to the start of the first chunk and visiting chunk after
-    // chunk via checking the type and seeking again to the next chunk via the
-    // size information
+    // chunk at some point. So, now we need to find & return it by going over
+    // the chunks, starting at the first one
     cursor.set_position(12u64);
-    let mut header_buffer = vec![0u8; 4usize];
-    let mut chunk_index = 0usize;
-    loop
+    for _ in 0..parse_webp_result.len()
     {
-        // Read the chunk type into the buffer
-        if cursor.read(&mut header_buffer)? != 4
-        {
-            return io_error!(Other, "Could not read chunk type while traversing WebP file!");
-        }
-        let chunk_type = String::from_u8_vec(&header_buffer.to_vec(), &Endian::Little);
-
-        // Check that this is still the type that we expect from the previous
-        // parsing over the file
-        // TODO: Maybe remove this part?
-        let Some(chunk_at_index) = parse_webp_result.get(chunk_index) else
-        {
-            return io_error!(
-                Other, 
-                format!("Could not get chunk descriptor at index {} while traversing WebP file!", chunk_index)
-            );
-        }; 
-
-        let expected_chunk_type = chunk_at_index.header();
-        if chunk_type != expected_chunk_type
-        {
-            return io_error!(
-                Other, 
-                format!("Got unexpected chunk type! Expected {} but got {}", expected_chunk_type, chunk_type)
-            );
-        }
-
-        // Get the size of this chunk from the previous parsing process and skip
-        // the 4 bytes regarding the size
-        let chunk_size = chunk_at_index.len();
-        cursor.seek(std::io::SeekFrom::Current(4))?;
+        let chunk = get_next_chunk(&mut cursor)?;
 
-        if chunk_type.to_lowercase() == EXIF_CHUNK_HEADER.to_lowercase()
+        if chunk.descriptor().header().to_lowercase() == EXIF_CHUNK_HEADER.to_lowercase()
         {
-            // Read the EXIF chunk's data into a buffer
-            let mut payload_buffer = vec![0u8; chunk_size];
-            let     bytes_read     = cursor.read(&mut payload_buffer)?;
-
-            if bytes_read != chunk_size
+            // The generic EXIF data parser that is called on the result of 
+            // this read function expects the data to start with the EXIF_HEADER.
+            // Usually the chunk directly starts with the endianness 
+            // information, but some encoders also store the header
+            if chunk.payload().starts_with(&EXIF_HEADER)
             {
-                return io_error!(
-                    Other, 
-                    format!("Could not read entire EXIF chunk data! Expected {chunk_size} bytes but read {bytes_read}")
-                );
+                return Ok(chunk.payload().clone());
             }
 
-            // Add the 6 bytes of the EXIF_HEADER as Prefix for the generic EXIF
-            // data parser that is called on the result of this read function
-            // Otherwise the result would directly start with the Endianness
-            // information, leading to a failed EXIF header signature check in 
-            // the function `decode_metadata_general`
             let mut raw_exif_data = EXIF_HEADER.to_vec();
-            raw_exif_data.append(&mut payload_buffer);
+            raw_exif_data.extend(chunk.payload());
 
             return Ok(raw_exif_data);
         }
-        else
-        {
-            // Skip the entire chunk
-            cursor.seek(std::io::SeekFrom::Current(chunk_size as i64))?;
-
-            // Note that we have to seek another byte in case the chunk is of 
-            // uneven size to account for the padding byte that must be included
-            cursor.seek(std::io::SeekFrom::Current(chunk_size as i64 % 2))?;
-        }
-
-        // Update for next loop iteration
-        chunk_index += 1;
     }
+
+    return io_error!(Other, "Could not find EXIF chunk in WebP file!");
 }
 
 
 
+/// Updates the size information stored in the RIFF header so that it fits the
+/// current length of the buffer
 fn
 update_file_size_information
 (
-    cursor: &mut Cursor<&mut Vec<u8>>,
-    delta:  i32
+    cursor: &mut Cursor<&mut Vec<u8>>
 )
 -> Result<(), std::io::Error>
 {
-    // Note from the documentation:
-    // As the size of any chunk is even, the size given by the RIFF header is also even.
-
-    // Update the file size information, first by reading in the current value...
-    let file_size_buffer = cursor.get_ref()[4..8].to_vec();
-
-    // ...converting it to u32 representation...
-    let old_file_size = from_u8_vec_res_macro!(u32, &file_size_buffer, &Endian::Little)?;
-
-    // ...adding the delta byte count (and performing some checks)...
-    if delta < 0
+    // The RIFF signature and the size information itself (4 bytes each) are 
+    // not included in the size information
+    let Ok(new_file_size) = u32::try_from(cursor.get_ref().len() - 8) else
     {
-        assert!(old_file_size as i32 > delta);
-    }
-    let new_file_size = (old_file_size as i32 + delta) as u32;
-
-    assert!(old_file_size % 2 == 0);
-    assert!(new_file_size % 2 == 0);
+        return io_error!(Other, "WebP file is too large to be described by the RIFF header!");
+    };
 
-    // ...and writing back to file...
     cursor.set_position(4);
     cursor.write_all(&to_u8_vec_macro!(u32, &new_file_size, &Endian::Little))?;
 
@@ -394,23 +324,31 @@ convert_to_extended_format
     let first_chunk = get_next_chunk(&mut read_cursor)?;
 
     // Find out what simple type of WebP file we are dealing with
+    // For lossless images, the bit following the dimension information tells
+    // whether the image makes use of its alpha channel
+    let mut flags = 0x00u8;
     let (width, height) = match first_chunk.descriptor().header().as_str()
     {
         "VP8 "
-            => {log::debug!("VP8 !"); io_error!(Other, "Conversion from Simple File Format with 'VP8' chunk to Extended File Format not yet implemented!") },
+            => get_dimension_info_from_vp8_chunk(first_chunk.payload()),
         "VP8L"
             => get_dimension_info_from_vp8l_chunk(first_chunk.payload()),
         _ 
             => io_error!(Other, format!("Expected either 'VP8 ' or 'VP8L' chunk for conversion but got {:?}!", first_chunk.descriptor().header().as_str()))
     }?;
 
+    if first_chunk.descriptor().header() == "VP8L" && first_chunk.payload()[4] & 0x10 != 0
+    {
+        flags |= 0x10;
+    }
+
     let width_vec  = to_u8_vec_macro!(u32, &width,  &Endian::Little);
     let height_vec = to_u8_vec_macro!(u32, &height, &Endian::Little);
 
     let mut vp8x_chunk = vec![
         0x56, 0x50, 0x38, 0x58, // ASCII chars "V", "P", "8", "X"                  -> 4 byte
         0x0A, 0x00, 0x00, 0x00, // size of this chunk (32 + 24 + 24 bit = 10 byte) -> 4 byte
-        0x00, 0x00, 0x00, 0x00, // Flags and reserved area                         -> 4 byte
+        flags, 0x00, 0x00, 0x00, // Flags and reserved area                        -> 4 byte
     ];
 
     // Add the two 24 bits for width and height information
@@ -421,7 +359,7 @@ convert_to_extended_format
     insert_multiple_at(cursor.get_mut(), 12, &mut vp8x_chunk);
 
     // Finally, update the file size information
-    update_file_size_information(cursor, 18)?;
+    update_file_size_information(cursor)?;
 
     Ok(())
 }
@@ -439,25 +377,19 @@ get_dimension_info_from_vp8l_chunk
     // (although we only need 28 bits)
     // Starting at byte 1 instead of 0 due to the 0x2F byte
     // See: https://developers.google.com/speed/webp/docs/webp_lossless_bitstream_specification#3_riff_header
-    let width_height_info_buffer = payload[1..5].to_vec();
+    let Some(width_height_info_buffer) = payload.get(1..5) else
+    {
+        return io_error!(Other, "VP8L chunk too small to contain dimension information!");
+    };
     
     // Convert to a single u32 number for bit-mask operations
-    let width_height_info = from_u8_vec_res_macro!(u32, &width_height_info_buffer, &Endian::Little)?;
-    
-    let mut width  = 0;
-    let mut height = 0;
+    let width_height_info = from_u8_vec_res_macro!(u32, width_height_info_buffer, &Endian::Little)?;
 
-    // Get the first 14 bit to construct the width
-    for bit_index in 0..14
-    {
-        width  |= ((width_height_info >> (27 - bit_index)) & 0x01) << (13 - (bit_index % 14));
-    }
-
-    // Get the next 14 bit to construct the height
-    for bit_index in 14..28
-    {
-        height |= ((width_height_info >> (27 - bit_index)) & 0x01) << (13 - (bit_index % 14));
-    }
+    // The bit stream is read starting at the least significant bit: The first
+    // 14 bits are the width (minus one), the next 14 bits the height (minus one)
+    let bitmask_14 = (1 << 14) - 1;
+    let width  =  width_height_info        & bitmask_14;
+    let height = (width_height_info >> 14) & bitmask_14;
 
     return Ok((width, height));
 }
@@ -492,6 +424,11 @@ set_exif_flag
     }	
 
     // At this point we know that we have a VP8X chunk at the expected location
+    if cursor.get_ref().len() < 30 || cursor.get_ref()[16..20] != [0x0A, 0x00, 0x00, 0x00]
+    {
+        return io_error!(Other, "VP8X chunk of WebP file does not have the expected size!");
+    }
+
     // Mask the old flag by either or-ing with 1 at the EXIF flag position for
     // setting it to true, or and-ing with 1 everywhere but the EXIF flag pos
     // to set it to false
@@ -516,70 +453,59 @@ clear_metadata
 )
 -> Result<(), std::io::Error>
 {
-    // Check the file signature, parse it, check that it has a VP8X chunk and
-    // the EXIF flag is set there
-    let (mut cursor, parse_webp_result) = match check_exif_in_file(file_buffer) 
+    // Parse the WebP file - if this fails, we can't tell where EXIF chunks are
+    let parsed_webp_result = parse_webp(file_buffer)?;
+
+    let is_extended_format = match parsed_webp_result.first()
     {
-        Ok((_file, parse_webp_result)) => (
-            Cursor::new(file_buffer), 
-            parse_webp_result
-        ),
-        Err(e) => {
-            match e.to_string().as_str()
-            {
-                "No EXIF chunk according to VP8X flags!"
-                    => return Ok(()),
-                "Expected first chunk of WebP file to be of type 'VP8X' but instead got VP8L!"
-                    => return Ok(()),
-                "Expected first chunk of WebP file to be of type 'VP8X' but instead got VP8 !"
-                    => return Ok(()),
-                _
-                    => return Err(e)
-            }
-        }
+        Some(first_chunk) => match first_chunk.header().to_uppercase().as_str()
+        {
+            "VP8X"          => true,
+            "VP8 " | "VP8L" => false,
+            other => return io_error!(
+                Other,
+                format!("Expected first chunk of WebP file to be of type 'VP8X', 'VP8 ' or 'VP8L' but instead got {other}!")
+            )
+        },
+        None => return io_error!(Other, "Could not read first chunk descriptor of WebP file!")
     };
 
-    // Compute a delta of how much the file size information has to change
-    let mut delta = 0i32;
+    let mut cursor = Cursor::new(file_buffer);
 
-    // Skip the WEBP signature
-    cursor.set_position(4);
+    // Go over all chunks, starting after the WEBP signature, and remove those
+    // that contain EXIF data, even if there is more than one of them or if the
+    // flag in the VP8X chunk is not set
+    let mut chunk_start = 12usize;
 
-    for parsed_chunk in parse_webp_result
+    for parsed_chunk in parsed_webp_result
     {
-        // At the start of each iteration, the file cursor is at the start of
-        // the fourCC section of a chunk
-
         // Compute how many bytes this chunk has
         let parsed_chunk_byte_count = 
-            4u64                            // fourCC section of EXIF chunk
-            + 4u64                          // size information of EXIF chunk
-            + parsed_chunk.len() as u64     // actual size of EXIF chunk data
-            + parsed_chunk.len() as u64 % 2 // accounting for possible padding byte
+            4                        // fourCC section of chunk
+            + 4                      // size information of chunk
+            + parsed_chunk.len()     // actual size of chunk data
+            + parsed_chunk.len() % 2 // accounting for possible padding byte
         ;
 
-        // Not an EXIF chunk, seek to next one and continue
+        // Not an EXIF chunk, continue with the next one
         if parsed_chunk.header().to_lowercase() != EXIF_CHUNK_HEADER.to_lowercase()
         {
-            cursor.seek(std::io::SeekFrom::Current(parsed_chunk_byte_count as i64))?;
+            chunk_start += parsed_chunk_byte_count;
             continue;
         }
 
         // Remove the range containing the EXIF chunk
-        let remove_start = cursor.position() as usize;
-        let remove_end   = remove_start + parsed_chunk_byte_count as usize;
-        range_remove(cursor.get_mut(), remove_start, remove_end);
-
-        // Additionally, update the size information that gets written to the 
-        // file header after this loop
-        delta -= parsed_chunk_byte_count as i32;
+        range_remove(cursor.get_mut(), chunk_start, chunk_start + parsed_chunk_byte_count);
     }
 
     // Update file size information
-    update_file_size_information(&mut cursor, delta)?;
+    update_file_size_information(&mut cursor)?;
     
-    // Set the flags in the VP8X chunk. First, read in the current flags
-    set_exif_flag(&mut cursor, false)?;
+    // Set the flag in the VP8X chunk
+    if is_extended_format
+    {
+        set_exif_flag(&mut cursor, false)?;
+    }
 
     return Ok(());
 }
@@ -603,74 +529,20 @@ write_metadata
 
     // Encode the general metadata format to WebP specifications
     let mut encoded_metadata = encode_metadata_webp(&metadata.encode()?);
-    let encoded_metadata_len = encoded_metadata.len() as i32;
-
-    // Find a location where to put the EXIF chunk
-    // This is done by requesting a chunk descriptor as long as we find a chunk
-    // that is both known and should be located *before* the EXIF chunk
-    let pre_exif_chunks = [
-        "VP8X",
-        "VP8",
-        "VP8L",
-        "ICCP",
-        "ANIM"
-    ];
-
-    // Clippy wrongly needs this allowance, otherwise it states that this call
-    // to as_ref does nothing. However, it *does* something, mainly 
-    // creating an immutable reference that gets passed as a copy to the
-    // constructor of the cursor, so file_buffer is later on still available
-    // when calling insert_multiple_at.
-    // I guess there is a less messy solution to this?
-    #[allow(clippy::useless_asref)]
-    let mut read_cursor = Cursor::new(file_buffer.as_ref());
 
-    loop
-    {
-        // Request a chunk descriptor. If this fails, check the error 
-        // Depending on its type, either continue normally or return it
-        let chunk_descriptor_result = get_next_chunk_descriptor(&mut read_cursor);
-
-        match chunk_descriptor_result
-        {
-            Ok(chunk_descriptor) => {
-                let mut chunk_type_found_in_pre_exif_chunks = false;
-
-                // Check header of chunk descriptor against any of the known chunks
-                // that should come before the EXIF chunk
-                for pre_exif_chunk in &pre_exif_chunks
-                {
-                    chunk_type_found_in_pre_exif_chunks |= pre_exif_chunk.to_lowercase() == chunk_descriptor.header().to_lowercase();
-                }
-
-                if !chunk_type_found_in_pre_exif_chunks
-                {
-                    break;
-                }
-            },
-            Err(e) => {
-                match e.kind()
-                {
-                    std::io::ErrorKind::UnexpectedEof
-                        => break, // No further chunks, place EXIF chunk here
-                    _
-                        => return Err(e)
-                }
-            }
-        }
-    }
+    // The location where to put the EXIF chunk: After all other chunks, as both
+    // the image data and the chunks relevant for its reconstruction have to be
+    // located in front of it
+    let exif_chunk_start = parse_webp(file_buffer)?
+        .iter()
+        .fold(12, |position, chunk| position + 4 + 4 + chunk.len() + chunk.len() % 2);
 
     // Write the EXIF chunk at the found location
-    insert_multiple_at(file_buffer, read_cursor.position() as usize, &mut encoded_metadata);
-
-    // Update the file size information by adding the byte count of the EXIF chunk
-    // (Note: Due to  the WebP specific encoding function, this vector already
-    // contains the EXIF header characters and size information, as well as the
-    // possible padding byte. Therefore, simply taking the length of this
-    // vector takes their byte count also into account and no further values
-    // need to be added)
+    insert_multiple_at(file_buffer, exif_chunk_start, &mut encoded_metadata);
+
+    // Update the file size information
     let mut write_cursor = Cursor::new(file_buffer);
-    update_file_size_information(&mut write_cursor, encoded_metadata_len)?;
+    update_file_size_information(&mut write_cursor)?;
 
     // Finally, set the EXIF flag
     set_exif_flag(&mut write_cursor, true)?;
-- 
2.43.0


From b6bf99f6926ccc4fef97089b6d69d351c4239a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:35 +0000
Subject: [PATCH 23/42] fix: WebP chunk identifiers are case sensitive

---
 src/webp/vec.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/webp/vec.rs b/src/webp/vec.rs
index 234768c..348a82a 100644
--- a/src/webp/vec.rs
+++ b/src/webp/vec.rs
@@ -198,7 +198,7 @@ check_exif_in_file
     if let Some(first_chunk) = parsed_webp_result.first()
     {
         // Compare the chunk descriptor header.
-        if first_chunk.header().to_lowercase() != VP8X_HEADER.to_lowercase()
+        if first_chunk.header() != VP8X_HEADER
         {
             return io_error!(
                 Other, 
@@ -259,7 +259,7 @@ read_metadata
     {
         let chunk = get_next_chunk(&mut cursor)?;
 
-        if chunk.descriptor().header().to_lowercase() == EXIF_CHUNK_HEADER.to_lowercase()
+        if chunk.descriptor().header() == EXIF_CHUNK_HEADER
         {
             // The generic EXIF data parser that is called on the result of 
             // this read function expects the data to start with the EXIF_HEADER.
@@ -413,7 +413,7 @@ set_exif_flag
     if let Some(first_chunk) = parsed_webp_result.first()
     {
         // Compare the chunk descriptor header and call chunk creator if required
-        if first_chunk.header().to_lowercase() != VP8X_HEADER.to_lowercase()
+        if first_chunk.header() != VP8X_HEADER
         {
             convert_to_extended_format(cursor)?;
         }
@@ -458,7 +458,7 @@ clear_metadata
 
     let is_extended_format = match parsed_webp_result.first()
     {
-        Some(first_chunk) => match first_chunk.header().to_uppercase().as_str()
+        Some(first_chunk) => match first_chunk.header().as_str()
         {
             "VP8X"          => true,
             "VP8 " | "VP8L" => false,
@@ -488,7 +488,7 @@ clear_metadata
         ;
 
         // Not an EXIF chunk, continue with the next one
-        if parsed_chunk.header().to_lowercase() != EXIF_CHUNK_HEADER.to_lowercase()
+        if parsed_chunk.header() != EXIF_CHUNK_HEADER
         {
             chunk_start += parsed_chunk_byte_count;
             continue;
-- 
2.43.0


From 0e44445780d5e25decf2db7a39ea308c3a851ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:50 +0000
Subject: [PATCH 24/42] fix: return an error instead of panicking on malformed
 PNG text chunks and raw profiles, don't allocate announced chunk lengths

---
 src/png/mod.rs  |  65 ++++++-----------------
 src/png/read.rs |   9 +++-
 src/png/text.rs | 136 ++++++++++++++++++++++--------------------------
 3 files changed, 87 insertions(+), 123 deletions(-)

diff --git a/src/png/mod.rs b/src/png/mod.rs
index 623f9ce..1ae940b 100644
--- a/src/png/mod.rs
+++ b/src/png/mod.rs
@@ -714,7 +714,7 @@ encode_metadata_png
     let mut png_exif: Vec<u8> = vec![NEWLINE, 0x65, 0x78, 0x69, 0x66, NEWLINE];
 
     // Write ssss, padded to 8 bytes with leading spaces
-    png_exif.extend(vec![SPACE; 8 - ssss.len()]);
+    png_exif.extend(vec![SPACE; 8usize.saturating_sub(ssss.len())]);
     png_exif.extend(ssss.as_bytes().to_vec().iter());
     png_exif.push(NEWLINE);
 
@@ -791,56 +791,16 @@ decode_metadata_png
 
     while !exif_header_found && !endian_info_found
     {
-        let mut counter = 0;
-        for header_value in &EXIF_HEADER
-        {
-            if *header_value != exif_all[counter]
-            {
-                break;
-            }
-            counter += 1;
-        }
-
-        exif_header_found = counter == EXIF_HEADER.len();
-
-        if exif_header_found
-        {
-            break;
-        }
+        let starts_with = |prefix: &[u8]| 
+            exif_all.len() >= prefix.len() && exif_all.iter().zip(prefix).all(|(a, b)| a == b);
 
-        counter = 0;
+        exif_header_found = starts_with(&EXIF_HEADER);
 
         // But what if the EXIF_HEADER is missing and we are directly starting
         // with the endian information? See issue #54
-        for endian_info in &LITTLE_ENDIAN_INFO
-        {
-            if *endian_info != exif_all[counter]
-            {
-                break;
-            }
-            counter += 1;
-        }
-
-        endian_info_found = counter == LITTLE_ENDIAN_INFO.len();
+        endian_info_found = starts_with(&LITTLE_ENDIAN_INFO) || starts_with(&BIG_ENDIAN_INFO);
 
-        if endian_info_found
-        {
-            break;
-        }
-
-        // And the same check for big endian
-        for endian_info in &BIG_ENDIAN_INFO
-        {
-            if *endian_info != exif_all[counter]
-            {
-                break;
-            }
-            counter += 1;
-        }
-
-        endian_info_found = counter == BIG_ENDIAN_INFO.len();
-
-        if endian_info_found
+        if exif_header_found || endian_info_found
         {
             break;
         }
@@ -864,7 +824,10 @@ decode_metadata_png
     //    that will now get extracted
     // Consider this part optional as it might be removed in the future and
     // isn't strictly necessary and just for validating the data we get
-    assert!(!pop_storage.is_empty());
+    if pop_storage.is_empty()
+    {
+        return io_error!(InvalidData, "Can't decode PNG EXIF data - No size information found!");
+    }
 
     // Using the encode_byte function re-encode the bytes regarding the size
     // information and construct its value using decimal based shifting
@@ -890,7 +853,13 @@ decode_metadata_png
         given_exif_len += ones_place *  1 * 10_u64.pow((2 * i) as u32);
     }
 
-    assert_eq!(given_exif_len, exif_all.len() as u64);
+    if given_exif_len != exif_all.len() as u64
+    {
+        return io_error!(
+            InvalidData, 
+            format!("Can't decode PNG EXIF data - Expected {given_exif_len} bytes but got {}!", exif_all.len())
+        );
+    }
     // End optional part
 
     return Ok(Vec::from(exif_all));
diff --git a/src/png/read.rs b/src/png/read.rs
index 715c949..14aec9c 100644
--- a/src/png/read.rs
+++ b/src/png/read.rs
@@ -50,8 +50,13 @@ read_chunk_data
 )
 -> Result<Vec<u8>, std::io::Error>
 {
-    let mut chunk_data_buffer = vec![0u8; chunk_length];
-    let     bytes_read        = cursor.read(&mut chunk_data_buffer)?;
+    // Don't allocate the memory beforehand as the stored chunk length may be
+    // way larger than the actually available data
+    let mut chunk_data_buffer = Vec::new();
+    let     bytes_read        = cursor
+        .by_ref()
+        .take(chunk_length as u64)
+        .read_to_end(&mut chunk_data_buffer)?;
     
     if bytes_read != chunk_length
     {
diff --git a/src/png/text.rs b/src/png/text.rs
index ecbf03a..ec6626b 100644
--- a/src/png/text.rs
+++ b/src/png/text.rs
@@ -5,6 +5,7 @@ use miniz_oxide::inflate::decompress_to_vec_zlib;
 use miniz_oxide::deflate::compress_to_vec_zlib;
 
 use crate::general_file_io::io_error;
+use crate::io_error_plain;
 
 /// This gets the keyword of a $TEXT chunk.
 /// Fortunately, this is the same for tEXt, zTXt and iTXt, as they all
@@ -25,6 +26,21 @@ get_keyword_from_text_chunk
     return String::from_utf8_lossy(&keyword_buffer).into_owned()
 }
 
+/// Gets the bytes of the chunk data starting at the given position, which 
+/// might not exist in case of malformed chunks.
+fn
+get_from
+(
+    chunk_data: &[u8],
+    start:      usize,
+)
+-> Result<&[u8], std::io::Error>
+{
+    return chunk_data.get(start..).ok_or(
+        io_error_plain!(InvalidData, "PNG text chunk is too short!")
+    );
+}
+
 pub(crate) fn
 get_data_from_text_chunk
 (
@@ -44,7 +60,7 @@ get_data_from_text_chunk
             // For this we take the keyword length and add 1 for the NUL byte
             let data_start = keyword_length + 1;
             
-            return Ok(chunk_data[data_start..].to_vec());
+            return Ok(get_from(chunk_data, data_start)?.to_vec());
         },
 
         "zTXt" => {
@@ -54,7 +70,7 @@ get_data_from_text_chunk
             let data_start = keyword_length + 2;
 
             // Check compression method
-            if chunk_data[keyword_length + 1] != 0x00
+            if *get_from(chunk_data, keyword_length + 1)?.first().unwrap_or(&0xff) != 0x00
             {
                 return io_error!(
                     Other,
@@ -64,7 +80,7 @@ get_data_from_text_chunk
 
             // Decode zlib data
             if let Ok(decompressed_data) = decompress_to_vec_zlib(
-                &chunk_data[data_start..]
+                get_from(chunk_data, data_start)?
             )
             {
                 return Ok(decompressed_data);
@@ -86,7 +102,7 @@ get_data_from_text_chunk
                 _keyword,
                 language_tag,
                 translated_keyword,
-            ) = get_info_about_iTXt_chunk(chunk_data);
+            ) = get_info_about_iTXt_chunk(chunk_data)?;
 
             let data_start = keyword_length // keyword
                 + 3                         // NUL, compression flag & method
@@ -98,7 +114,7 @@ get_data_from_text_chunk
             if compression_flag == 0x00
             {
                 // No compression, simply return the data
-                return Ok(chunk_data[data_start..].to_vec());
+                return Ok(get_from(chunk_data, data_start)?.to_vec());
             }
             
             if compression_method != 0x00
@@ -111,7 +127,7 @@ get_data_from_text_chunk
 
             // Decode zlib data
             if let Ok(decompressed_data) = decompress_to_vec_zlib(
-                &chunk_data[data_start..]
+                get_from(chunk_data, data_start)?
             )
             {
                 return Ok(decompressed_data);
@@ -159,7 +175,7 @@ construct_similar_with_new_data
 
         "zTXt" => {
             // Check compression method
-            if old_chunk_data[keyword.len() + 1] != 0x00
+            if *get_from(old_chunk_data, keyword.len() + 1)?.first().unwrap_or(&0xff) != 0x00
             {
                 return io_error!(
                     Other,
@@ -178,16 +194,16 @@ construct_similar_with_new_data
                 _keyword,
                 language_tag,
                 translated_keyword,
-            ) = get_info_about_iTXt_chunk(old_chunk_data);
+            ) = get_info_about_iTXt_chunk(old_chunk_data)?;
 
             // Push compression information
             new_chunk_data.push(compression_flag);
             new_chunk_data.push(compression_method);
 
             // Add the language tag and translated keyword
-            new_chunk_data.extend(language_tag.bytes());
+            new_chunk_data.extend(language_tag);
             new_chunk_data.push(0x00);
-            new_chunk_data.extend(translated_keyword.bytes());
+            new_chunk_data.extend(translated_keyword);
             new_chunk_data.push(0x00);
 
             // Check compression
@@ -237,74 +253,48 @@ get_info_about_iTXt_chunk
 (
     chunk_data:   &[u8]
 )
--> (
-    u8,     // compression flag
-    u8,     // compression method
-    String, // keyword
-    String, // language tag
-    String, // translated keyword
-)
+-> Result<(
+    u8,      // compression flag
+    u8,      // compression method
+    Vec<u8>, // keyword
+    Vec<u8>, // language tag
+    Vec<u8>, // translated keyword
+), std::io::Error>
 {
-    // Tells us where we currently are in the chunk data
-    let mut chunk_counter = 0;
-
-    // Buffers for the different attributes
-    let mut keyword_buffer = Vec::new();
-
-    loop
+    // Gets the field that starts at the given position and is terminated by
+    // a null separator
+    let get_field = |start: usize| -> Result<Vec<u8>, std::io::Error>
     {
-        if chunk_data[chunk_counter] != 0x00
+        let data = get_from(chunk_data, start)?;
+        match data.iter().position(|byte| *byte == 0x00)
         {
-            keyword_buffer.push(chunk_data[chunk_counter]);
-            chunk_counter += 1;
+            Some(length) => Ok(data[..length].to_vec()),
+            None         => io_error!(InvalidData, "Missing null separator in iTXt chunk!")
         }
-        else
-        {
-            break;
-        }
-    }
-
-    let _null_separator_1  = chunk_data[chunk_counter + 0];
-    let compression_flag   = chunk_data[chunk_counter + 1];
-    let compression_method = chunk_data[chunk_counter + 2];
+    };
 
-    chunk_counter += 3;
-    let mut language_tag_buffer = Vec::new();
-
-    loop 
-    {
-        if chunk_data[chunk_counter] != 0x00
-        {
-            language_tag_buffer.push(chunk_data[chunk_counter]);
-            chunk_counter += 1;
-        }
-        else
-        {
-            break;
-        }
-    }
+    // Tells us where we currently are in the chunk data
+    let mut chunk_counter = 0;
 
-    chunk_counter += 1;
-    let mut translated_keyword_buffer = Vec::new();
+    let keyword = get_field(chunk_counter)?;
+    chunk_counter += keyword.len() + 1;
 
-    loop 
+    let Some(compression_info) = chunk_data.get(chunk_counter..chunk_counter + 2) else
     {
-        if chunk_data[chunk_counter] != 0x00
-        {
-            translated_keyword_buffer.push(chunk_data[chunk_counter]);
-            chunk_counter += 1;
-        }
-        else
-        {
-            break;
-        }
-    }
-
-    return (
-        compression_flag,
-        compression_method,
-        String::from_utf8(keyword_buffer           ).unwrap_or_default(),
-        String::from_utf8(language_tag_buffer      ).unwrap_or_default(),
-        String::from_utf8(translated_keyword_buffer).unwrap_or_default()
-    );
-}
\ No newline at end of file
+        return io_error!(InvalidData, "Missing compression information in iTXt chunk!");
+    };
+    chunk_counter += 2;
+
+    let language_tag = get_field(chunk_counter)?;
+    chunk_counter += language_tag.len() + 1;
+
+    let translated_keyword = get_field(chunk_counter)?;
+
+    return Ok((
+        compression_info[0],
+        compression_info[1],
+        keyword,
+        language_tag,
+        translated_keyword
+    ));
+}
-- 
2.43.0


From 19c8832b786d7d5ab5d280a3b408a1f64b9c5e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:23 +0000
Subject: [PATCH 25/42] fix: keep the compression method byte when rewriting a
 PNG zTXt chunk with XMP data

---
 src/png/text.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/png/text.rs b/src/png/text.rs
index ec6626b..1d6cd3d 100644
--- a/src/png/text.rs
+++ b/src/png/text.rs
@@ -183,6 +183,9 @@ construct_similar_with_new_data
                 );
             }
 
+            // The compression method
+            new_chunk_data.push(0x00);
+
             new_chunk_data.extend(compress_to_vec_zlib(new_data, 8).iter());
         },
 
-- 
2.43.0


From f689e908d8866421fbc845dc0e2a98c702997c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:35 +0000
Subject: [PATCH 26/42] fix: remove EXIF from XMP data without losing or
 damaging anything else, keep chunks that can't be interpreted instead of
 failing

---
 src/png/mod.rs | 27 +++++++++------
 src/xmp.rs     | 90 ++++++++++++++++++++++++++++++++++++++++++--------
 2 files changed, 94 insertions(+), 23 deletions(-)

diff --git a/src/png/mod.rs b/src/png/mod.rs
index 1ae940b..a9f09fb 100644
--- a/src/png/mod.rs
+++ b/src/png/mod.rs
@@ -525,20 +525,27 @@ clear_exif_from_xmp_metadata
     let chunk_name = read_chunk_name(cursor)?;
     cursor.seek(SeekFrom::Current(-8))?;
 
-    // Clear the EXIF from the XMP data
-    let text_chunk_data = get_data_from_text_chunk(
-        chunk_name.as_str(), chunk_data
-    )?;
-    let clean_xmp_data = match remove_exif_from_xmp(&text_chunk_data)
+    // Clear the EXIF from the XMP data. If that isn't possible or if there is
+    // nothing to clear, the chunk is kept as it is
+    let clean_xmp_data = match get_data_from_text_chunk(chunk_name.as_str(), chunk_data)
+        .map_err(|error| error.into())
+        .and_then(|data| Ok((remove_exif_from_xmp(&data)?, data)))
     {
-        Ok(data) => data,
-        Err(e)   => {
-            return io_error!(Other, 
-                format!("Failed to remove EXIF from XMP data: {}", e)
-            );
+        Ok((clean_data, data)) if clean_data != data => Some(clean_data),
+        Ok(_) => None,
+        Err(e) => {
+            let e: Box<dyn std::error::Error> = e;
+            log::warn!("Failed to remove EXIF from XMP data: {}", e);
+            None
         }
     };
 
+    let Some(clean_xmp_data) = clean_xmp_data else
+    {
+        cursor.seek(SeekFrom::Current(chunk_data.len() as i64 + 12))?;
+        return Ok(());
+    };
+
     // Construct new chunk data field
     let new_chunk_data = construct_similar_with_new_data(
         chunk_name.as_str(), 
diff --git a/src/xmp.rs b/src/xmp.rs
index 707ece2..dd42e27 100644
--- a/src/xmp.rs
+++ b/src/xmp.rs
@@ -1,6 +1,7 @@
 // Copyright © 2025 Tobias J. Prisching <tobias.prisching@icloud.com> and CONTRIBUTORS
 // See https://github.com/TechnikTobi/little_exif#license for licensing details
 
+use quick_xml::events::attributes::Attribute;
 use quick_xml::events::BytesStart;
 use quick_xml::events::Event;
 use quick_xml::Reader;
@@ -12,6 +13,8 @@ use std::io::Cursor;
 /// This function takes in the raw XMP information and removes EXIF attributes,
 /// while maintaining other XMP information so that the result can be 
 /// written back to the image data.
+/// Returns the data as it is if there are no EXIF attributes to remove and an
+/// error if the XMP data is not well-formed.
 pub(crate) fn
 remove_exif_from_xmp
 (
@@ -30,6 +33,11 @@ remove_exif_from_xmp
     let mut skip_depth   = 0u32;
     let mut skip_next_nl = false;
 
+    // Keep track of whether all elements get closed and if there is anything
+    // to remove in the first place
+    let mut open_elements = 0u32;
+    let mut removed_exif  = false;
+
     loop 
     {
         // Read in the event
@@ -40,12 +48,18 @@ remove_exif_from_xmp
             Ok(Event::Start(ref event)) => {
                 let event_name = String::from_utf8(event.name().0.to_vec())?;
 
-                if event_name.starts_with("exif:")
+                open_elements += 1;
+
+                if skip_depth > 0 || event_name.starts_with("exif:")
                 {
-                    skip_depth += 1;
+                    // Also count elements nested in the one that is skipped,
+                    // as their end events decrement the counter as well
+                    skip_depth  += 1;
+                    removed_exif = true;
                 }
-                else if skip_depth == 0
+                else
                 {
+                    removed_exif |= has_exif_attribute(event)?;
                     writer.write_event(Event::Start(get_exif_filtered_event(event)?))?;
                 }
             }
@@ -55,15 +69,18 @@ remove_exif_from_xmp
 
                 if event_name.starts_with("exif:")
                 {
-                    // do nothing
+                    removed_exif = true;
                 }
                 else if skip_depth == 0
                 {
+                    removed_exif |= has_exif_attribute(event)?;
                     writer.write_event(Event::Empty(get_exif_filtered_event(event)?))?;
                 }
             }
 
             Ok(Event::End(ref event)) => {
+                open_elements = open_elements.saturating_sub(1);
+
                 if skip_depth > 0 
                 {
                     skip_depth  -= 1;
@@ -76,7 +93,10 @@ remove_exif_from_xmp
             }
 
             Ok(Event::Eof) => {
-                assert_eq!(skip_depth, 0);
+                if open_elements != 0
+                {
+                    return Err("XMP data ends before all elements are closed".into());
+                }
                 break;
             }
 
@@ -107,16 +127,50 @@ remove_exif_from_xmp
                     reader.buffer_position(), 
                     error_message
                 );
-                break;
+                return Err(error_message.into());
             }
         };
 
         read_buffer.clear();
     }
 
+    if !removed_exif
+    {
+        return Ok(data.to_vec());
+    }
+
     return Ok(writer.into_inner().into_inner());
 }
 
+fn
+is_exif_attribute
+(
+    attribute: &Attribute
+)
+-> bool
+{
+    attribute.key.as_ref().starts_with(b"exif:")
+}
+
+/// Tells if the element has an EXIF attribute. Fails in case of malformed 
+/// attributes, as these would get lost otherwise.
+fn
+has_exif_attribute
+(
+    event: &BytesStart
+)
+-> Result<bool, Box<dyn std::error::Error>>
+{
+    let mut has_exif_attribute = false;
+
+    for attribute in event.attributes()
+    {
+        has_exif_attribute |= is_exif_attribute(&attribute?);
+    }
+
+    return Ok(has_exif_attribute);
+}
+
 fn
 get_exif_filtered_event<'a>
 (
@@ -124,6 +178,11 @@ get_exif_filtered_event<'a>
 )
 -> Result<BytesStart<'a>, Box<dyn std::error::Error>>
 {
+    if !has_exif_attribute(event)?
+    {
+        return Ok(event.clone());
+    }
+
     let mut new_event = BytesStart::new(
         std::str::from_utf8(event.name().0)?
     );
@@ -131,16 +190,21 @@ get_exif_filtered_event<'a>
     new_event.extend_attributes(
         event.attributes()
             .filter_map(Result::ok)
-            .filter(|attribute| 
+            .filter(|attribute| !is_exif_attribute(attribute))
+            .map(|attribute| 
                 {
-                    if let Ok(key) = std::str::from_utf8(
-                        attribute.key.as_ref()
-                    ) 
+                    // The writer always uses double quotes, which therefore 
+                    // need to be escaped if the value was in single quotes
+                    let mut value = Vec::new();
+                    for byte in attribute.value.iter()
                     {
-                        !key.starts_with("exif:")
-                    } else {
-                        true
+                        match byte
+                        {
+                            b'"' => value.extend(b"&quot;"),
+                            _    => value.push(*byte),
+                        }
                     }
+                    Attribute { key: attribute.key, value: value.into() }
                 }
             ),
     );
-- 
2.43.0


From 3a016fc3d64e9ad04123bd34e28f72b48e722bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:41 +0000
Subject: [PATCH 27/42] fix: HEIF box headers - version and flags are stored
 after the large size, keep the bytes of unknown box types

---
 src/heif/box_header.rs | 47 +++++++++++++++++++++---------------------
 src/heif/box_type.rs   |  6 +++---
 2 files changed, 26 insertions(+), 27 deletions(-)

diff --git a/src/heif/box_header.rs b/src/heif/box_header.rs
index 3ea282c..395482e 100644
--- a/src/heif/box_header.rs
+++ b/src/heif/box_header.rs
@@ -63,7 +63,7 @@ BoxHeader
         {
             box_size:    8,
             largesize:   false,
-            box_type:    BoxType::unknown { box_type: "tobi".to_owned() },
+            box_type:    BoxType::unknown { box_type: *b"tobi" },
             header_size: 8,
             version:     None,
             flags:       None,
@@ -79,7 +79,7 @@ BoxHeader
         {
             box_size:    12,
             largesize:   false,
-            box_type:    BoxType::unknown { box_type: "tobi".to_owned() },
+            box_type:    BoxType::unknown { box_type: *b"tobi" },
             header_size: 12,
             version:     Some(0),
             flags:       Some([0, 0, 0]),
@@ -109,15 +109,6 @@ BoxHeader
             flags:       None,
         };
 
-        if box_type.extends_fullbox()
-        {
-            header.version = Some(read_1_bytes(cursor)?[0]);
-            header.flags   = Some(read_3_bytes(cursor)?);
-
-            // Adjust header size information
-            header.header_size += 4;
-        }
-
         // Uses largesize box size
         if header.box_size == 1
         { 
@@ -136,9 +127,6 @@ BoxHeader
                     )
                 );
             }
-            {
-
-            }
 
             // Adjust header size information
             header.header_size += 8;
@@ -153,6 +141,17 @@ BoxHeader
             header.header_size += 16;
         }
 
+        // The version and flags of a full box are located after the largesize
+        // box size, see ISO/IEC 14496-12:2015, § 4.2
+        if box_type.extends_fullbox()
+        {
+            header.version = Some(read_1_bytes(cursor)?[0]);
+            header.flags   = Some(read_3_bytes(cursor)?);
+
+            // Adjust header size information
+            header.header_size += 4;
+        }
+
         return Ok(header);
     }
 
@@ -253,16 +252,6 @@ BoxHeader
         // Serialize box type - Part 1
         serialized.extend(self.box_type.to_4_bytes());
 
-        // Serialize version and flags (if present)
-        if self.box_type.extends_fullbox()
-        {
-            serialized.push(self.version.expect("BoxHeader: version is not set when serializing"));
-            for flag in self.flags.expect("BoxHeader: flags not set when serializing")
-            {
-                serialized.push(flag);
-            }
-        }
-
         // Serialize box size - Part 2
         if self.largesize
         {
@@ -278,6 +267,16 @@ BoxHeader
             }
         }
 
+        // Serialize version and flags (if present)
+        if self.box_type.extends_fullbox()
+        {
+            serialized.push(self.version.expect("BoxHeader: version is not set when serializing"));
+            for flag in self.flags.expect("BoxHeader: flags not set when serializing")
+            {
+                serialized.push(flag);
+            }
+        }
+
         return serialized;
     }
 
diff --git a/src/heif/box_type.rs b/src/heif/box_type.rs
index 951a1f4..7296d2b 100644
--- a/src/heif/box_type.rs
+++ b/src/heif/box_type.rs
@@ -92,7 +92,7 @@ BoxType
     hmhd,
     sthd,
     uuid    { usertype: [u8; 16] },
-    unknown { box_type: String }
+    unknown { box_type: [u8; 4] }
 }
 
 impl
@@ -194,7 +194,7 @@ BoxType
             "hmhd" => BoxType::hmhd,
             "sthd" => BoxType::sthd,
             "uuid" => BoxType::uuid { usertype: [0u8; 16] },
-            _      => BoxType::unknown { box_type: String::from(box_type_str) }
+            _      => BoxType::unknown { box_type: bytes }
         }
     }
 
@@ -293,7 +293,7 @@ BoxType
             BoxType::hmhd => "hmhd",
             BoxType::sthd => "sthd",
             BoxType::uuid { usertype: _ } => "uuid",
-            BoxType::unknown { box_type } => box_type
+            BoxType::unknown { box_type } => return box_type.to_vec()
         }.as_bytes().to_vec()
     }
 
-- 
2.43.0


From 1d917ef613adac8256edf8265a0291273774a062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:48 +0000
Subject: [PATCH 28/42] fix: HEIF boxes - return an error instead of panicking,
 reading beyond a box or allocating announced sizes

---
 src/heif/boxes/iso.rs            |  7 ++---
 src/heif/boxes/item_location.rs  | 19 ++++++++++++--
 src/heif/boxes/item_reference.rs |  7 +++++
 src/heif/boxes/meta.rs           | 45 ++++++++++++++++++++------------
 src/heif/container.rs            |  6 ++++-
 5 files changed, 59 insertions(+), 25 deletions(-)

diff --git a/src/heif/boxes/iso.rs b/src/heif/boxes/iso.rs
index cb594e8..169cbf0 100644
--- a/src/heif/boxes/iso.rs
+++ b/src/heif/boxes/iso.rs
@@ -57,11 +57,8 @@ IsoBox
 
         let mut buffer: Vec<u8> = Vec::new();
 
-        // This may cause an out of memory error, but won't panic like vec![]
-        buffer.try_reserve_exact(data_left_to_read as usize)?;
-
-        // Can't use read_exact here because the name buffer we read into is
-        // still size 0 (only has reserved capacity!)
+        // Don't allocate the announced size beforehand as it may be way larger
+        // than the actually available data
         cursor.take(data_left_to_read as u64).read_to_end(&mut buffer)?;
 
         return Ok(IsoBox {
diff --git a/src/heif/boxes/item_location.rs b/src/heif/boxes/item_location.rs
index b49425a..e7aaceb 100644
--- a/src/heif/boxes/item_location.rs
+++ b/src/heif/boxes/item_location.rs
@@ -47,6 +47,7 @@ ItemConstructionMethod
     FILE = 0,
     IDAT = 1,
     ITEM = 2,
+    UNKNOWN,
 }
 
 
@@ -197,6 +198,13 @@ ItemLocationEntry
 
         let mut extents = Vec::new();
 
+        // Without any information stored per extent there is no use in having 
+        // more than one of them
+        if extent_count > 1 && offset_size == 0 && length_size == 0 && index_size == 0
+        {
+            return io_error!(InvalidData, "Multiple extents without any information about them!");
+        }
+
         for _ in 0..extent_count
         {
             extents.push(ItemLocationEntryExtentEntry::read_from_cursor(
@@ -234,7 +242,7 @@ ItemLocationEntry
             0 => ItemConstructionMethod::FILE,
             1 => ItemConstructionMethod::IDAT,
             2 => ItemConstructionMethod::ITEM,
-            _ => panic!("Unknown item construction method!")
+            _ => ItemConstructionMethod::UNKNOWN,
         };
     }
 
@@ -324,6 +332,13 @@ ItemLocationBox
             _     => return io_error!(Other, "Invalid version for ItemLocationBox decode!".to_string())
         };
 
+        // The sizes are checked even if there is no item that makes use of them
+        if ![0, 4, 8].contains(&offset_size)      || ![0, 4, 8].contains(&length_size)
+        || ![0, 4, 8].contains(&base_offset_size) || ![0, 4, 8].contains(&index_size)
+        {
+            return io_error!(InvalidData, "Invalid field size in ItemLocationBox!");
+        }
+
         let mut items = Vec::new();
         for _ in 0..item_count
         {
@@ -434,7 +449,7 @@ ItemLocationBox
                 continue;
             }
 
-            if item.get_construction_method() == ItemConstructionMethod::ITEM
+            if item.get_construction_method() != ItemConstructionMethod::FILE
             {
                 // Offset is relative to another item's extent
                 // Also nothing to do here (for now...)
diff --git a/src/heif/boxes/item_reference.rs b/src/heif/boxes/item_reference.rs
index 3763c2f..09fc459 100644
--- a/src/heif/boxes/item_reference.rs
+++ b/src/heif/boxes/item_reference.rs
@@ -144,6 +144,13 @@ ItemReferenceBox
                 &header
             )?;
 
+            // A size that is too small would result in reading the same data
+            // again and again
+            if next_reference.get_header().get_box_size() != next_reference.serialize().len() as u64
+            {
+                return io_error!(InvalidData, "Invalid size of reference in iref box");
+            }
+
             bytes_read += next_reference.get_header().get_box_size();
 
             references.push(next_reference);
diff --git a/src/heif/boxes/meta.rs b/src/heif/boxes/meta.rs
index 1617bc6..2184a8a 100644
--- a/src/heif/boxes/meta.rs
+++ b/src/heif/boxes/meta.rs
@@ -175,21 +175,16 @@ MetaBox
             );
         }
 
-        if header.get_box_size() < header.get_header_size() {
-            return io_error!(
-                InvalidData,
-                format!(
-                    "MetaBox has invalid size: box size {} is too small",
-                    header.get_box_size()
-                )
-            );
-        }
         // Read in the remaining bytes for this box
         let     remaining_bytes = header.get_box_size() - header.get_header_size();
         let mut meta_box_bytes: Vec<u8> = Vec::new();
-        meta_box_bytes.try_reserve_exact(remaining_bytes as usize)?;
         cursor.take(remaining_bytes as u64).read_to_end(&mut meta_box_bytes)?;
 
+        if meta_box_bytes.len() as u64 != remaining_bytes
+        {
+            return io_error!(InvalidData, "MetaBox is larger than the available data");
+        }
+
         // Construct local cursor for these bytes
         let mut local_cursor = Cursor::new(meta_box_bytes);
 
@@ -204,11 +199,32 @@ MetaBox
         let mut other_boxes = Vec::new();
         while local_cursor.position() < remaining_bytes as u64
         {
+            let sub_start  = local_cursor.position();
             let sub_header = BoxHeader::read_box_header(&mut local_cursor)?;
-            let sub_box    = read_box_based_on_header(
-                &mut local_cursor, 
+
+            // Make sure that a box does not read beyond its own end
+            let sub_end = match sub_start.checked_add(sub_header.get_box_size())
+            {
+                Some(end) if end >= local_cursor.position() && end <= remaining_bytes => end,
+                _ => return io_error!(
+                    InvalidData,
+                    format!(
+                        "Box {:?} inside MetaBox has invalid size {}",
+                        sub_header.get_box_type(),
+                        sub_header.get_box_size()
+                    )
+                )
+            };
+
+            let     data_start = local_cursor.position() as usize;
+            let mut sub_cursor = Cursor::new(
+                &local_cursor.get_ref()[data_start..sub_end as usize]
+            );
+            let sub_box = read_box_based_on_header(
+                &mut sub_cursor, 
                 sub_header
             )?;
+            local_cursor.set_position(sub_end);
 
             other_boxes.push(sub_box);
         }
@@ -287,11 +303,6 @@ HandlerBox
 
         let mut name: Vec<u8> = Vec::new();
 
-        // This may cause an out of memory error, but won't panic like vec![]
-        name.try_reserve_exact(number_of_bytes_that_form_the_name as usize)?;
-
-        // Can't use read_exact here because the name buffer we read into is
-        // still size 0 (only has reserved capacity!)
         cursor
             .take(number_of_bytes_that_form_the_name as u64)
             .read_to_end(&mut name)?;
diff --git a/src/heif/container.rs b/src/heif/container.rs
index 5f17e97..0531ce0 100644
--- a/src/heif/container.rs
+++ b/src/heif/container.rs
@@ -186,6 +186,10 @@ HeifContainer
                 return io_error!(Other, "HEIF: item constr. method 'IDAT' currently not supported. Please create a new ticket at https://github.com/TechnikTobi/little_exif with an example image file");
             },
 
+            super::boxes::item_location::ItemConstructionMethod::UNKNOWN => {
+                return io_error!(InvalidData, "HEIF: unknown item construction method");
+            },
+
             super::boxes::item_location::ItemConstructionMethod::ITEM => {
                 return io_error!(Other, "HEIF: item constr. method 'ITEM' currently not supported. Please create a new ticket at https://github.com/TechnikTobi/little_exif with an example image file");
             },
@@ -498,7 +502,7 @@ HeifContainer
                 continue;
             }
 
-            if item.get_construction_method() == ItemConstructionMethod::ITEM
+            if item.get_construction_method() != ItemConstructionMethod::FILE
             {
                 // Offset is relative to another item's extent
                 // Also nothing to do here (for now...)
-- 
2.43.0


From 589ca5f6906556bf2808b7ec409a72232aa32e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:10 +0000
Subject: [PATCH 29/42] fix: HEIF write and clear - relocate item extents
 exactly, keep all other boxes, don't panic

Item IDs with 32 bits and named EXIF items get recognized, new EXIF items
don't collide with existing IDs and reference the primary item, the offsets in
iloc (and stco/co64) are moved depending on where they point to, the size of
boxes is updated in their own header format and clearing an image without EXIF
data does nothing. Only resolution and orientation of IFD0 are kept.
---
 src/heif/box_header.rs           |  28 ++
 src/heif/boxes/item_info.rs      | 109 +++--
 src/heif/boxes/item_location.rs  | 132 +++--
 src/heif/boxes/item_reference.rs |  15 +-
 src/heif/boxes/meta.rs           | 105 +++-
 src/heif/container.rs            | 803 +++++++++++++++++--------------
 src/util.rs                      |  26 -
 7 files changed, 738 insertions(+), 480 deletions(-)

diff --git a/src/heif/box_header.rs b/src/heif/box_header.rs
index 395482e..56ebdfe 100644
--- a/src/heif/box_header.rs
+++ b/src/heif/box_header.rs
@@ -86,6 +86,24 @@ BoxHeader
         }
     }
 
+    /// Reads the header of a box that is known to not be a full box, even if
+    /// its type says otherwise (e.g. the references in an `iref` box)
+    pub(super) fn
+    read_simple_box_header
+    <T: Seek + Read>
+    (
+        cursor: &mut T
+    )
+    -> Result<Self, std::io::Error>
+    {
+        let mut header = Self::new_simple_box_header();
+
+        header.box_size = read_be_u32(cursor)? as u64;
+        header.box_type = BoxType::unknown { box_type: read_4_bytes(cursor)? };
+
+        return Ok(header);
+    }
+
     pub(super) fn
     read_box_header
     <T: Seek + Read>
@@ -165,6 +183,16 @@ BoxHeader
         return self.box_size;
     }
 
+    pub(super) fn
+    uses_largesize
+    (
+        &self
+    )
+    -> bool
+    {
+        return self.largesize;
+    }
+
     pub(super) fn
     get_box_type
     (
diff --git a/src/heif/boxes/item_info.rs b/src/heif/boxes/item_info.rs
index 63ea6c5..30070ff 100644
--- a/src/heif/boxes/item_info.rs
+++ b/src/heif/boxes/item_info.rs
@@ -10,7 +10,6 @@ use crate::u8conversion::U8conversion;
 use crate::u8conversion::to_u8_vec_macro;
 use crate::util::read_be_u16;
 use crate::util::read_be_u32;
-use crate::util::read_null_terminated_string;
 
 use crate::heif::box_header::BoxHeader;
 use crate::heif::boxes::GenericIsoBox;
@@ -34,9 +33,8 @@ pub struct
 ItemInfoEntryBox
 {
     pub(self)  header:                BoxHeader,
-    pub(crate) item_id:               u16,
+    pub(crate) item_id:               u32,
     pub(crate) item_protection_index: u16,
-    pub(crate) item_name:             String,
     pub(crate) additional_data:       Vec<u8>,
 }
 
@@ -69,15 +67,20 @@ ItemInfoEntryBox
     )
     -> Result<Self, std::io::Error>
     {
-        let item_id               = read_be_u16(cursor)?;
+        // See: ISO/IEC 14496-12:2015, § 8.11.6.2
+        let item_id = match header.get_version()
+        {
+            0..=2 => read_be_u16(cursor)? as u32,
+            3     => read_be_u32(cursor)?,
+            _     => return io_error!(InvalidData, "Invalid version for ItemInfoEntryBox decode!")
+        };
         let item_protection_index = read_be_u16(cursor)?;
-        let item_name             = read_null_terminated_string(cursor)?;
 
-        // Determine how much data is left for this entry
+        // Determine how much data is left for this entry. This is, depending
+        // on the version, the item type and several null terminated strings
         let data_read_so_far = header.get_header_size() 
-            + 2                           // item_id
-            + 2                           // item_protection_index
-            + item_name.len() as u64 + 1; // string len + null terminator
+            + if header.get_version() == 3 { 4 } else { 2 } // item_id
+            + 2;                                            // item_protection_index
 
         if data_read_so_far > header.get_box_size()
         {
@@ -94,20 +97,35 @@ ItemInfoEntryBox
         let data_left_to_read = header.get_box_size() - data_read_so_far;
 
         let mut additional_data: Vec<u8> = Vec::new();
-        additional_data.try_reserve_exact(data_left_to_read as usize)?;
         cursor.take(data_left_to_read as u64).read_to_end(&mut additional_data)?;
 
-        log::trace!("Successfully read in ItemInfoEntryBox with ID: {item_id}, Name: {item_name}");
+        if additional_data.len() as u64 != data_left_to_read
+        {
+            return io_error!(InvalidData, "ItemInfoEntryBox is larger than the available data");
+        }
+
+        log::trace!("Successfully read in ItemInfoEntryBox with ID: {item_id}");
 
         return Ok(ItemInfoEntryBox {
             header,
             item_id,
             item_protection_index,
-            item_name,
             additional_data,
         });
     }
 
+    /// The item type is only present since version 2 of this box and is *not*
+    /// null terminated but directly followed by the item name
+    fn
+    is_exif_item
+    (
+        &self
+    )
+    -> bool
+    {
+        return self.header.get_version() >= 2 
+            && self.additional_data.starts_with(b"Exif");
+    }
 }
 
 impl
@@ -134,49 +152,65 @@ ItemInfoEntryBox
 impl
 ItemInfoBox
 {
-    pub fn
-    get_exif_item
+    pub(crate) fn
+    get_exif_item_ids
     (
         &self
     )
-    -> Option<&ItemInfoEntryBox>
+    -> Vec<u32>
     {
         return self.items.iter()
-            .find(|item| item.item_name == "Exif")
+            .filter(|item| item.is_exif_item())
+            .map(|item| item.item_id)
+            .collect();
     }
 
-    /// Creates a new item in this item information box and returns by how many
-    /// bytes this box got longer
+    /// Creates a new item in this item information box
     pub(crate) fn
     create_new_item_info_entry
     (
         &mut self,
-        iloc_id: u32,
-        name:    &str,
+        item_id:   u32,
+        item_type: &[u8; 4],
     )
-    -> u64
+    -> Result<(), std::io::Error>
     {
-        self.items.push(ItemInfoEntryBox 
-            { 
-                header:                BoxHeader::new_exif_info_entry_box_header(), 
-                item_id:               iloc_id as u16, 
-                item_protection_index: 0, 
-                item_name:             name.to_string(), 
-                additional_data:       Vec::new()
-            }
-        );
+        if self.header.get_version() == 0 && self.item_count >= u16::MAX as usize
+        {
+            return io_error!(Unsupported, "Too many entries in iinf box");
+        }
+
+        let mut additional_data = item_type.to_vec();
+        additional_data.push(0x00); // null terminator for empty item name
+
+        let mut new_entry = ItemInfoEntryBox 
+        { 
+            header:                BoxHeader::new_exif_info_entry_box_header(), 
+            item_id, 
+            item_protection_index: 0, 
+            additional_data
+        };
+
+        // IDs that don't fit into 16 bits require version 3
+        if item_id > u16::MAX as u32
+        {
+            new_entry.header.set_version(Some(3));
+        }
 
+        let new_entry_size = new_entry.serialize().len() as u64;
+        new_entry.header.set_box_size(new_entry_size);
+
+        self.items.push(new_entry);
         self.item_count += 1;
 
         // Due to the addition of a new item, the size in the header needs to 
         // be adjusted as well
         // TODO: make this more efficient by only computing how much memory is
         // needed, not by actually serializing (and thus, allocating memory)
-        let old_box_size = self.header.get_box_size();
         let new_box_size = self.serialize().len() as u64;
         self.header.set_box_size(new_box_size);
 
-        return new_box_size - old_box_size;
+        return Ok(());
     }
 }
 
@@ -236,10 +270,15 @@ ItemInfoEntryBox
     {
         let mut serialized = self.header.serialize();
         
-        serialized.extend(to_u8_vec_macro!(u16, &self.item_id,               &Endian::Big).iter());
+        if self.header.get_version() == 3
+        {
+            serialized.extend(to_u8_vec_macro!(u32, &self.item_id,           &Endian::Big).iter());
+        }
+        else
+        {
+            serialized.extend(to_u8_vec_macro!(u16, &(self.item_id as u16),  &Endian::Big).iter());
+        }
         serialized.extend(to_u8_vec_macro!(u16, &self.item_protection_index, &Endian::Big).iter());
-        serialized.extend(self.item_name.bytes());
-        serialized.push(0x00); // null terminator for item name string
         serialized.extend(&self.additional_data);
 
         return serialized;
diff --git a/src/heif/boxes/item_location.rs b/src/heif/boxes/item_location.rs
index e7aaceb..ff9b338 100644
--- a/src/heif/boxes/item_location.rs
+++ b/src/heif/boxes/item_location.rs
@@ -367,12 +367,12 @@ ItemLocationBox
     get_item_location_entry
     (
         &self,
-        item_id: u16
+        item_id: u32
     )
     -> Result<&ItemLocationEntry, std::io::Error>
     {
         self.items.iter()
-            .find(|item| item.item_id == item_id as u32)
+            .find(|item| item.item_id == item_id)
             .ok_or(
                 io_error_plain!(
                     Other, 
@@ -381,26 +381,34 @@ ItemLocationBox
             )
     }
 
-    // Returns the ID of the new entry and by how many bytes this box got longer
+    /// Creates a new entry (with one, still empty extent) for the given item
     pub(crate) fn
     create_new_item_location_entry
     (
         &mut self,
-        data_start:  u64,
-        data_length: u64
+        item_id: u32,
     )
-    -> (u32, u64)
+    -> Result<(), std::io::Error>
     {
-        // Determine largest iloc ID so far
-        let old_largest_id = self.items
-            .iter()
-            .map(|x| x.item_id)
-            .max()
-            .unwrap_or(0);
+        if self.header.get_version() < 2
+        && (item_id > u16::MAX as u32 || self.item_count >= u16::MAX as u32)
+        {
+            return io_error!(Unsupported, "No space left for another entry in iloc box");
+        }
+
+        // The new entry needs some place to store the location of its data
+        if self.offset_size == 0 && self.base_offset_size == 0
+        {
+            self.offset_size = 4;
+        }
+        if self.length_size == 0
+        {
+            self.length_size = 4;
+        }
 
         self.items.push(ItemLocationEntry 
             {
-                item_id:                          old_largest_id + 1, 
+                item_id, 
                 reserved_and_construction_method: 0, 
                 data_reference_index:             0, 
                 base_offset:                      0,
@@ -409,8 +417,8 @@ ItemLocationBox
                     ItemLocationEntryExtentEntry 
                     {
                         extent_index:  Some(0),
-                        extent_offset: data_start,
-                        extent_length: data_length,
+                        extent_offset: 0,
+                        extent_length: 0,
                     }
                 ]
             }
@@ -422,57 +430,89 @@ ItemLocationBox
         // be adjusted as well
         // TODO: make this more efficient by only computing how much memory is
         // needed, not by actually serializing (and thus, allocating memory)
-        let old_box_size = self.header.get_box_size();
         let new_box_size = self.serialize().len() as u64;
         self.header.set_box_size(new_box_size);
 
-        return (
-            self.items.last_mut().expect("No items present after insertion").item_id,
-            new_box_size - old_box_size
-        );
+        return Ok(());
     }
 
+    /// Sets the locations of the extents of the item at the given index, using 
+    /// the given offsets (that already include the base offset)
     pub(crate) fn
-    add_to_extents
+    set_extent_offsets
     (
         &mut self,
-        value: i64
+        item_index: usize,
+        offsets:    &[u64]
     )
+    -> Result<(), std::io::Error>
     {
-        for item in &mut self.items
+        let fits_into = |value: u64, field_size: u8| match field_size
         {
-            if item.get_construction_method() == ItemConstructionMethod::IDAT
-            {
-                // In this case the offset information is relative to the
-                // position of an idat box -> not affected by change in length
-                // of another box
-                continue;
-            }
+            0 => value == 0,
+            4 => value <= u32::MAX as u64,
+            _ => true,
+        };
 
-            if item.get_construction_method() != ItemConstructionMethod::FILE
-            {
-                // Offset is relative to another item's extent
-                // Also nothing to do here (for now...)
-                continue;
-            }
+        let item      = &mut self.items[item_index];
+        let old_base  = item.base_offset;
+        let new_first = offsets.first().copied().unwrap_or(0);
+        let old_first = item.extents.first().map_or(0, |first| first.extent_offset);
+
+        // Candidates for the new base offset:
+        // - moved by the same amount as the extents
+        // - same as before
+        // - the smallest of the new offsets
+        let mut candidates = Vec::new();
+        if old_base > 0 && new_first >= old_first
+        {
+            candidates.push(new_first - old_first);
+        }
+        candidates.push(old_base);
+        candidates.push(offsets.iter().min().copied().unwrap_or(0));
 
-            if item.data_reference_index != 0
+        for base in candidates
+        {
+            if !fits_into(base, self.base_offset_size)
+            || !offsets.iter().all(|offset| {
+                    *offset >= base && fits_into(*offset - base, self.offset_size)
+                })
             {
-                // A value other than 0 implies that this extent refers to
-                // another file, not this one, so we can also skip this
-                // See ISO/IEC 14496-12:2015 § 8.11.3.1, p. 78
                 continue;
             }
 
-            // For now, just add the value to the extent offsets. 
-            // This may be problematic in case the offset points to a location
-            // before the iloc or iinf boxes, so changing their length won't
-            // affect that offset value
-            for extent in &mut item.extents
+            item.base_offset = base;
+            for (extent, offset) in item.extents.iter_mut().zip(offsets)
             {
-                extent.extent_offset = (extent.extent_offset as i64 + value) as u64;
+                extent.extent_offset = *offset - base;
             }
+            return Ok(());
+        }
+
+        return io_error!(Unsupported, "New extent offset does not fit into iloc box");
+    }
+
+    /// Sets the length of the only extent of the item at the given index
+    pub(crate) fn
+    set_extent_length
+    (
+        &mut self,
+        item_index: usize,
+        length:     u64
+    )
+    -> Result<(), std::io::Error>
+    {
+        if (self.length_size == 0) || (self.length_size == 4 && length > u32::MAX as u64)
+        {
+            return io_error!(Unsupported, "New extent length does not fit into iloc box");
         }
+
+        for extent in &mut self.items[item_index].extents
+        {
+            extent.extent_length = length;
+        }
+
+        return Ok(());
     }
 }
 
diff --git a/src/heif/boxes/item_reference.rs b/src/heif/boxes/item_reference.rs
index 09fc459..5feb8d0 100644
--- a/src/heif/boxes/item_reference.rs
+++ b/src/heif/boxes/item_reference.rs
@@ -48,7 +48,9 @@ SingleItemTypeReferenceBox
     )
     -> Result<Self, std::io::Error>
     {
-        let     header     = BoxHeader::read_box_header(cursor)?;
+        // The type of the reference may coincide with that of a full box, e.g.
+        // `iloc`, but this is never one
+        let     header     = BoxHeader::read_simple_box_header(cursor)?;
         let mut to_item_ID = Vec::new();
 
         // Depending on the version stored in the header of the iref box,
@@ -168,10 +170,17 @@ ItemReferenceBox
         from_item_ID:   u32,
         to_item_ID:     Vec<u32>
     )
-    -> u64
+    -> Result<(), std::io::Error>
     {
         // Determine is_large and the box size
         let is_large = self.header.get_version() >= 1;
+
+        if !is_large 
+        && (from_item_ID > u16::MAX as u32 || to_item_ID.iter().any(|id| *id > u16::MAX as u32))
+        {
+            return io_error!(Unsupported, "Item ID does not fit into iref box");
+        }
+
         let ID_size  = if is_large { 4 } else { 2 };
         let box_size = 0
             + 8                                 // header
@@ -199,7 +208,7 @@ ItemReferenceBox
         let new_iref_box_size = old_iref_box_size + box_size;
         self.header.set_box_size(new_iref_box_size);
 
-        return box_size;
+        return Ok(());
     }
 }
 
diff --git a/src/heif/boxes/meta.rs b/src/heif/boxes/meta.rs
index 2184a8a..557c802 100644
--- a/src/heif/boxes/meta.rs
+++ b/src/heif/boxes/meta.rs
@@ -9,6 +9,7 @@ use crate::endian::Endian;
 use crate::general_file_io::io_error;
 use crate::u8conversion::U8conversion;
 use crate::u8conversion::to_u8_vec_macro;
+use crate::util::read_be_u16;
 use crate::util::read_be_u32;
 
 use crate::heif::box_type::BoxType;
@@ -16,6 +17,7 @@ use crate::heif::box_header::BoxHeader;
 use crate::heif::boxes::GenericIsoBox;
 use crate::heif::boxes::ParsableIsoBox;
 
+use crate::heif::boxes::iso::IsoBox;
 use crate::heif::boxes::item_info::ItemInfoBox;
 use crate::heif::boxes::item_location::ItemLocationBox;
 use crate::heif::boxes::item_reference::ItemReferenceBox;
@@ -123,29 +125,96 @@ MetaBox
         return None;
     }
 
+    fn
+    get_sub_box_mut
+    <T: GenericIsoBox + 'static>
+    (
+        &mut self,
+        box_type: BoxType
+    )
+    -> Result<&mut T, std::io::Error>
+    {
+        match self.other_boxes.iter_mut()
+            .find(|b| b.get_header().get_box_type() == box_type)
+            .and_then(|b| b.as_any_mut().downcast_mut::<T>())
+        {
+            Some(unboxed) => Ok(unboxed),
+            None => io_error!(
+                NotFound,
+                format!("No {:?} box found in MetaBox", box_type)
+            ),
+        }
+    }
+
+    /// The ID of the primary item, as stored in the `pitm` box
+    fn
+    get_primary_item_id
+    (
+        &self
+    )
+    -> Option<u32>
+    {
+        let pitm = self.other_boxes.iter()
+            .find(|b| b.get_header().get_box_type() == BoxType::pitm)?;
+
+        let     serialized = pitm.serialize();
+        let mut cursor     = Cursor::new(
+            serialized.get(pitm.get_header().get_header_size() as usize..)?
+        );
+
+        return match pitm.get_header().get_version()
+        {
+            0 => read_be_u16(&mut cursor).ok().map(|id| id as u32),
+            _ => read_be_u32(&mut cursor).ok(),
+        };
+    }
+
+    /// Creates a new item for storing EXIF data, consisting of
+    /// - an item location entry with a single extent (that does not point to
+    ///   any data yet)
+    /// - an item information entry that tells us that this is EXIF data
+    /// - an item reference entry that links the EXIF data to the primary item
     pub(crate) fn
-    create_new_item_reference_box_if_none_exists_yet
+    create_new_exif_item
     (
         &mut self
     )
-    -> u64
+    -> Result<u32, std::io::Error>
     {
-        if self.get_item_reference_box().is_some()
+        let largest_id = std::cmp::max(
+            self.get_item_location_box()?.items.iter().map(|x| x.item_id).max().unwrap_or(0),
+            self.get_item_info_box()?.    items.iter().map(|x| x.item_id).max().unwrap_or(0),
+        );
+        let new_item_id = match largest_id.checked_add(1)
+        {
+            Some(id) => id,
+            None     => return io_error!(Unsupported, "No item ID left for EXIF data"),
+        };
+        let primary_item_id = self.get_primary_item_id().unwrap_or(1);
+
+        // Create the iref box if there is none yet
+        if self.get_item_reference_box().is_none()
         {
-            return 0;
+            let index = self.other_boxes
+                .iter()
+                .position(|x| x.get_header().get_box_type() == BoxType::iinf)
+                .unwrap_or(0);
+
+            self.other_boxes.insert(index, Box::new(ItemReferenceBox::new()));
         }
 
-        let new_iref_box      = ItemReferenceBox::new();
-        let new_iref_box_size = new_iref_box.get_header().get_box_size();
+        self.get_sub_box_mut::<ItemLocationBox>(BoxType::iloc)?
+            .create_new_item_location_entry(new_item_id)?;
+        self.get_sub_box_mut::<ItemInfoBox>(BoxType::iinf)?
+            .create_new_item_info_entry(new_item_id, b"Exif")?;
+        self.get_sub_box_mut::<ItemReferenceBox>(BoxType::iref)?
+            .create_new_single_item_reference_box("cdsc", new_item_id, vec![primary_item_id])?;
 
-        let index = self.other_boxes
-            .iter()
-            .position(|x| x.get_header().get_box_type() == BoxType::iinf)
-            .expect("Could not find iinf box to insert iref before");
-         
-        self.other_boxes.insert(index, Box::new(new_iref_box));
+        // Adjust the size of this box as well
+        let new_box_size = self.serialize().len() as u64;
+        self.header.set_box_size(new_box_size);
 
-        return new_iref_box_size;
+        return Ok(new_item_id);
     }
 }
 
@@ -220,10 +289,12 @@ MetaBox
             let mut sub_cursor = Cursor::new(
                 &local_cursor.get_ref()[data_start..sub_end as usize]
             );
-            let sub_box = read_box_based_on_header(
-                &mut sub_cursor, 
-                sub_header
-            )?;
+            let sub_box = match sub_header.get_box_type()
+            {
+                // A nested meta box is of no interest
+                BoxType::meta => IsoBox::construct_from_cursor(&mut sub_cursor, sub_header),
+                _             => read_box_based_on_header     (&mut sub_cursor, sub_header),
+            }?;
             local_cursor.set_position(sub_end);
 
             other_boxes.push(sub_box);
diff --git a/src/heif/container.rs b/src/heif/container.rs
index 0531ce0..ebabb6a 100644
--- a/src/heif/container.rs
+++ b/src/heif/container.rs
@@ -5,27 +5,64 @@ use std::io::Cursor;
 use std::io::Read;
 use std::io::Seek;
 
+use crate::ifd::ExifTagGroup;
 use crate::general_file_io::io_error;
 use crate::general_file_io::EXIF_HEADER;
+use crate::heif::box_header::BoxHeader;
 use crate::heif::box_type::BoxType;
 use crate::heif::boxes::item_location::ItemConstructionMethod;
-use crate::heif::boxes::item_reference::ItemReferenceBox;
 use crate::heif::boxes::meta::MetaBox;
 use crate::heif::read_next_box;
 
 use crate::metadata::Metadata;
-use crate::util::insert_multiple_at;
-use crate::util::range_remove;
 use crate::util::read_be_u32;
 
 use super::boxes::GenericIsoBox;
-use super::boxes::item_info::ItemInfoBox;
-use super::boxes::item_location::ItemLocationBox;
 
 pub struct
 HeifContainer
 {
-    boxes: Vec<Box<dyn GenericIsoBox>>
+    boxes:     Vec<Box<dyn GenericIsoBox>>,
+    positions: Vec<(u64, u64)>, // start and end of each box in the file
+}
+
+/// Describes that the bytes from `start` to `end` in the original file get 
+/// replaced by the given new contents
+struct
+Edit
+{
+    start:    u64,
+    end:      u64,
+    contents: Vec<u8>,
+}
+
+impl
+Edit
+{
+    fn
+    get_delta
+    (
+        &self
+    )
+    -> i64
+    {
+        return self.contents.len() as i64 - (self.end - self.start) as i64;
+    }
+}
+
+/// Determines where the byte at the given position in the original file can be
+/// found after applying the given edits
+fn
+get_new_position
+(
+    edits:    &[Edit],
+    position: u64
+)
+-> u64
+{
+    return edits.iter()
+        .filter(|edit| edit.end <= position)
+        .fold(position, |new_position, edit| new_position.saturating_add_signed(edit.get_delta()));
 }
 
 // General structure of ISO container
@@ -82,14 +119,21 @@ HeifContainer
     )
     -> Result<Self, std::io::Error>
     {
-        let mut boxes = Vec::new();
+        let mut boxes     = Vec::new();
+        let mut positions = Vec::new();
+        let mut start     = cursor.stream_position()?;
 
         while let Ok(next_box) = read_next_box(cursor)
         {
+            let end = cursor.stream_position()?;
+
             boxes.push(next_box);
+            positions.push((start, end));
+
+            start = end;
         }
 
-        return Ok(Self { boxes })
+        return Ok(Self { boxes, positions })
     }
 
     fn
@@ -133,379 +177,421 @@ HeifContainer
     
 
     fn
-    get_item_id_exif_data
+    get_exif_item_ids
     (
         &self
     )
-    -> Result<u16, std::io::Error>
+    -> Result<Vec<u32>, std::io::Error>
     {
-        if let Ok(meta) = self.get_meta_box() 
-        {
-            if let Some(item) = meta.get_item_info_box()?.get_exif_item() {
-                return Ok(item.item_id);
-            }
-        }
-
-        return io_error!(Other, "No EXIF item found!");
+        return Ok(self.get_meta_box()?.get_item_info_box()?.get_exif_item_ids());
     }
 
     fn
     get_exif_data_pos_and_len
     (
         &self,
-        exif_item_id: u16,
+        exif_item_id: u32,
     )
     -> Result<(u64, u64), std::io::Error>
     {
-        let exif_item = match self.get_meta_box() 
-        {
-            Ok(meta) => meta.get_item_location_box()?.get_item_location_entry(exif_item_id)?,
-            Err(e) => return Err(e),
-        };
-
-        let exif_extents = &exif_item.extents;
-        if exif_extents.len() != 1 
-        {
-            return io_error!(Other, "Expected exactly one EXIF extent info entry");
-        }
+        let exif_item = self.get_meta_box()?.get_item_location_box()?.get_item_location_entry(exif_item_id)?;
 
         match exif_item.get_construction_method()
         {
-            super::boxes::item_location::ItemConstructionMethod::FILE => {
-                if let Some(first) = exif_extents.first() {
-                    return Ok((
-                        first.extent_offset + exif_item.base_offset,
-                        first.extent_length
-                    ));
-                } else {
-                    return io_error!(Other, "Expected one EXIF extent");
-                }
-            },
+            ItemConstructionMethod::FILE => (),
 
-            super::boxes::item_location::ItemConstructionMethod::IDAT => {
+            ItemConstructionMethod::IDAT => {
                 return io_error!(Other, "HEIF: item constr. method 'IDAT' currently not supported. Please create a new ticket at https://github.com/TechnikTobi/little_exif with an example image file");
             },
 
-            super::boxes::item_location::ItemConstructionMethod::UNKNOWN => {
+            ItemConstructionMethod::UNKNOWN => {
                 return io_error!(InvalidData, "HEIF: unknown item construction method");
             },
 
-            super::boxes::item_location::ItemConstructionMethod::ITEM => {
+            ItemConstructionMethod::ITEM => {
                 return io_error!(Other, "HEIF: item constr. method 'ITEM' currently not supported. Please create a new ticket at https://github.com/TechnikTobi/little_exif with an example image file");
             },
         }
+
+        if exif_item.data_reference_index != 0
+        {
+            return io_error!(Other, "HEIF: EXIF data that is located in another file is not supported");
+        }
+
+        let exif_extents = &exif_item.extents;
+        if exif_extents.len() != 1 
+        {
+            return io_error!(Other, "Expected exactly one EXIF extent info entry");
+        }
+
+        let length = exif_extents[0].extent_length;
+        let start  = exif_extents[0].extent_offset.checked_add(exif_item.base_offset);
+
+        return match start.and_then(|start| start.checked_add(length).map(|_| start))
+        {
+            Some(start) => Ok((start, length)),
+            None        => io_error!(InvalidData, "Invalid position of EXIF data"),
+        };
     }
 
-    pub(super) fn
-    get_exif_data
+    /// Reads the exif area, including the offset to the TIFF header
+    fn
+    read_exif_area
     <T: Seek + Read>
     (
         &self,
-        cursor: &mut T,
+        cursor:       &mut T,
+        exif_item_id: u32
     )
     -> Result<Vec<u8>, std::io::Error>
     {
-        // Locate exif data
-        let exif_item_id    = self.get_item_id_exif_data()?;
         let (start, length) = self.get_exif_data_pos_and_len(exif_item_id)?;
+        let mut exif_area   = Vec::new();
 
-        // Reset cursor to start of exif data
         cursor.seek(std::io::SeekFrom::Start(start))?;
+        cursor.take(length).read_to_end(&mut exif_area)?;
 
-        // Read in the first 4 bytes, which gives the offset to the start
-        // of the TIFF header and seek to that
-        let exif_tiff_header_offset = read_be_u32(cursor)? as usize;
+        if exif_area.len() as u64 != length
+        {
+            return io_error!(UnexpectedEof, "EXIF data is located beyond the end of the file");
+        }
 
-        cursor.seek(std::io::SeekFrom::Current(exif_tiff_header_offset as i64))?;
+        return Ok(exif_area);
+    }
 
-        if length < 4 + exif_tiff_header_offset as u64
+    /// Determines at what position inside the exif area the actual data starts
+    fn
+    get_exif_data_start
+    (
+        exif_area: &[u8]
+    )
+    -> Result<usize, std::io::Error>
+    {
+        // Read in the first 4 bytes, which gives the offset to the start
+        // of the TIFF header
+        let exif_tiff_header_offset = read_be_u32(&mut Cursor::new(exif_area))? as u64;
+
+        if (exif_area.len() as u64) < 4 + exif_tiff_header_offset
         {
             return io_error!(
                 InvalidData,
                 format!(
                     "EXIF data length ({}) is smaller than expected minimum size ({})",
-                    length,
-                    4 + exif_tiff_header_offset as u64
+                    exif_area.len(),
+                    4 + exif_tiff_header_offset
                 )
             );
         }
 
-        // Read in the remaining bytes
-        let mut exif_buffer = vec![0u8; 
-            length as usize 
-            - 4                       // the 4 bytes that store the offset
-            - exif_tiff_header_offset // the actual offset
-        ];
-        cursor.read_exact(&mut exif_buffer)?;
+        return Ok(4 + exif_tiff_header_offset as usize);
+    }
+
+    pub(super) fn
+    get_exif_data
+    <T: Seek + Read>
+    (
+        &self,
+        cursor: &mut T,
+    )
+    -> Result<Vec<u8>, std::io::Error>
+    {
+        // Locate exif data
+        let exif_item_id = match self.get_exif_item_ids()?.first()
+        {
+            Some(id) => *id,
+            None     => return io_error!(Other, "No EXIF item found!"),
+        };
+
+        let exif_area = self.read_exif_area(cursor, exif_item_id)?;
+        let start     = Self::get_exif_data_start(&exif_area)?;
 
         // Stick a EXIF_HEADER in the front
         let mut full_exif_data = EXIF_HEADER.to_vec();
-        full_exif_data.append(&mut exif_buffer);
+        full_exif_data.extend(&exif_area[start..]);
 
         return Ok(full_exif_data);
     }
 
     /// Constructs a new version of the exif data area of the HEIF file
-    /// the i64 tells us the delta in bytes. If negative, the new area is
-    /// shorter than the old one, positive if longer
-    #[allow(unused_assignments)]
     fn
     construct_new_exif_data_area
-    <T: Seek + Read>
     (
-        &self,
-        cursor:   &mut T,
-        metadata: &Metadata,
+        old_exif_area: &[u8],
+        metadata:      &Metadata,
     )
-    -> Result<(Vec<u8>, i64), std::io::Error>
+    -> Result<Vec<u8>, std::io::Error>
     {
-        // The buffer containing the new metadata that gets returned
-        let mut new_exif_buffer;
-
-        // Try to locate the old exif data. 
-        let exif_item_id = self.get_item_id_exif_data()?;
-
-        // Determine the start and length of the previous exif data area
-        let (start, length) = self.get_exif_data_pos_and_len(exif_item_id)?;
-
-        // If the length is zero, we assume that this is a previously newly 
-        // created exif data area, which requires special handling.
-        // If the length is non-zero, there has been exif data before:
-        if length > 0
-        {
-            // Reset cursor to start of exif data
-            cursor.seek(std::io::SeekFrom::Start(start))?;
-
-            // Read in all of this area
-            let mut exif_buffer = vec![0u8; length as usize];
-            cursor.read_exact(&mut exif_buffer)?;
-
-            // Decode the first 4 bytes, which tells us where to cut off the old 
-            // data and replace with the new one
-            let mut local_cursor            = Cursor::new(exif_buffer[0..4].to_vec());
-            let     exif_tiff_header_offset = read_be_u32(&mut local_cursor)?;
-
-            // Cut off data, starting at the old TIFF header and replace with new
-            new_exif_buffer = exif_buffer[0..exif_tiff_header_offset as usize + 4].to_vec();
-        }
-        else
+        // If there has been exif data before: Cut off this data, starting at 
+        // the old TIFF header and replace with new. Otherwise create a new 
+        // exif header, starting with an empty TIFF header.
+        let mut new_exif_buffer = match Self::get_exif_data_start(old_exif_area)
         {
-            // Create a new exif header, starting with an empty TIFF header.
-            // new_exif_buffer = 0_u32.to_be_bytes().to_vec();
-            new_exif_buffer = [0x00, 0x00, 0x00, 0x06].to_vec();
-            new_exif_buffer.extend(EXIF_HEADER.to_vec());
-        }
+            Ok(start) => old_exif_area[0..start].to_vec(),
+            Err(_)    => Self::construct_empty_exif_data_area(),
+        };
 
-        // Append the encoded metadata to the old/newly created TIFF header and
-        // compute the delta in length
+        // Append the encoded metadata to the old/newly created TIFF header
         if !metadata.get_ifds().is_empty()
         {
             new_exif_buffer.append(&mut metadata.encode()?);
         }
-        let delta = new_exif_buffer.len() as i64 - length as i64;
 
-        return Ok((
-            new_exif_buffer,
-            delta 
-        ));
+        return Ok(new_exif_buffer);
     }
 
+    fn
+    construct_empty_exif_data_area
+    ()
+    -> Vec<u8>
+    {
+        let mut exif_area = [0x00, 0x00, 0x00, 0x06].to_vec();
+        exif_area.extend(EXIF_HEADER.to_vec());
+        return exif_area;
+    }
 
+    /// Constructs the header of the given box, assuming that its contents get
+    /// changed in size by `delta` bytes
     fn
-    get_start_address_for_new_exif_area
+    construct_resized_header
     (
-        &self
+        header: &BoxHeader,
+        delta:  i64
     )
-    -> u64
+    -> Result<Vec<u8>, std::io::Error>
     {
-        // Assumes that the new exif area that gets created should start at the
-        // end of the mdat area
+        let mut new_header = header.clone();
 
-        let mut byte_count = 0;
-
-        for b in &self.boxes
+        // A size of zero means that the box extends to the end of the file
+        if header.get_box_size() != 0
         {
-            byte_count += b.get_header().get_box_size();
+            let new_size = header.get_box_size().saturating_add_signed(delta);
 
-            if b.get_header().get_box_type() == BoxType::mdat
+            if !header.uses_largesize() && new_size > u32::MAX as u64
             {
-                return byte_count as u64;
+                return io_error!(Unsupported, "New box size does not fit into box header");
             }
+
+            new_header.set_box_size(new_size);
         }
 
-        return u64::MAX;
+        return Ok(new_header.serialize());
     }
 
-
-    pub(super) fn
-    generic_write_metadata
+    /// The chunks of image sequence tracks are located via offsets as well
+    fn
+    update_chunk_offsets
     (
-        &mut self,
-        file_buffer: &mut Vec<u8>,
-        metadata:    &    Metadata
+        data:  &mut [u8],
+        depth: usize,
+        edits: &[Edit]
     )
     -> Result<(), std::io::Error>
     {
-        // Find out where old exif is located, needed to determine which iloc
-        // entries need to be updated
-        let mut id = self.get_item_id_exif_data();
+        // moov > trak > mdia > minf > stbl > stco
+        let containers = [b"trak", b"mdia", b"minf", b"stbl"];
 
-        // Check that the ID is okay - if not, there is no exif area yet and
-        // we need to create one!
-        if id.is_err()
+        let mut position = 0usize;
+        while position < data.len()
         {
-            // What we need to do at this point is
-            // - Create a new item location entry that points to the EXIF data
-            // - Create an item information entry that tells us that the iloc 
-            //   entry points to EXIF data
-            // - Create an item reference entry that links the EXIF data to the
-            //   image/iloc ID #1 -> is this always #1?
-
-            // Where to put the new exif area
-            let new_exif_start = self.get_start_address_for_new_exif_area();
-
-            // If there is no iref box yet, create one so we can find one,
-            // and get the size delta of the new box for extents
-            let mut iref_size_delta = self.get_meta_box_mut()?.create_new_item_reference_box_if_none_exists_yet();
-
-            // Acquire the item location, the item information and the item 
-            // reference boxes that are inside the meta box. For some reason, 
-            // this is not trivial - using e.g. get_item_location_box_mut() 
-            // does not work due to (according to the borrow checker) multiple 
-            // mutable usages of self
-            let mut iloc_opt = None;
-            let mut iinf_opt = None;
-            let mut iref_opt = None;
-
-            let meta_mut_ref = self.get_meta_box_mut()?;
-            for other_box in &mut meta_mut_ref.other_boxes
+            let header = BoxHeader::read_box_header(&mut Cursor::new(&data[position..]))?;
+            let size   = match header.get_box_size()
             {
-                if other_box.get_header().get_box_type() == BoxType::iloc
-                {
-                    iloc_opt = other_box
-                        .as_any_mut()
-                        .downcast_mut::<ItemLocationBox>();
-                }
-                else if other_box.get_header().get_box_type() == BoxType::iinf
-                {
-                    iinf_opt = other_box
-                        .as_any_mut()
-                        .downcast_mut::<ItemInfoBox>();
-                }
-                else if other_box.get_header().get_box_type() == BoxType::iref
+                0    => (data.len() - position) as u64,
+                size => size
+            };
+
+            if size < header.get_header_size() || size > (data.len() - position) as u64
+            {
+                return io_error!(InvalidData, "Invalid size of box inside of moov box");
+            }
+
+            let box_type = header.get_box_type().to_4_bytes();
+            let contents = &mut data[position..position + size as usize];
+            position    += size as usize;
+
+            if depth < containers.len() && &box_type == containers[depth]
+            {
+                Self::update_chunk_offsets(
+                    &mut contents[header.get_header_size() as usize..], 
+                    depth + 1,
+                    edits
+                )?;
+            }
+            else if depth == containers.len() && (&box_type == b"stco" || &box_type == b"co64")
+            {
+                // Skip size, type, version, flags and the number of entries
+                let first_entry = if header.uses_largesize() { 24 } else { 16 };
+                let entry_size  = if &box_type == b"stco"    {  4 } else {  8 };
+
+                for entry in contents.get_mut(first_entry..)
+                    .unwrap_or_default()
+                    .chunks_exact_mut(entry_size)
                 {
-                    iref_opt = other_box
-                        .as_any_mut()
-                        .downcast_mut::<ItemReferenceBox>();
+                    let old_offset = entry.iter().fold(0u64, |value, byte| value << 8 | *byte as u64);
+                    let new_offset = get_new_position(edits, old_offset);
+
+                    if entry_size == 4 && new_offset > u32::MAX as u64
+                    {
+                        return io_error!(Unsupported, "New chunk offset does not fit into stco box");
+                    }
+
+                    entry.copy_from_slice(&new_offset.to_be_bytes()[8 - entry_size..]);
                 }
             }
+        }
 
-            let iloc = match iloc_opt {
-                Some(v) => v,
-                None => return io_error!(Other, "iloc box should exist"),
-            };
-            let iinf = match iinf_opt {
-                Some(v) => v,
-                None => return io_error!(Other, "iinf box should exist"),
-            };
-            let iref = match iref_opt {
-                Some(v) => v,
-                None => return io_error!(Other, "iref box should exist"),
-            };
+        return Ok(());
+    }
 
-            // Note that the given `new_exif_start` value is based on old
-            // length values (which change due to adding a new item to both the
-            // iloc and iinf boxes) - but this does not matter as this will 
-            // be updated anyway later by `add_to_extents`
-            // This way, we don't need any exception during the update procedure
-            let (new_iloc_id, iloc_size_delta) = iloc.create_new_item_location_entry(
-                new_exif_start,
-                0
-            );
-            let               iinf_size_delta  = iinf.create_new_item_info_entry(
-                new_iloc_id, 
-                "Exif"
-            );
-                              iref_size_delta += iref.create_new_single_item_reference_box(
-                "cdsc",             // TODO: Check if this is always this type?
-                new_iloc_id, 
-                vec![1]             // TODO: Check if this is always item #1?
-            );
+    /// Determines the new contents of the file when writing the given metadata
+    fn
+    construct_new_file
+    (
+        &mut self,
+        file_buffer: &[u8],
+        metadata:    &Metadata
+    )
+    -> Result<Vec<u8>, std::io::Error>
+    {
+        // The meta box is the only one that gets constructed anew, so make 
+        // sure that nothing gets lost when doing that
+        let meta_index = match self.boxes.iter()
+            .position(|b| b.get_header().get_box_type() == BoxType::meta)
+        {
+            Some(index) => index,
+            None        => return io_error!(Other, "No meta box found in HEIF container")
+        };
+        let (meta_start, meta_end) = self.positions[meta_index];
+        if self.boxes[meta_index].serialize() != file_buffer[meta_start as usize..meta_end as usize]
+        {
+            return io_error!(Unsupported, "HEIF: can't rewrite the meta box");
+        }
 
-            // Fix the extents in the iloc box
-            iloc.add_to_extents(
-                (iloc_size_delta + iinf_size_delta + iref_size_delta) as i64
-            );
+        // Get the areas of the already existing EXIF items
+        let mut exif_items = Vec::new();
+        for id in self.get_exif_item_ids()?
+        {
+            let area = self.get_exif_data_pos_and_len(id)?;
 
-            // Fix up the size of the meta box as well
-            let new_box_size = self.get_meta_box()?.serialize().len() as u64;
-            self.get_meta_box_mut()?.get_header_mut().set_box_size(new_box_size);
+            // Any further items are only of interest if they have some data
+            if exif_items.is_empty() || area.1 > 0
+            {
+                exif_items.push((id, area));
+            }
+        }
 
-            // No change to the mdat data at this point as we set up the
-            // iloc item so that the exif area currently has a length of zero
+        // If there is none yet, create a new item
+        if exif_items.is_empty()
+        {
+            exif_items.push((self.get_meta_box_mut()?.create_new_exif_item()?, (0, 0)));
+        }
 
-            // Now we have a valid exif area with an iloc ID!
-            id = Ok(new_iloc_id as u16);
+        // Without any data so far, the new data is located at the end of the 
+        // mdat box. Should there be no mdat box, create one after the meta box
+        let mut new_mdat = false;
+        if exif_items[0].1.1 == 0
+        {
+            exif_items[0].1.0 = match self.boxes.iter()
+                .position(|b| b.get_header().get_box_type() == BoxType::mdat)
+            {
+                Some(index) => self.positions[index].1,
+                None        => { new_mdat = true; meta_end },
+            };
         }
 
-        // Get position and length of current exif area
-        let (old_exif_pos, old_exif_len) = match &id {
-            Ok(idv) => self.get_exif_data_pos_and_len(*idv)?,
-            Err(_) => (0, 0),
-        };
+        // Determine which parts of the file are about to change. First the meta
+        // box: its contents are not final yet, but its size is
+        let mut edits = vec![Edit 
+        { 
+            start:    meta_start, 
+            end:      meta_end, 
+            contents: self.get_meta_box()?.serialize()
+        }];
+
+        // The first exif area gets the new data, if there are any others these
+        // must not keep old data
+        for (index, (id, (start, length))) in exif_items.iter().enumerate()
+        {
+            if exif_items[..index].iter().any(|(_, area)| area == &(*start, *length))
+            {
+                // Same area as some previous item
+                continue;
+            }
 
-        // Get cursor for file
-        let mut cursor = Cursor::new(file_buffer);
+            let contents = if index == 0 && *length > 0
+            {
+                let old_exif_area = self.read_exif_area(&mut Cursor::new(file_buffer), *id)?;
+                Self::construct_new_exif_data_area(&old_exif_area, metadata)?
+            }
+            else if index == 0
+            {
+                Self::construct_new_exif_data_area(&[], metadata)?
+            }
+            else
+            {
+                Self::construct_empty_exif_data_area()
+            };
 
-        // Construct new exif data area
-        let (mut new_exif_area, delta) = self.construct_new_exif_data_area(
-            &mut cursor, 
-            metadata
-        )?;
+            edits.push(Edit { start: *start, end: start + length, contents });
+        }
 
-        let meta_mut = self.get_meta_box_mut()?;
-        for item in &mut meta_mut.get_item_location_box_mut()?.items
+        // Find out where the edits are located after applying all of them
+        edits.sort_by_key(|edit| (edit.start, edit.end));
+
+        let     mdat_header_size   = if new_mdat { 8 } else { 0 };
+        let mut new_exif_positions = Vec::new();
+        for (id, (start, length)) in &exif_items
         {
-            // First, check if any extent of this item has the same offset as
-            // the old exif data area. In that case, there must be only one
-            // extent - other cases can't be handled right now
-            if item.extents.iter()
-                .any(|extent| {
-                    item.base_offset + extent.extent_offset == old_exif_pos
-                })
+            let index = match edits.iter()
+                .position(|edit| (edit.start, edit.end) == (*start, start + length))
             {
-                assert!(item.extents.len() == 1, "Expect to have exactly one extent info for EXIF!");
-
-                // In case of the EXIF extent information we need to update
-                // the length information, not the offset!
-                let first_extent = match item.extents.first() {
-                    Some(f) => f,
-                    None => return io_error!(Other, "Expected one extent for EXIF"),
-                };
-                let new_ext_len = (
-                    first_extent.extent_length as i64
-                    + delta
-                ) as u64;
-                match item.extents.first_mut() {
-                    Some(fm) => fm.extent_length = new_ext_len,
-                    None => return io_error!(Other, "Expected one extent for EXIF (mut)"),
-                }
+                Some(index) => index,
+                None        => return io_error!(Other, "Could not find edit for EXIF item"),
+            };
+
+            let new_start = edits[..index].iter()
+                .fold(*start, |position, edit| position.saturating_add_signed(edit.get_delta()));
+
+            new_exif_positions.push((
+                *id, 
+                new_start + mdat_header_size, 
+                edits[index].contents.len() as u64
+            ));
+        }
 
-                 continue;
+        // Add the header for a new mdat box
+        if new_mdat
+        {
+            if let Some(edit) = edits.iter_mut().find(|edit| edit.start == meta_end)
+            {
+                let mut mdat = (edit.contents.len() as u32 + 8).to_be_bytes().to_vec();
+                mdat.extend(b"mdat");
+                mdat.append(&mut edit.contents);
+                edit.contents = mdat;
             }
+        }
 
-            if item.get_construction_method() == ItemConstructionMethod::IDAT
+        // Update the item location box
+        let iloc = self.get_meta_box_mut()?.get_item_location_box_mut()?;
+        for index in 0..iloc.items.len()
+        {
+            let item = &iloc.items[index];
+
+            if let Some((_, start, length)) = new_exif_positions.iter()
+                .find(|(id, _, _)| *id == item.item_id)
             {
-                // In this case the offset information is relative to the
-                // position of an idat box -> not affected by change in length
-                // of another box
+                // In case of the EXIF extent information the length 
+                // information needs to be updated as well
+                iloc.set_extent_offsets(index, &[*start])?;
+                iloc.set_extent_length (index, *length)?;
                 continue;
             }
 
             if item.get_construction_method() != ItemConstructionMethod::FILE
             {
-                // Offset is relative to another item's extent
-                // Also nothing to do here (for now...)
+                // In this case the offset information is relative to the
+                // position of an idat box or another item's extent -> not 
+                // affected by change in length of another box
                 continue;
             }
 
@@ -517,91 +603,109 @@ HeifContainer
                 continue;
             }
 
-            if item.base_offset > delta.unsigned_abs()
+            let mut new_offsets = Vec::new();
+            for extent in &item.extents
             {
-                // Potentially modify the entire base offset 
-                // however, we can only do that if all complete offsets
-                // point to an area after the exif data area
-                // So we need to check that first:
-                if item.extents.iter()
-                    .all(|extent| {
-                        item.base_offset + extent.extent_offset >= old_exif_pos
-                    })
+                let start = item.base_offset.saturating_add(extent.extent_offset);
+                let end   = start.saturating_add(extent.extent_length);
+
+                // Can't modify data that is in use by something else
+                if edits.iter().any(|edit| start < edit.end && edit.start < end)
                 {
-                    item.base_offset = (item.base_offset as i64 + delta) as u64;
-                    continue;
+                    return io_error!(Unsupported, "HEIF: EXIF data overlaps with other data");
                 }
+
+                new_offsets.push(get_new_position(&edits, start));
             }
+            iloc.set_extent_offsets(index, &new_offsets)?;
+        }
 
-            // At this point we have no option left but to modify all 
-            // individual extent offsets
-            for extent in &mut item.extents
+        // Now the remaining boxes that are affected
+        let mut box_edits = Vec::new();
+        for (iso_box, (box_start, box_end)) in self.boxes.iter().zip(&self.positions)
+        {
+            let header     = iso_box.get_header();
+            let data_start = box_start + header.get_header_size();
+
+            if header.get_box_type() == BoxType::meta
             {
-                let complete_offset = item.base_offset + extent.extent_offset;
+                continue;
+            }
+
+            // Adjust the size of a box that contains exif data
+            let inner_edits = edits.iter()
+                .filter(|edit| data_start <= edit.start && edit.end <= *box_end);
 
-                if complete_offset > old_exif_pos
+            if inner_edits.clone().count() > 0 
+            {
+                box_edits.push(Edit
                 {
-                    extent.extent_offset = (extent.extent_offset as i64 + delta) as u64;
-                }
+                    start:    *box_start,
+                    end:      data_start,
+                    contents: Self::construct_resized_header(
+                        header, 
+                        inner_edits.map(|edit| edit.get_delta()).sum()
+                    )?
+                });
             }
-        }
 
-        // Now we clear the vec and write the boxes to it
-        // Keep track of how many bytes were written so we know when to 
-        // replace old exif data with new
-        cursor.get_mut().clear();
-
-        let mut written_bytes    = 0usize;
-        let mut new_exif_written = false;
-        let     end_of_old_exif  = (old_exif_pos + old_exif_len) as usize;
+            if header.get_box_type().to_4_bytes() == *b"moov"
+            {
+                let mut moov_data = file_buffer[data_start as usize..*box_end as usize].to_vec();
+                Self::update_chunk_offsets(&mut moov_data, 0, &edits)?;
+                box_edits.push(Edit { start: data_start, end: *box_end, contents: moov_data });
+            }
+        }
 
-        for iso_box in &mut self.boxes
+        // Apart from the meta box (and a new mdat box) all edits must be 
+        // located inside some box
+        for edit in &mut edits
         {
-            let mut serialized = iso_box.serialize();
-
-            // If this box encompasses the exif data area, update its size and
-            // serialize it again
-            // TODO: As this is not the cleanest approach (e.g. what if the
-            // exif area is not in this top level box but some nested box? 
-            // -> requires update of size fields of all boxes "downward") some
-            // other solution needs to be found for this
-            // In the meantime, this should work for the majority of HEIFs
-            if 
-                written_bytes + serialized.len() >= end_of_old_exif 
-                && 
-                !new_exif_written
+            if edit.start == meta_start && edit.end == meta_end
             {
-                let new_size = (iso_box.get_header().get_box_size() as i64 + delta) as u64;
-                iso_box.get_header_mut().set_box_size(new_size);
-                serialized = iso_box.serialize();
-
-                // Write the serialized box with the OLD exif data
-                cursor.get_mut().extend(&serialized);
-
-                // Remove old exif data
-                range_remove(
-                    cursor.get_mut(), 
-                    old_exif_pos as usize, 
-                    (old_exif_pos + old_exif_len) as usize
-                );
-
-                // Insert new exif data
-                insert_multiple_at(
-                    cursor.get_mut(),
-                    old_exif_pos as usize, 
-                    &mut new_exif_area
-                );
-
-                new_exif_written = true;
+                edit.contents = self.get_meta_box()?.serialize();
             }
-            else
+            else if !(new_mdat && edit.start == meta_end)
+            && !self.boxes.iter().zip(&self.positions).any(|(iso_box, (box_start, box_end))| {
+                    box_start + iso_box.get_header().get_header_size() <= edit.start && edit.end <= *box_end
+                })
+            {
+                return io_error!(InvalidData, "HEIF: EXIF data is not located inside a box");
+            }
+        }
+
+        // Put the new file together
+        edits.append(&mut box_edits);
+        edits.sort_by_key(|edit| (edit.start, edit.end));
+
+        let mut new_file_buffer = Vec::new();
+        let mut position        = 0;
+        for edit in &edits
+        {
+            if edit.start < position
             {
-                // Just extend with the serialized box contents
-                cursor.get_mut().extend(&serialized);
+                return io_error!(Unsupported, "HEIF: EXIF data overlaps with other data");
             }
 
-            written_bytes += serialized.len();
+            new_file_buffer.extend(&file_buffer[position as usize..edit.start as usize]);
+            new_file_buffer.extend(&edit.contents);
+            position = edit.end;
         }
+        new_file_buffer.extend(&file_buffer[position as usize..]);
+
+        return Ok(new_file_buffer);
+    }
+
+    pub(super) fn
+    generic_write_metadata
+    (
+        &mut self,
+        file_buffer: &mut Vec<u8>,
+        metadata:    &    Metadata
+    )
+    -> Result<(), std::io::Error>
+    {
+        *file_buffer = self.construct_new_file(file_buffer, metadata)?;
 
         return Ok(());
     }
@@ -627,37 +731,30 @@ HeifContainer
         // Note: It is up for debate whether keeping this information is wanted
         // or not/this should write a truly empty exif area
 
+        // Nothing to do if there is no exif data
+        if self.get_exif_item_ids()?.is_empty()
+        {
+            return Ok(());
+        }
+
         // Create cursor
         let mut cursor = Cursor::new(file_buffer);
 
-        // Read original metadata
+        // Read original metadata - if this is not possible there is nothing
+        // that can be kept
         let orig_metadata = Metadata::general_decoding_wrapper(
             self.get_exif_data(&mut cursor)
-        )?;
+        ).unwrap_or_default();
 
         // Construct new metadata that only contains the above tags
         let mut new_metadata = Metadata::new();
 
-        // 0x0112: Orientation
-        if let Some(tag) = orig_metadata.get_tag_by_hex(0x0112, None).next()
-        {
-            new_metadata.set_tag(tag.clone());
-        }
-
-        // 0x011A: XResolution
-        if let Some(tag) = orig_metadata.get_tag_by_hex(0x011A, None).next()
-        {
-            new_metadata.set_tag(tag.clone());
-        }
-
-        // 0x011A: YResolution
-        if let Some(tag) = orig_metadata.get_tag_by_hex(0x011B, None).next()
-        {
-            new_metadata.set_tag(tag.clone());
-        }
-
-        // 0x0128: ResolutionUnit
-        if let Some(tag) = orig_metadata.get_tag_by_hex(0x0128, None).next()
+        // Only consider IFD0 as the same tag may also be present elsewhere, e.g.
+        // describing the thumbnail
+        for tag in orig_metadata.get_ifds().iter()
+            .filter(|ifd| ifd.get_ifd_type() == ExifTagGroup::GENERIC && ifd.get_generic_ifd_nr() == 0)
+            .flat_map(|ifd| ifd.get_tags())
+            .filter(|tag| [0x0112, 0x011A, 0x011B, 0x0128].contains(&tag.as_u16()))
         {
             new_metadata.set_tag(tag.clone());
         }
diff --git a/src/util.rs b/src/util.rs
index efade4c..2207d00 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -200,32 +200,6 @@ read_be_u64
     return Ok(value);
 }
 
-pub(crate) fn
-read_null_terminated_string
-<T: Seek + Read>
-(
-    cursor: &mut T
-)
--> Result<String, std::io::Error>
-{
-    let mut string_buffer    = Vec::new();
-    let mut character_buffer = read_1_bytes(cursor)?;
-    while character_buffer[0] != 0x00
-    {
-        string_buffer.push(character_buffer[0]);
-        character_buffer = read_1_bytes(cursor)?;
-    }
-
-    return String::from_utf8(string_buffer).map_err(
-        |_e| 
-        std::io::Error::new
-        (
-            std::io::ErrorKind::InvalidData,
-            "Could not convert byte data to UTF-8 string!"
-        )
-    );
-}
-
 
 /// Inserts a slice into a vector at a given offset, shifting elements 
 /// starting at the offset towards the end.
-- 
2.43.0


From d127c062a3dd0dd0a975d4204b5011ea5b21817b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:34 +0000
Subject: [PATCH 30/42] fix: HEIF - return an error instead of panicking if an
 iinf box contains other boxes than infe

---
 src/heif/boxes/item_info.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/heif/boxes/item_info.rs b/src/heif/boxes/item_info.rs
index 30070ff..a4e6297 100644
--- a/src/heif/boxes/item_info.rs
+++ b/src/heif/boxes/item_info.rs
@@ -12,6 +12,7 @@ use crate::util::read_be_u16;
 use crate::util::read_be_u32;
 
 use crate::heif::box_header::BoxHeader;
+use crate::heif::box_type::BoxType;
 use crate::heif::boxes::GenericIsoBox;
 use crate::heif::boxes::ParsableIsoBox;
 
@@ -242,6 +243,12 @@ ItemInfoBox
         for _ in 0..item_count
         {
             let header = BoxHeader::read_box_header(cursor)?;
+
+            if header.get_box_type() != BoxType::infe
+            {
+                return io_error!(InvalidData, "ItemInfoBox contains a box that is not an ItemInfoEntryBox!");
+            }
+
             items.push(ItemInfoEntryBox::construct_from_cursor_unboxed(
                 cursor, 
                 header
-- 
2.43.0


From 6e93f8577f1ad277f44bd59612f96e6a9eea79b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:44 +0000
Subject: [PATCH 31/42] fix: ignore SubIFD offset tags in any directory while
 encoding instead of recursing endlessly

---
 src/ifd/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ifd/mod.rs b/src/ifd/mod.rs
index 603acbc..df97c72 100644
--- a/src/ifd/mod.rs
+++ b/src/ifd/mod.rs
@@ -524,6 +524,7 @@ ImageFileDirectory
         // such tags are only relevant if they describe an existing SubIFD
         let mut all_relevant_tags = self.tags.clone();
         all_relevant_tags.retain(|tag| 
+            !matches!(tag.get_tag_type(), TagType::IFD_OFFSET(_)) &&
             !ExifTag::from_u16(tag.as_u16(), &self.ifd_type).is_ok_and(|known_tag|
                 matches!(known_tag.get_tag_type(), TagType::IFD_OFFSET(_))
             )
-- 
2.43.0


From f63632c07d4b70ab855b3490eb94565a665e1527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:47 +0000
Subject: [PATCH 32/42] fix: encode and remove tags in time proportional to the
 existing IFDs, not to the highest IFD number

---
 src/metadata/mod.rs |  9 +++++++--
 src/metadata/set.rs | 12 ++++--------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/metadata/mod.rs b/src/metadata/mod.rs
index 984eef5..8760b5d 100644
--- a/src/metadata/mod.rs
+++ b/src/metadata/mod.rs
@@ -174,14 +174,19 @@ Metadata
         // Now traverse the IFDs, starting with the SubIFDs associated with 
         // IFD0, then IFD0 itself. Next, SubIFDs for IFD1, IFD1 itself, and
         // so on up to IFD-n.
-        let generic_ifd_count = self.get_max_generic_ifd_number();
+        // There may be (large) gaps between the numbers of the IFDs
+        let mut generic_ifd_numbers = self.image_file_directories.iter()
+            .filter(|ifd| ifd.get_ifd_type() == ExifTagGroup::GENERIC)
+            .map(|ifd| ifd.get_generic_ifd_nr())
+            .collect::<Vec<u32>>();
+        generic_ifd_numbers.sort_unstable();
         
         let mut index_of_previous_ifds_link_section: Option<u64> = Some(4);
 
         let mut encode_vec     = Vec::from(self.endian.header());
         let mut current_offset = 8;
 
-        for n in 0..=generic_ifd_count
+        for n in generic_ifd_numbers
         {
             let filter_result = self.image_file_directories.iter().filter(|ifd|
                 ifd.get_generic_ifd_nr() == n &&
diff --git a/src/metadata/set.rs b/src/metadata/set.rs
index 736261b..f99e991 100644
--- a/src/metadata/set.rs
+++ b/src/metadata/set.rs
@@ -63,16 +63,12 @@ Metadata
 	{
 		let mut removed_count = 0;
 
-		// Traverse all IFD numbers up to the max. known one
-		for ifd_number in 0..=self.get_max_generic_ifd_number()
+		// Traverse all IFDs that belong to the given group
+		for ifd in &mut self.image_file_directories
 		{
-			// Does this IFD exist?
-			if self.get_ifd(tag_group, ifd_number).is_some()
+			if ifd.get_ifd_type() == tag_group
 			{
-				// If so, get it as mutable and call remove_tag on it
-				self.get_ifd_mut(
-					tag_group, ifd_number
-				).remove_tag(tag_hex);
+				ifd.remove_tag(tag_hex);
 
 				removed_count += 1;
 			}
-- 
2.43.0


From 0ffb443396baa18f4a873e0901e77402a5e03f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:03 +0000
Subject: [PATCH 33/42] fix: limit the memory used for decoding IFDs that refer
 to the same data over and over again

---
 src/ifd/mod.rs      | 36 ++++++++++++++++++++++++++++++++----
 src/metadata/mod.rs |  4 +++-
 2 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/src/ifd/mod.rs b/src/ifd/mod.rs
index df97c72..30d8eab 100644
--- a/src/ifd/mod.rs
+++ b/src/ifd/mod.rs
@@ -36,10 +36,13 @@ fn
 read_exact_vec
 (
     data_cursor: &mut Cursor<&Vec<u8>>,
-    length:           u32
+    length:           u32,
+    decode_limit: &mut u64
 )
 -> Result<Vec<u8>, std::io::Error>
 {
+    reduce_decode_limit(decode_limit, length as u64)?;
+
     let available = (data_cursor.get_ref().len() as u64).saturating_sub(data_cursor.position());
 
     if length as u64 > available
@@ -53,6 +56,27 @@ read_exact_vec
     return Ok(buffer);
 }
 
+/// Nothing prevents the offsets in an image file from pointing at the same data
+/// over and over again. So, without a limit, a small file could demand an
+/// enormous amount of memory.
+fn
+reduce_decode_limit
+(
+    decode_limit: &mut u64,
+    length:            u64
+)
+-> Result<(), std::io::Error>
+{
+    let Some(reduced_limit) = decode_limit.checked_sub(length) else
+    {
+        return io_error!(InvalidData, "The IFDs refer to far more data than there is available!");
+    };
+
+    *decode_limit = reduced_limit;
+
+    return Ok(());
+}
+
 /// The different types of Image File Directories (IFD). A generic IFD is one
 /// without further specialization, like e.g. IFD0. The generic IFDs start
 /// with IFD0, which is located via the offset at the start of the TIFF data. 
@@ -129,6 +153,7 @@ ImageFileDirectory
         group:               &    ExifTagGroup,
         generic_ifd_nr:           u32,                                          // Reuse value for recursive calls; only gets incremented by caller
         insert_into:         &mut Vec<ImageFileDirectory>,                      // Stays the same for all calls to this function while decoding
+        decode_limit:        &mut u64,                                          // Stays the same for all calls to this function while decoding
     )
     -> Result<Option<u32>, std::io::Error>
     {
@@ -163,6 +188,8 @@ ImageFileDirectory
             return io_error!(Other, format!("Not enough data to decode IFD! Required: {} Available: {}", required, available));
         }
 
+        reduce_decode_limit(decode_limit, required as u64)?;
+
         // Temporarily storing specific tags that have been decoded
         // This has to do with data offset tags that are interconnected with
         // other tags.
@@ -227,7 +254,7 @@ ImageFileDirectory
                 data_cursor.seek(std::io::SeekFrom::Current(hex_offset as i64))?;
 
                 // Read the raw data
-                raw_data = read_exact_vec(data_cursor, byte_count)?;
+                raw_data = read_exact_vec(data_cursor, byte_count, decode_limit)?;
             
                 // Rewind the cursor to the start of the next entry
                 data_cursor.set_position(backup_position);
@@ -304,6 +331,7 @@ ImageFileDirectory
                     &subifd_group,
                     generic_ifd_nr,
                     insert_into,
+                    decode_limit,
                 );
 
                 // Check that this actually worked
@@ -413,7 +441,7 @@ ImageFileDirectory
                     data_cursor.set_position(data_begin_position);
                     data_cursor.seek(std::io::SeekFrom::Current(*offset as i64))?;
 
-                    strip_data.push(read_exact_vec(data_cursor, *byte_count)?);
+                    strip_data.push(read_exact_vec(data_cursor, *byte_count, decode_limit)?);
                 }
 
                 // Push StripOffset tag to tags vector
@@ -449,7 +477,7 @@ ImageFileDirectory
                     // Gather the data at the offset
                     data_cursor.set_position(data_begin_position);
                     data_cursor.seek(std::io::SeekFrom::Current(offset[0] as i64))?;
-                    let thumbnail_data = read_exact_vec(data_cursor, length[0])?;
+                    let thumbnail_data = read_exact_vec(data_cursor, length[0], decode_limit)?;
 
                     // Push ThumbnailOffset tag to tags vector
                     tags.push(ExifTag::ThumbnailOffset(Vec::new(), thumbnail_data));
diff --git a/src/metadata/mod.rs b/src/metadata/mod.rs
index 8760b5d..c764b9c 100644
--- a/src/metadata/mod.rs
+++ b/src/metadata/mod.rs
@@ -308,6 +308,7 @@ Metadata
         // Decode all the IFDs
         let mut ifds = Vec::new();
         let mut generic_ifd_nr = 0;
+        let mut decode_limit   = 16 * data_cursor.get_ref().len() as u64;
         let mut visited_offsets = std::collections::HashSet::new();
         while let Some(ifd_offset) = ifd_offset_option
         {
@@ -326,7 +327,8 @@ Metadata
                 &endian,
                 &ExifTagGroup::GENERIC,
                 generic_ifd_nr,
-                &mut ifds
+                &mut ifds,
+                &mut decode_limit
             );
 
             ifd_offset_option = decode_result?;
-- 
2.43.0


From 9ce93900141922b3d1cf4ddcc2514ca432b89b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:29 +0000
Subject: [PATCH 34/42] fix: don't mistake a short or interrupted read for the
 end of the file

---
 src/filetype.rs | 13 +++++++++----
 src/jpg.rs      |  4 +---
 src/jxl.rs      |  4 +---
 src/png/mod.rs  |  4 +---
 src/util.rs     | 48 ++++++++++++++++++++++++------------------------
 5 files changed, 36 insertions(+), 37 deletions(-)

diff --git a/src/filetype.rs b/src/filetype.rs
index 6b1189a..a9d063d 100644
--- a/src/filetype.rs
+++ b/src/filetype.rs
@@ -36,12 +36,17 @@ FileExtension
     -> Option<Self>
     {
         // Read first few bytes (32 bytes because I don't know any better)
-        let mut buffer = [0; 32];
-        let Ok(n) = cursor.read(&mut buffer) else {
+        // Note that a single call to `read` may return fewer bytes than available
+        let mut first_bytes = Vec::with_capacity(32);
+        if cursor.take(32).read_to_end(&mut first_bytes).is_err()
+        {
             return None;
-        };
+        }
+
+        let mut buffer = [0; 32];
+        buffer[..first_bytes.len()].copy_from_slice(&first_bytes);
 
-        if n < 4
+        if first_bytes.len() < 4
         {
             return None;
         }
diff --git a/src/jpg.rs b/src/jpg.rs
index eb5808b..711faa8 100644
--- a/src/jpg.rs
+++ b/src/jpg.rs
@@ -79,9 +79,7 @@ file_check_signature
     
     // Read & check the signature
     let mut signature_buffer = [0u8; 2];
-    let bytes_read = file.read(&mut signature_buffer)?;
-
-    if bytes_read != 2
+    if file.read_exact(&mut signature_buffer).is_err()
     {
         return io_error!(InvalidData, "Can't open JPG file - Can't read signature!");
     }
diff --git a/src/jxl.rs b/src/jxl.rs
index a3a230b..17c7ab2 100644
--- a/src/jxl.rs
+++ b/src/jxl.rs
@@ -296,9 +296,7 @@ file_read_metadata
 
     // Read first 12 bytes and check that we have a ISO BMFF file
     let mut first_12_bytes = [0u8; 12];
-    let     bytes_read     = file.read(&mut first_12_bytes)?;
-
-    if bytes_read != 12
+    if file.read_exact(&mut first_12_bytes).is_err()
     {
         return io_error!(InvalidData, "Can't open JXL file - Can't read & check ISO BMFF signature!");
     }
diff --git a/src/png/mod.rs b/src/png/mod.rs
index a9f09fb..479c801 100644
--- a/src/png/mod.rs
+++ b/src/png/mod.rs
@@ -101,9 +101,7 @@ file_check_signature
     
     // Read & check the signature
     let mut signature_buffer = [0u8; 8];
-    let     bytes_read       = file.read(&mut signature_buffer)?;
-
-    if bytes_read != 8
+    if file.read_exact(&mut signature_buffer).is_err()
     {
         return io_error!(InvalidData, "Can't open PNG file - Can't read signature!");
     }
diff --git a/src/util.rs b/src/util.rs
index 2207d00..f9f679c 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -18,12 +18,12 @@ read_1_bytes
 {
     // Read in the 1 bytes
     let mut field = [0u8; 1];
-    let bytes_read = cursor.read(&mut field)?;
 
-    // Check that indeed 1 bytes were read
-    if bytes_read != 1
+    // Note: A single call to `read` may return fewer bytes than requested
+    // even though there are more bytes available
+    if let Err(error) = cursor.read_exact(&mut field)
     {
-        return io_error!(Other, "Could not read the next 1 bytes!");
+        return io_error!(Other, format!("Could not read the next 1 bytes! {error}"));
     }
 
     return Ok(field);
@@ -41,12 +41,12 @@ read_2_bytes
 {
     // Read in the 2 bytes
     let mut field = [0u8; 2];
-    let bytes_read = cursor.read(&mut field)?;
 
-    // Check that indeed 2 bytes were read
-    if bytes_read != 2
+    // Note: A single call to `read` may return fewer bytes than requested
+    // even though there are more bytes available
+    if let Err(error) = cursor.read_exact(&mut field)
     {
-        return io_error!(Other, "Could not read the next 2 bytes!");
+        return io_error!(Other, format!("Could not read the next 2 bytes! {error}"));
     }
 
     return Ok(field);
@@ -64,12 +64,12 @@ read_3_bytes
 {
     // Read in the 3 bytes
     let mut field = [0u8; 3];
-    let bytes_read = cursor.read(&mut field)?;
 
-    // Check that indeed 3 bytes were read
-    if bytes_read != 3
+    // Note: A single call to `read` may return fewer bytes than requested
+    // even though there are more bytes available
+    if let Err(error) = cursor.read_exact(&mut field)
     {
-        return io_error!(Other, "Could not read the next 3 bytes!");
+        return io_error!(Other, format!("Could not read the next 3 bytes! {error}"));
     }
 
     return Ok(field);
@@ -87,12 +87,12 @@ read_4_bytes
 {
     // Read in the 4 bytes
     let mut field = [0u8; 4];
-    let bytes_read = cursor.read(&mut field)?;
 
-    // Check that indeed 4 bytes were read
-    if bytes_read != 4
+    // Note: A single call to `read` may return fewer bytes than requested
+    // even though there are more bytes available
+    if let Err(error) = cursor.read_exact(&mut field)
     {
-        return io_error!(Other, "Could not read the next 4 bytes!");
+        return io_error!(Other, format!("Could not read the next 4 bytes! {error}"));
     }
 
     return Ok(field);
@@ -110,12 +110,12 @@ read_8_bytes
 {
     // Read in the 8 bytes
     let mut field = [0u8; 8];
-    let bytes_read = cursor.read(&mut field)?;
 
-    // Check that indeed 8 bytes were read
-    if bytes_read != 8
+    // Note: A single call to `read` may return fewer bytes than requested
+    // even though there are more bytes available
+    if let Err(error) = cursor.read_exact(&mut field)
     {
-        return io_error!(Other, "Could not read the next 8 bytes!");
+        return io_error!(Other, format!("Could not read the next 8 bytes! {error}"));
     }
 
     return Ok(field);
@@ -133,12 +133,12 @@ read_16_bytes
 {
     // Read in the 16 bytes
     let mut field = [0u8; 16];
-    let bytes_read = cursor.read(&mut field)?;
 
-    // Check that indeed 16 bytes were read
-    if bytes_read != 16
+    // Note: A single call to `read` may return fewer bytes than requested
+    // even though there are more bytes available
+    if let Err(error) = cursor.read_exact(&mut field)
     {
-        return io_error!(Other, "Could not read the next 16 bytes!");
+        return io_error!(Other, format!("Could not read the next 16 bytes! {error}"));
     }
 
     return Ok(field);
-- 
2.43.0


From 4860784223c9d124ddb38853cb81e9e80feb768c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 35/42] fix: keep the tags that are needed to interpret the
 image data when clearing a TIFF

---
 src/metadata/edit.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/metadata/edit.rs b/src/metadata/edit.rs
index d3f85de..0c456f9 100644
--- a/src/metadata/edit.rs
+++ b/src/metadata/edit.rs
@@ -6,6 +6,26 @@ use crate::ifd::ExifTagGroup;
 
 use super::Metadata;
 
+/// Further tags that don't describe the image but are needed to interpret its
+/// data (if present), no matter if they are known to this library or not
+const TIFF_DATA_INTERPRETATION_TAGS: [u16; 15] = [
+	0x00fe, // NewSubfileType
+	0x010a, // FillOrder
+	0x011c, // PlanarConfiguration
+	0x0124, // T4Options
+	0x0125, // T6Options
+	0x013d, // Predictor
+	0x014c, // InkSet
+	0x0152, // ExtraSamples
+	0x0153, // SampleFormat
+	0x015b, // JPEGTables
+	0x0211, // YCbCrCoefficients
+	0x0212, // YCbCrSubSampling
+	0x0213, // YCbCrPositioning
+	0x0214, // ReferenceBlackWhite
+	0x8773, // ICC profile
+];
+
 impl
 Metadata
 {
@@ -48,6 +68,10 @@ Metadata
 					| ExifTag::ColorMap(_)
 					=> (),
 
+					_ if tag.get_group() == ExifTagGroup::GENERIC
+						&& TIFF_DATA_INTERPRETATION_TAGS.contains(&tag.as_u16())
+					=> (),
+
 					_ 
 					=> tags_to_be_removed.push(tag.clone()),
 				}
-- 
2.43.0


From cec4c08c545625841276735838fec945f4d9fae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 36/42] fix: don't destroy the data of tiled TIFFs and of
 images in TIFF SubIFDs

---
 src/tiff/file.rs |  3 +++
 src/tiff/mod.rs  | 28 +++++++++++++++++++++++++++-
 src/tiff/vec.rs  |  3 +++
 3 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/tiff/file.rs b/src/tiff/file.rs
index db5c3ae..b1fffa9 100644
--- a/src/tiff/file.rs
+++ b/src/tiff/file.rs
@@ -11,6 +11,7 @@ use crate::general_file_io::open_read_file;
 use crate::general_file_io::open_write_file;
 use crate::metadata::Metadata;
 
+use super::check_for_unsupported_data;
 use super::generic_read_metadata;
 use super::generic_write_metadata;
 
@@ -36,6 +37,8 @@ clear_metadata
 	let     raw_data = generic_read_metadata(&mut BufReader::new(open_read_file(path)?));
 	let mut data     = Metadata::general_decoding_wrapper(raw_data)?;
 
+	check_for_unsupported_data(&data)?;
+
 	// Remove all IFDs that aren't required
 	data.reduce_to_a_minimum();
 
diff --git a/src/tiff/mod.rs b/src/tiff/mod.rs
index 9b51379..3173455 100644
--- a/src/tiff/mod.rs
+++ b/src/tiff/mod.rs
@@ -22,7 +22,8 @@ generic_write_metadata
 )
 -> Result<(), std::io::Error>
 {
-    // First, check for required tags
+    // First, check for unsupported and required tags
+    check_for_unsupported_data(metadata)?;
     check_for_required_tags(metadata)?;
 
     // Does *not* call generic_clear_metadata, as the entire tiff data gets
@@ -32,6 +33,31 @@ generic_write_metadata
     return Ok(());
 }
 
+/// As the entire TIFF gets rewritten, image data that is not carried along by
+/// the `Metadata` struct would be lost. That's the case for everything that is
+/// neither stored in strips nor as thumbnail
+fn
+check_for_unsupported_data
+(
+    metadata: &Metadata
+)
+-> Result<(), std::io::Error>
+{
+    // TileOffsets: 0x0144
+    if metadata.get_tag_by_hex(0x0144, Some(GENERIC)).count() != 0
+    {
+        return io_error!(Unsupported, "TIFF stores its image data in tiles!");
+    }
+
+    // SubIFDs: 0x014A
+    if metadata.get_tag_by_hex(0x014A, Some(GENERIC)).count() != 0
+    {
+        return io_error!(Unsupported, "TIFF stores further images in SubIFDs (0x014A)!");
+    }
+
+    return Ok(());
+}
+
 fn
 check_for_required_tags
 (
diff --git a/src/tiff/vec.rs b/src/tiff/vec.rs
index c6470d1..745edaf 100644
--- a/src/tiff/vec.rs
+++ b/src/tiff/vec.rs
@@ -5,6 +5,7 @@ use std::io::Cursor;
 
 use crate::metadata::Metadata;
 
+use super::check_for_unsupported_data;
 use super::generic_read_metadata;
 use super::generic_write_metadata;
 
@@ -34,6 +35,8 @@ clear_metadata
 	let     raw_data = generic_read_metadata(&mut cursor);
 	let mut data     = Metadata::general_decoding_wrapper(raw_data)?;
 
+	check_for_unsupported_data(&data)?;
+
 	// Remove all IFDs that aren't required
 	data.reduce_to_a_minimum();
 
-- 
2.43.0


From 7764c1e90d6bb9b03d4174d14f14e92e38ea10ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:30 +0000
Subject: [PATCH 37/42] fix: HEIF: use a free item ID if the one after the
 largest does not fit into 16 bits

---
 src/heif/boxes/meta.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/heif/boxes/meta.rs b/src/heif/boxes/meta.rs
index 557c802..98647cb 100644
--- a/src/heif/boxes/meta.rs
+++ b/src/heif/boxes/meta.rs
@@ -181,14 +181,25 @@ MetaBox
     )
     -> Result<u32, std::io::Error>
     {
-        let largest_id = std::cmp::max(
-            self.get_item_location_box()?.items.iter().map(|x| x.item_id).max().unwrap_or(0),
-            self.get_item_info_box()?.    items.iter().map(|x| x.item_id).max().unwrap_or(0),
-        );
-        let new_item_id = match largest_id.checked_add(1)
+        let used_ids: std::collections::HashSet<u32> = 
+            self.get_item_location_box()?.items.iter().map(|x| x.item_id)
+            .chain(self.get_item_info_box()?.items.iter().map(|x| x.item_id))
+            .collect();
+
+        // Use the ID following the largest one. As the boxes usually provide 
+        // only 16 bits for storing an ID, use the first gap if it does not fit
+        let largest_id  = used_ids.iter().copied().max().unwrap_or(0);
+        let new_item_id = if largest_id < u16::MAX as u32
+        {
+            largest_id + 1
+        }
+        else
         {
-            Some(id) => id,
-            None     => return io_error!(Unsupported, "No item ID left for EXIF data"),
+            match (1..=u32::MAX).find(|id| !used_ids.contains(id))
+            {
+                Some(id) => id,
+                None     => return io_error!(Unsupported, "No item ID left for EXIF data"),
+            }
         };
         let primary_item_id = self.get_primary_item_id().unwrap_or(1);
 
-- 
2.43.0


From 1cd61db77119927529410d62b0392dade56a7c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:40 +0000
Subject: [PATCH 38/42] fix: relocate HEIF items with a self-contained data
 reference

---
 src/heif/box_header.rs | 10 ++++++++
 src/heif/boxes/meta.rs | 55 ++++++++++++++++++++++++++++++++++++++++++
 src/heif/container.rs  |  7 ++++--
 3 files changed, 70 insertions(+), 2 deletions(-)

diff --git a/src/heif/box_header.rs b/src/heif/box_header.rs
index 56ebdfe..a66dc55 100644
--- a/src/heif/box_header.rs
+++ b/src/heif/box_header.rs
@@ -248,6 +248,16 @@ BoxHeader
         return self.version.expect("BoxHeader: version is not set");
     }
 
+    pub(super) fn
+    get_flags
+    (
+        &self
+    )
+    -> Option<[u8; 3]>
+    {
+        return self.flags;
+    }
+
     pub(super) fn
     set_version
     (
diff --git a/src/heif/boxes/meta.rs b/src/heif/boxes/meta.rs
index 98647cb..2bc77a8 100644
--- a/src/heif/boxes/meta.rs
+++ b/src/heif/boxes/meta.rs
@@ -125,6 +125,61 @@ MetaBox
         return None;
     }
 
+    /// Tells for every entry of the `dref` box (if there is any) whether it is
+    /// flagged as being self-contained, i.e. refers to this file and not to 
+    /// another one.
+    /// See ISO/IEC 14496-12:2015, § 8.7.2 and § 8.11.3
+    pub(crate) fn
+    get_self_contained_references
+    (
+        &self
+    )
+    -> Vec<bool>
+    {
+        let Some(dinf) = self.other_boxes.iter()
+            .find(|b| b.get_header().get_box_type() == BoxType::dinf)
+        else
+        {
+            return Vec::new();
+        };
+
+        let     serialized = dinf.serialize();
+        let mut cursor     = Cursor::new(serialized.as_slice());
+        let mut references = Vec::new();
+        let mut found_dref = false;
+        cursor.set_position(dinf.get_header().get_header_size());
+
+        // The entries directly follow the header and the entry count of the
+        // dref box, so there is no need to skip what is inside of it
+        while let Ok(header) = BoxHeader::read_box_header(&mut cursor)
+        {
+            if header.get_box_type() == BoxType::dref
+            {
+                if read_be_u32(&mut cursor).is_err()
+                {
+                    break;
+                }
+                found_dref = true;
+                continue;
+            }
+
+            if let (true, Some(flags)) = (found_dref, header.get_flags())
+            {
+                references.push(flags[2] & 0x01 == 0x01);
+            }
+
+            let next = header.get_box_size().checked_sub(header.get_header_size())
+                .and_then(|size| cursor.position().checked_add(size));
+            match next
+            {
+                Some(next) => cursor.set_position(next),
+                None       => break,
+            }
+        }
+
+        return references;
+    }
+
     fn
     get_sub_box_mut
     <T: GenericIsoBox + 'static>
diff --git a/src/heif/container.rs b/src/heif/container.rs
index ebabb6a..7ca2df8 100644
--- a/src/heif/container.rs
+++ b/src/heif/container.rs
@@ -572,7 +572,8 @@ HeifContainer
         }
 
         // Update the item location box
-        let iloc = self.get_meta_box_mut()?.get_item_location_box_mut()?;
+        let self_contained = self.get_meta_box()?.get_self_contained_references();
+        let iloc           = self.get_meta_box_mut()?.get_item_location_box_mut()?;
         for index in 0..iloc.items.len()
         {
             let item = &iloc.items[index];
@@ -596,9 +597,11 @@ HeifContainer
             }
 
             if item.data_reference_index != 0
+            && self_contained.get(item.data_reference_index as usize - 1) != Some(&true)
             {
                 // A value other than 0 implies that this extent refers to
-                // another file, not this one, so we can also skip this
+                // another file (unless that reference is self-contained), not 
+                // this one, so we can also skip this
                 // See ISO/IEC 14496-12:2015 § 8.11.3.1, p. 78
                 continue;
             }
-- 
2.43.0


From 4b07d1b660d3b85a549462239b1d096279cc29ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:07 +0000
Subject: [PATCH 39/42] fix: refuse INT32U data that does not fit an INT16U tag
 instead of truncating it

---
 src/exif_tag/decode.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/exif_tag/decode.rs b/src/exif_tag/decode.rs
index 1ca3f55..7364d39 100644
--- a/src/exif_tag/decode.rs
+++ b/src/exif_tag/decode.rs
@@ -52,9 +52,18 @@ decode_tag_with_format_exceptions
 			},
 
 			(ExifTagFormat::INT16U, ExifTagFormat::INT32U) => {
-				// Not sure how to be more cautious in this case...
 				let int32u_data = <INT32U as U8conversion<INT32U>>::from_u8_vec(raw_data, endian);
-				let int16u_data = int32u_data.into_iter().map(|x| x as u16).collect::<Vec<u16>>();
+				let int16u_data = int32u_data.clone().into_iter().map(|x| x as u16).collect::<Vec<u16>>();
+
+				for (element_u32, element_u16) in int32u_data.iter().zip(int16u_data.iter())
+				{
+					// Make sure that the int32u data is within int16u range
+					if *element_u32 != *element_u16 as u32
+					{
+						return io_error!(InvalidData, format!("Value {} of tag {:?} is not within INT16U range!", element_u32, raw_tag));
+					}
+				}
+
 				return raw_tag.set_value_to_int16u_vec(int16u_data).map_err(
 					|e| io_error_plain!(Other, format!("Could not decode tag {:?}: {}", raw_tag, e))
 				);
-- 
2.43.0


From 8dcfbd24d30f6f2e06b37a77665921a1f30517f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:27 +0000
Subject: [PATCH 40/42] fix: keep null characters within Latin-1 text

---
 src/u8conversion.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/u8conversion.rs b/src/u8conversion.rs
index c3bcf47..a519609 100644
--- a/src/u8conversion.rs
+++ b/src/u8conversion.rs
@@ -155,17 +155,13 @@ impl U8conversion<String> for String
             return Ok(utf8_decode_result.trim_end_matches('\0').to_string());
         }
 
-        let mut result = String::new();
+        // Not UTF-8, so assume Latin-1. Again, only drop null characters at the 
+        // end as others may separate parts of the text (e.g. in Copyright)
+        let result = u8_vec.iter()
+            .map(|byte| *byte as char)
+            .collect::<String>();
 
-        for byte in u8_vec
-        {
-            if *byte > 0
-            {
-                result.push(*byte as char);
-            }
-        }
-
-        Ok(result)
+        Ok(result.trim_end_matches('\0').to_string())
     }
 }
 
-- 
2.43.0


From 6849cd23c25284745b9f19139fa4fa61abf7a641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:00 +0000
Subject: [PATCH 41/42] fix: refuse to encode a directory with more tags than
 its entry count can express

---
 src/ifd/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ifd/mod.rs b/src/ifd/mod.rs
index 30d8eab..72bbf45 100644
--- a/src/ifd/mod.rs
+++ b/src/ifd/mod.rs
@@ -578,7 +578,12 @@ ImageFileDirectory
                  TagType::IFD_OFFSET(_) |
                  TagType::DATA_OFFSET(_)
             )
-        ).count() as u16;
+        ).count();
+
+        let Ok(count_entries) = u16::try_from(count_entries) else
+        {
+            return io_error!(Unsupported, format!("An IFD can't store {count_entries} tags!"));
+        };
 
         encode_vec.extend(to_u8_vec_macro!(u16, &count_entries, &data.get_endian()).iter());
 
-- 
2.43.0


From 92686c8a264b3d0034b82811241c55f3e08ad809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:32 +0000
Subject: [PATCH 42/42] fix: PNG raw profiles of 100 MB and more (9 digits of
 length) could not be read back

---
 src/png/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/png/mod.rs b/src/png/mod.rs
index 479c801..8b6109c 100644
--- a/src/png/mod.rs
+++ b/src/png/mod.rs
@@ -719,7 +719,9 @@ encode_metadata_png
     let mut png_exif: Vec<u8> = vec![NEWLINE, 0x65, 0x78, 0x69, 0x66, NEWLINE];
 
     // Write ssss, padded to 8 bytes with leading spaces
-    png_exif.extend(vec![SPACE; 8usize.saturating_sub(ssss.len())]);
+    // In case of more than 8 digits, keep their number even as the decoder
+    // reads two characters at a time
+    png_exif.extend(vec![SPACE; 8usize.saturating_sub(ssss.len()).max(ssss.len() % 2)]);
     png_exif.extend(ssss.as_bytes().to_vec().iter());
     png_exif.push(NEWLINE);
 
@@ -840,7 +842,7 @@ decode_metadata_png
     // + 5*10*10^(2*0) + 3*1*10^(2*0) 
     // + 0*10*10^(2*1) + 1*1*10^(2*1)
     let mut given_exif_len = 0u64;
-    for i in 0..std::cmp::min(4, pop_storage.len())
+    for i in 0..std::cmp::min(5, pop_storage.len())
     {
         let re_encoded_byte = encode_byte(&pop_storage[pop_storage.len() -1 -i]);
         let tens_place = match (re_encoded_byte[0] as char).to_string().parse::<u64>()
-- 
2.43.0

