From 2405e675d31c6e7509fc7cd051394db9bb0774ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:19 +0000
Subject: [PATCH 01/32] fix: reject truncated program files instead of
 panicking

---
 src/calculator/file/from_8xp.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/calculator/file/from_8xp.rs b/src/calculator/file/from_8xp.rs
index 766852d..089e780 100644
--- a/src/calculator/file/from_8xp.rs
+++ b/src/calculator/file/from_8xp.rs
@@ -18,6 +18,17 @@ pub fn create_from_8xp(
         Err(err) => return Err(TiToolsError::FileRead(err)),
     };
 
+    let metadata_size = match file_type {
+        ProgramFileType::XPThree | ProgramFileType::XPTwo => 17,
+        _ => 19,
+    };
+
+    if bytes.len() < 55 + metadata_size + 2 {
+        return Err(TiToolsError::FileRead(
+            "The file is too short to be a program".to_string(),
+        ));
+    }
+
     let (header_bytes, bytes) = bytes.split_at(55);
     let (metadata_bytes, bytes) = match file_type {
         ProgramFileType::XP => bytes.split_at(19),
-- 
2.43.0


From bd9abfc1388a9ab9d18e29a852e6efbf0091373c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:20 +0000
Subject: [PATCH 02/32] fix: refuse text programs too large for the 16-bit
 length fields

---
 src/calculator/file/from_txt.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/calculator/file/from_txt.rs b/src/calculator/file/from_txt.rs
index 7987ee1..8a92470 100644
--- a/src/calculator/file/from_txt.rs
+++ b/src/calculator/file/from_txt.rs
@@ -65,6 +65,14 @@ pub fn create_from_txt(
 
     let body_bytes = encode(&body_string, &tokens, true, display_mode, encode_mode)?;
 
+    // every length field of the file is 16 bits
+    if body_bytes.len() + 19 > u16::MAX as usize {
+        return Err(TiToolsError::InvalidByteLength(format!(
+            "the program body is {} bytes, which is too large",
+            body_bytes.len()
+        )));
+    }
+
     let mut header_bytes = Vec::new();
     let signature = &model_details.signature.to_string();
     header_bytes.extend(signature.as_bytes());
-- 
2.43.0


From fe63ccaf264e93ef3624e123254882bc1379fc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:22 +0000
Subject: [PATCH 03/32] fix: recognise TI-83 files by their signature

---
 src/calculator/models.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/calculator/models.rs b/src/calculator/models.rs
index 49a21d4..b803390 100644
--- a/src/calculator/models.rs
+++ b/src/calculator/models.rs
@@ -23,6 +23,7 @@ impl ModelDetails {
     pub fn from_byte(byte: u8, signature: &str) -> Result<ModelDetails, TiToolsError> {
         match byte {
             0x00 => match signature {
+                "**TI83**" => Ok(ModelDetails::new(Model::TI83, "**TI83**", 0x00, "en")),
                 "**TI83F*" => Ok(ModelDetails::new(Model::Latest, "**TI83F*", 0x00, "en")),
                 _ => Ok(ModelDetails::new(Model::TI82, "**TI82**", 0x00, "en")),
             },
-- 
2.43.0


From 554fda6bc09ea4972e9a56230b139f092fd8f38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:24 +0000
Subject: [PATCH 04/32] fix: export the model to JSON by the name the import
 reads

---
 src/calculator/models.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/calculator/models.rs b/src/calculator/models.rs
index b803390..9b1c8e9 100644
--- a/src/calculator/models.rs
+++ b/src/calculator/models.rs
@@ -82,7 +82,7 @@ impl PartialEq for ModelDetails {
     }
 }
 
-#[derive(Debug, Eq, Clone, Serialize)]
+#[derive(Debug, Eq, Clone)]
 pub enum Model {
     TI82,
     TI83,
@@ -117,6 +117,16 @@ impl PartialEq for Model {
     }
 }
 
+// must mirror the Deserialize implementation, which reads the model name
+impl Serialize for Model {
+    fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+    where
+        S: serde::Serializer,
+    {
+        serializer.serialize_str(&self.to_string())
+    }
+}
+
 impl Model {
     pub fn from_string(model: &str) -> Model {
         match model {
-- 
2.43.0


From 9bb2f3bab9309b2c6bf715c57bd890f4b5cbe973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:25 +0000
Subject: [PATCH 05/32] fix: compare equal OS versions as equal

---
 src/calculator/tokens/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/calculator/tokens/mod.rs b/src/calculator/tokens/mod.rs
index c4b557a..94ea9c9 100644
--- a/src/calculator/tokens/mod.rs
+++ b/src/calculator/tokens/mod.rs
@@ -41,7 +41,9 @@ impl Ord for OsVersion {
         let other_order = other.model.model_order();
 
         self_order.cmp(&other_order).then_with(|| {
-            if self.version == "latest" {
+            if self.version == other.version {
+                Ordering::Equal
+            } else if self.version == "latest" {
                 Ordering::Greater
             } else if other.version == "latest" || self.version.is_empty() {
                 Ordering::Less
-- 
2.43.0


From ccfd9c17f70ba7b960776f4adad219cea0630f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:27 +0000
Subject: [PATCH 06/32] fix: pick a fixed token when several share the same
 text

---
 src/calculator/tokens/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/calculator/tokens/mod.rs b/src/calculator/tokens/mod.rs
index 94ea9c9..a6f7375 100644
--- a/src/calculator/tokens/mod.rs
+++ b/src/calculator/tokens/mod.rs
@@ -127,7 +127,11 @@ impl Map {
                 DisplayMode::TiAscii => &translation.ti_ascii,
             };
 
-            if value.starts_with(translation) && translation.len() > longest_length {
+            // tokens can share a text, always take the lowest key of those
+            if value.starts_with(translation)
+                && (translation.len() > longest_length
+                    || (translation.len() == longest_length && token.as_str() < longest_key))
+            {
                 longest_key = token;
                 longest_value = translation.to_string();
                 longest_length = translation.len();
@@ -157,7 +161,11 @@ impl Map {
                 DisplayMode::TiAscii => &translation.ti_ascii,
             };
 
-            if value.starts_with(translation) && translation.len() < shortest_length {
+            // tokens can share a text, always take the lowest key of those
+            if value.starts_with(translation)
+                && (translation.len() < shortest_length
+                    || (translation.len() == shortest_length && token.as_str() < shortest_key))
+            {
                 shortest_key = token;
                 shortest_value = translation.to_string();
                 shortest_length = translation.len();
-- 
2.43.0


From 07d15dbacd3e3757650818694c6a2ea1be665833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:26 +0000
Subject: [PATCH 07/32] fix: write a checksum that matches the edited metadata

---
 src/calculator/program.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 755ce1e..6854d90 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -170,7 +170,8 @@ impl Program {
                 output_bytes.extend(self.header.bytes.to_vec());
                 output_bytes.extend(self.metadata.bytes.to_vec());
                 output_bytes.extend(self.body.bytes.to_vec());
-                output_bytes.extend(self.checksum.bytes.to_vec());
+                // edits change the metadata, so the loaded checksum may not fit anymore
+                output_bytes.extend(calculate_checksum(&self.metadata.bytes, &self.body.bytes));
 
                 write_to_file(path, output_bytes)?
             }
@@ -539,6 +540,15 @@ impl Destination {
     }
 }
 
+/// The low 16 bits of the sum of all metadata and body bytes
+pub fn calculate_checksum(metadata: &[u8], body: &[u8]) -> [u8; 2] {
+    metadata
+        .iter()
+        .chain(body)
+        .fold(0u16, |sum, byte| sum.wrapping_add(*byte as u16))
+        .to_le_bytes()
+}
+
 fn write_to_file<T: AsRef<[u8]>>(path: &PathBuf, content: T) -> Result<(), TiToolsError> {
     match std::fs::write(path, content) {
         Ok(_) => Ok(()),
-- 
2.43.0


From 5f6e88a72a738a64bdbcf9c01fdb5e53b91b1844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:27 +0000
Subject: [PATCH 08/32] fix: build complete 8xp metadata for 82p and 83p
 programs

---
 src/calculator/file/from_8xp.rs | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/calculator/file/from_8xp.rs b/src/calculator/file/from_8xp.rs
index 089e780..a4be397 100644
--- a/src/calculator/file/from_8xp.rs
+++ b/src/calculator/file/from_8xp.rs
@@ -2,7 +2,7 @@ use super::decode::decode;
 use crate::calculator::errors::TiToolsError;
 use crate::calculator::models::ModelDetails;
 use crate::calculator::program::{
-    Body, Checksum, Destination, FileType, Header, Metadata, ProgramFileType,
+    calculate_checksum, Body, Checksum, Destination, FileType, Header, Metadata, ProgramFileType,
 };
 use crate::calculator::tokens::{load_tokens, OsVersion};
 use crate::calculator::DisplayMode;
@@ -73,7 +73,7 @@ pub fn create_from_8xp(
 
     let metadata_and_body_length = [header_bytes[53], header_bytes[54]];
 
-    let header = Header::new(
+    let mut header = Header::new(
         header_bytes.to_vec(),
         signature,
         signature_extra.to_vec(),
@@ -117,18 +117,25 @@ pub fn create_from_8xp(
 
             new_metadata_bytes.push(0x0D);
             new_metadata_bytes.push(0x00);
+            if body_bytes.len() + 19 > u16::MAX as usize {
+                return Err(TiToolsError::FileRead(
+                    "The file is too large to be a program".to_string(),
+                ));
+            }
             let body_and_checksum_length = (body_bytes.len() + 2) as u16;
             new_metadata_bytes.extend(body_and_checksum_length.to_le_bytes());
-            new_metadata_bytes.push(0x05);
+            let file_type = FileType::from_byte(metadata_bytes[4])?;
+            new_metadata_bytes.push(file_type.to_byte());
             let name = metadata_bytes[5..13]
                 .iter()
                 .filter(|byte| **byte != 0x00)
                 .map(|byte| *byte as char)
                 .collect::<String>();
-            new_metadata_bytes.extend(name.as_bytes());
-            new_metadata_bytes.push(0x00);
+            new_metadata_bytes.extend(&metadata_bytes[5..13]);
+            new_metadata_bytes.push(0x00); // version
+            new_metadata_bytes.push(Destination::RAM.to_byte());
             new_metadata_bytes.extend(body_and_checksum_length.to_le_bytes());
-            let body_length = (body_bytes.len() + 2) as u16;
+            let body_length = body_bytes.len() as u16;
             new_metadata_bytes.extend(body_length.to_le_bytes());
 
             Metadata::new(
@@ -136,7 +143,7 @@ pub fn create_from_8xp(
                 0x0D,
                 0x00,
                 body_and_checksum_length,
-                FileType::Program,
+                file_type,
                 name,
                 0x00,
                 Destination::RAM,
@@ -161,8 +168,16 @@ pub fn create_from_8xp(
 
     let body = Body::new(body_bytes.to_vec(), translation);
 
+    // the 82p and 83p metadata was extended to the 8xp layout
+    let mut checksum_bytes = [checksum_bytes[0], checksum_bytes[1]];
+    if metadata_size == 17 {
+        header.metadata_and_body_length = (metadata.bytes.len() + body.bytes.len()) as u16;
+        header.bytes[53..55].copy_from_slice(&header.metadata_and_body_length.to_le_bytes());
+        checksum_bytes = calculate_checksum(&metadata.bytes, &body.bytes);
+    }
+
     // checksum translation
-    let checksum_value = u16::from_le_bytes([checksum_bytes[0], checksum_bytes[1]]);
+    let checksum_value = u16::from_le_bytes(checksum_bytes);
 
     let checksum = Checksum::new(checksum_bytes.to_vec(), checksum_value);
 
-- 
2.43.0


From 15150405f642ac1673c72110bcb899ce50272015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:29 +0000
Subject: [PATCH 09/32] fix: save 82p and 83p files with the metadata layout of
 these formats

---
 src/calculator/program.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 6854d90..3207fc6 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -164,7 +164,31 @@ impl Program {
         };
 
         match file_type {
-            ProgramFileType::XP | ProgramFileType::XPThree | ProgramFileType::XPTwo => {
+            ProgramFileType::XPThree | ProgramFileType::XPTwo => {
+                if self.header.bytes.len() != 55 || self.metadata.bytes.len() != 19 {
+                    return Err(TiToolsError::InvalidByteLength(
+                        "the header or metadata is malformed".to_string(),
+                    ));
+                }
+
+                // these formats have no version and destination in the metadata
+                let mut metadata_bytes = vec![0x0B, 0x00];
+                metadata_bytes.extend(&self.metadata.bytes[2..13]);
+                metadata_bytes.extend(&self.metadata.bytes[15..19]);
+                let metadata_and_body_length =
+                    (metadata_bytes.len() + self.body.bytes.len()) as u16;
+
+                let mut output_bytes = Vec::new();
+
+                output_bytes.extend(&self.header.bytes[0..53]);
+                output_bytes.extend(metadata_and_body_length.to_le_bytes());
+                output_bytes.extend(&metadata_bytes);
+                output_bytes.extend(&self.body.bytes);
+                output_bytes.extend(calculate_checksum(&metadata_bytes, &self.body.bytes));
+
+                write_to_file(path, output_bytes)?
+            }
+            ProgramFileType::XP => {
                 let mut output_bytes = Vec::new();
 
                 output_bytes.extend(self.header.bytes.to_vec());
-- 
2.43.0


From e501b5518522533ddf6e55acc3e2fa7ef30ef6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:31 +0000
Subject: [PATCH 10/32] fix: keep the existing file when saving over it is
 refused or fails

---
 src/calculator/program.rs | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 3207fc6..beeda13 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -132,6 +132,11 @@ impl Program {
     }
 
     pub fn save_to(&self, path: &PathBuf) -> Result<(), TiToolsError> {
+        let file_type = match get_file_type(path) {
+            Ok(file_type) => file_type,
+            Err(err) => return Err(err),
+        };
+
         if path.exists() {
             println!("A file already exists at the output path, would you like to delete its content and proceed? [y/N]");
             let mut input = String::new();
@@ -141,16 +146,7 @@ impl Program {
             std::io::stdin().read_line(&mut input).unwrap();
             let input = input.trim();
             if input == "y" || input == "Y" {
-                println!("Deleting existing file");
-
-                match std::fs::remove_file(path) {
-                    Ok(_) => {
-                        println!("Deleted existing file");
-                    }
-                    Err(err) => {
-                        return Err(TiToolsError::FailedToDeleteFile(err.to_string()));
-                    }
-                }
+                println!("Replacing existing file");
             } else {
                 return Err(TiToolsError::Quit(
                     "User chose not to overwrite file".to_string(),
@@ -158,11 +154,6 @@ impl Program {
             }
         }
 
-        let file_type = match get_file_type(path) {
-            Ok(file_type) => file_type,
-            Err(err) => return Err(err),
-        };
-
         match file_type {
             ProgramFileType::XPThree | ProgramFileType::XPTwo => {
                 if self.header.bytes.len() != 55 || self.metadata.bytes.len() != 19 {
@@ -574,7 +565,23 @@ pub fn calculate_checksum(metadata: &[u8], body: &[u8]) -> [u8; 2] {
 }
 
 fn write_to_file<T: AsRef<[u8]>>(path: &PathBuf, content: T) -> Result<(), TiToolsError> {
-    match std::fs::write(path, content) {
+    // written next to the target first, so that a failed write keeps the existing file
+    let mut temp_path = path.to_path_buf().into_os_string();
+    temp_path.push(format!(".{}.tmp", std::process::id()));
+
+    let result = std::fs::OpenOptions::new()
+        .write(true)
+        .create_new(true)
+        .open(&temp_path)
+        .and_then(|mut file| {
+            file.write_all(content.as_ref())
+                .and_then(|_| std::fs::rename(&temp_path, path))
+                .inspect_err(|_| {
+                    let _ = std::fs::remove_file(&temp_path);
+                })
+        });
+
+    match result {
         Ok(_) => Ok(()),
         Err(err) => {
             return Err(TiToolsError::FailedToWriteFile(
-- 
2.43.0


From 9e51d9fe7bf5711bc14ff7dd9d6ba522ba68b984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:33 +0000
Subject: [PATCH 11/32] fix: keep line breaks of the comment out of the txt
 format

---
 src/calculator/program.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index beeda13..7685692 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -193,8 +193,8 @@ impl Program {
             ProgramFileType::TXT => {
                 let output_string = format!(
                     "{}\n{}\n{}\n{}\n{}\n{}\n{}",
-                    self.metadata.name,
-                    self.header.comment,
+                    self.metadata.name.replace(['\n', '\r'], " "),
+                    self.header.comment.replace(['\n', '\r'], " "),
                     self.metadata.file_type.to_string(),
                     self.metadata.destination.to_string(),
                     self.display_mode.to_string(),
-- 
2.43.0


From a3c7363dc39a31a978c2c0da68224312a9f9a0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:35 +0000
Subject: [PATCH 12/32] fix: keep the display mode of a txt program

---
 src/calculator/file/from_txt.rs | 13 ++++++++++---
 src/calculator/program.rs       | 15 ++++++++-------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/calculator/file/from_txt.rs b/src/calculator/file/from_txt.rs
index 8a92470..bbb8f64 100644
--- a/src/calculator/file/from_txt.rs
+++ b/src/calculator/file/from_txt.rs
@@ -9,7 +9,7 @@ use std::path::PathBuf;
 pub fn create_from_txt(
     path: PathBuf,
     encode_mode: &EncodeMode,
-) -> Result<(Header, Metadata, Body, Checksum, ModelDetails), TiToolsError> {
+) -> Result<(Header, Metadata, Body, Checksum, ModelDetails, DisplayMode), TiToolsError> {
     let file_string = match std::fs::read_to_string(&path) {
         Ok(file_string) => file_string,
         Err(err) => return Err(TiToolsError::FileRead(err.to_string())),
@@ -63,7 +63,7 @@ pub fn create_from_txt(
         .collect::<Vec<&str>>()
         .join("\n");
 
-    let body_bytes = encode(&body_string, &tokens, true, display_mode, encode_mode)?;
+    let body_bytes = encode(&body_string, &tokens, true, display_mode.clone(), encode_mode)?;
 
     // every length field of the file is 16 bits
     if body_bytes.len() + 19 > u16::MAX as usize {
@@ -134,7 +134,14 @@ pub fn create_from_txt(
 
     let body = Body::new(body_bytes, body_string);
 
-    Ok((header, metadata, body, checksum, model_details))
+    Ok((
+        header,
+        metadata,
+        body,
+        checksum,
+        model_details,
+        display_mode,
+    ))
 }
 
 fn create_comment() -> String {
diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 7685692..9152a75 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -80,19 +80,20 @@ impl Program {
             Err(err) => return Err(err),
         };
 
-        let (header, metadata, body, checksum, model) = match create_from_txt(path, encode_mode) {
-            Ok((header, metadata, body, checksum, model)) => {
-                (header, metadata, body, checksum, model)
-            }
-            Err(err) => return Err(err),
-        };
+        let (header, metadata, body, checksum, model, display_mode) =
+            match create_from_txt(path, encode_mode) {
+                Ok((header, metadata, body, checksum, model, display_mode)) => {
+                    (header, metadata, body, checksum, model, display_mode)
+                }
+                Err(err) => return Err(err),
+            };
 
         let program = Program {
             header,
             metadata,
             body,
             checksum,
-            display_mode: DisplayMode::Accessible,
+            display_mode,
             model,
         };
 
-- 
2.43.0


From ff1316d059849fc01ef51abcabb4e98de70dc24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:36 +0000
Subject: [PATCH 13/32] fix: keep the saved program when --delete-old names the
 same file

---
 src/commands/edit/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/commands/edit/mod.rs b/src/commands/edit/mod.rs
index f6e17ca..46f766c 100644
--- a/src/commands/edit/mod.rs
+++ b/src/commands/edit/mod.rs
@@ -42,7 +42,13 @@ fn save_edits(
             Err(err) => err.print().exit(),
         }
 
-        if delete_old {
+        // the new file may have replaced the old one
+        let same_file = match (input_path.canonicalize(), new_file_path.canonicalize()) {
+            (Ok(old), Ok(new)) => old == new,
+            _ => false,
+        };
+
+        if delete_old && !same_file {
             let result = std::fs::remove_file(input_path);
 
             match result {
-- 
2.43.0


From 123333ec17ed6a9df0d212ddd6f6787820b75571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:55 +0000
Subject: [PATCH 14/32] fix: keep program and list names literal in smart
 encoding

---
 src/calculator/file/encode.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/calculator/file/encode.rs b/src/calculator/file/encode.rs
index 02f7c17..140c373 100644
--- a/src/calculator/file/encode.rs
+++ b/src/calculator/file/encode.rs
@@ -70,11 +70,10 @@ pub fn encode(
                     let key_as_bytes = convert_key_to_bytes(&key);
 
                     if state.default_is_smart() {
-                        if state.last_token_key == vec![0x5F] || state.last_token_key == vec![0xEB]
-                        {
+                        if key_as_bytes == vec![0x5F] || key_as_bytes == vec![0xEB] {
                             // prgm and ʟ
                             state.in_custom_name = true;
-                            state.current_mode = &EncodeMode::Max;
+                            state.current_mode = &EncodeMode::Min;
                         } else if key_as_bytes == vec![0x2A] {
                             state.in_string = !state.in_string;
                             // Send(
-- 
2.43.0


From 6b4ffd26330a87c529aa87edca9ef6053a851f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:33 +0000
Subject: [PATCH 15/32] fix: print brackets and any other text in styled
 messages unchanged

---
 src/styles.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/styles.rs b/src/styles.rs
index 440ed4b..317ac0d 100644
--- a/src/styles.rs
+++ b/src/styles.rs
@@ -148,12 +148,20 @@ macro_rules! prints {
         let len = styled_string.len();
 
         while i < len {
-            if &styled_string[i..i + 1] == "[" {
-                let end = styled_string[i..].find("]").unwrap() + i;
+            // text in brackets that is not a directive is printed as it is
+            let directive_end = if styled_string[i..].starts_with('[') {
+                styled_string[i..].find(']').map(|end| end + i)
+            } else {
+                None
+            };
+            let mut is_directive = false;
+
+            if let Some(end) = directive_end {
                 let directive = &styled_string[i + 1..end];
                 let parts: Vec<&str> = directive.split(':').collect();
 
                 if parts.len() == 2 {
+                    is_directive = true;
                     match parts[0] {
                         "color" => {
                             let color = Color::from_string(parts[1].to_string());
@@ -167,12 +175,22 @@ macro_rules! prints {
                             let style = TextStyle::from_string(parts[1].to_string());
                             result.push_str(&style.to_ansi_style_string());
                         }
-                        _ => {}
+                        _ => is_directive = false,
                     }
                 }
-                i = end + 1;
-            } else {
-                let end = styled_string[i..].find("[").unwrap_or(len - i) + i;
+
+                if is_directive {
+                    i = end + 1;
+                }
+            }
+
+            if !is_directive {
+                // the bracket at i, if there is one, is part of the text
+                let end = styled_string[i..]
+                    .char_indices()
+                    .skip(1)
+                    .find(|(_, c)| *c == '[')
+                    .map_or(len, |(end, _)| end + i);
                 result.push_str(&styled_string[i..end]);
                 i = end;
             }
-- 
2.43.0


From a6b50c7bc9ceeb65a647499ca12f8dd19a1e7331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:35 +0000
Subject: [PATCH 16/32] fix: exit with an error for unknown commands and
 missing required arguments

---
 src/cli.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index ddcdb95..3669f6a 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -103,7 +103,7 @@ impl Cli {
                 .find(|&command| command.name == *command_name)
                 .unwrap_or_else(|| {
                     println!("Command not found: {}", command_name);
-                    std::process::exit(0);
+                    std::process::exit(1);
                 });
 
             if args.contains(&"--help".to_string()) || args.contains(&"-h".to_string()) {
@@ -168,7 +168,7 @@ impl Command {
                         "The argument \"{}\" requires the argument \"{}\"",
                         arg.name, required
                     );
-                    std::process::exit(0);
+                    std::process::exit(1);
                 }
             }
         }
-- 
2.43.0


From a7f9721c7012cdbd8f842f6ae569015251ac633a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:36 +0000
Subject: [PATCH 17/32] fix: never take the value of one argument for another
 argument

---
 src/cli.rs | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index 3669f6a..f345432 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -157,13 +157,7 @@ impl Command {
         if arg.requires.is_some() {
             for required in arg.requires.as_ref().unwrap() {
                 let required_arg = self.find_arg(required).unwrap();
-                if !env_args
-                    .iter()
-                    .any(|s| *s == format!("-{}", required_arg.short))
-                    && !env_args
-                        .iter()
-                        .any(|s| *s == format!("--{}", required_arg.long))
-                {
+                if self.find_arg_position(env_args, required_arg).is_none() {
                     println!(
                         "The argument \"{}\" requires the argument \"{}\"",
                         arg.name, required
@@ -174,6 +168,28 @@ impl Command {
         }
     }
 
+    /// The position of an argument, values that belong to other arguments are never taken for it
+    fn find_arg_position(&self, env_args: &[String], arg: &Arg) -> Option<usize> {
+        let is_arg = |arg: &Arg, value: &str| {
+            value == format!("-{}", arg.short) || value == format!("--{}", arg.long)
+        };
+
+        let mut index = 2 + self.options.len();
+        while index < env_args.len() {
+            if is_arg(arg, &env_args[index]) {
+                return Some(index);
+            }
+
+            let takes_value = self
+                .args
+                .iter()
+                .any(|arg| arg.value_name.is_some() && is_arg(arg, &env_args[index]));
+            index += if takes_value { 2 } else { 1 };
+        }
+
+        None
+    }
+
     fn find_arg(&self, arg_name: &str) -> Option<&Arg> {
         self.args.iter().find(|&arg| arg.name == arg_name)
     }
@@ -185,9 +201,7 @@ impl Command {
             .find(|&arg| arg.name == arg_name)
             .map(|arg| {
                 let args: Vec<String> = env::args().collect();
-                let found = args
-                    .iter()
-                    .any(|s| *s == format!("-{}", arg.short) || *s == format!("--{}", arg.long));
+                let found = self.find_arg_position(&args, arg).is_some();
 
                 if found {
                     self.check_if_required_args_are_present(&args, arg);
@@ -235,9 +249,7 @@ impl Command {
             .find(|&arg| arg.name == arg_name)
             .and_then(|arg| {
                 let args: Vec<String> = env::args().collect();
-                let arg_index = args.iter().position(|s| {
-                    *s == format!("-{}", arg.short) || *s == format!("--{}", arg.long)
-                });
+                let arg_index = self.find_arg_position(&args, arg);
 
                 let value = arg_index.and_then(|index| args.get(index + 1));
                 value
-- 
2.43.0


From 98b38431b746f730ae241e99de6adc8201a1cbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:29 +0000
Subject: [PATCH 18/32] fix: skip files that cannot be converted in mass
 conversion

---
 src/commands/convert.rs | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/commands/convert.rs b/src/commands/convert.rs
index d639c59..4e448e5 100644
--- a/src/commands/convert.rs
+++ b/src/commands/convert.rs
@@ -69,14 +69,17 @@ pub fn convert_command(
             Err(err) => err.print().exit(),
         };
 
-        let program = convert_program(
+        let program = match convert_program(
             &program_file_type,
             input_path,
             display_mode,
             encode_mode,
             content,
             preview,
-        );
+        ) {
+            Ok(program) => program,
+            Err(err) => err.print().exit(),
+        };
 
         if output_path_string.is_some() {
             match program.save_to(&Path::new(&output_path_string.as_ref().unwrap()).to_path_buf()) {
@@ -156,14 +159,22 @@ pub fn convert_command(
             Err(err) => err.print().exit(),
         };
 
-        let program = convert_program(
+        let program = match convert_program(
             &file_type,
             &path,
             display_mode,
             encode_mode,
             content,
             preview,
-        );
+        ) {
+            Ok(program) => program,
+            Err(err) => {
+                println!("Failed to convert {}:", path.display());
+                err.print();
+                println!("Skipping file...");
+                continue;
+            }
+        };
 
         if output_path_string.is_some() {
             let name = program.metadata.name.to_string();
@@ -311,7 +322,7 @@ fn convert_program(
     encode_mode: EncodeMode,
     content: bool,
     preview: bool,
-) -> Program {
+) -> Result<Program, TiToolsError> {
     match program_file_type {
         ProgramFileType::XP | ProgramFileType::XPThree | ProgramFileType::XPTwo => {
             match Program::load_from_8xp(input_path.to_path_buf(), display_mode) {
@@ -331,9 +342,9 @@ fn convert_program(
                         println!("{}\n", program.to_string());
                     }
 
-                    program
+                    Ok(program)
                 }
-                Err(err) => err.print().exit(),
+                Err(err) => Err(err),
             }
         }
         ProgramFileType::TXT => {
@@ -354,9 +365,9 @@ fn convert_program(
                         println!("\n");
                     }
 
-                    program
+                    Ok(program)
                 }
-                Err(err) => err.print().exit(),
+                Err(err) => Err(err),
             }
         }
         ProgramFileType::JSON => match Program::load_from_json(input_path.to_path_buf()) {
@@ -386,9 +397,9 @@ fn convert_program(
                     println!("{}\n", program.to_string());
                 }
 
-                program
+                Ok(program)
             }
-            Err(err) => err.print().exit(),
+            Err(err) => Err(err),
         },
     }
 }
-- 
2.43.0


From 0b8159ed619434221f396709dac5ec244610cb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:31 +0000
Subject: [PATCH 19/32] fix: report extensions that are not valid UTF-8 as
 invalid

---
 src/calculator/program.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 9152a75..47576cc 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -451,7 +451,7 @@ pub fn get_file_type(path: &Path) -> Result<ProgramFileType, TiToolsError> {
             Some("txt") => Ok(ProgramFileType::TXT),
             Some("json") => Ok(ProgramFileType::JSON),
             _ => Err(TiToolsError::InvalidExtension(
-                ext.to_str().unwrap().to_string(),
+                ext.to_string_lossy().to_string(),
             )),
         },
         None => Err(TiToolsError::MissingExtension),
-- 
2.43.0


From 4339aa383ad6b812a7f3156eb9fef77290cd9d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:32 +0000
Subject: [PATCH 20/32] fix: keep mass converted files inside the output
 directory

---
 src/commands/convert.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/commands/convert.rs b/src/commands/convert.rs
index 4e448e5..22e868e 100644
--- a/src/commands/convert.rs
+++ b/src/commands/convert.rs
@@ -177,7 +177,11 @@ pub fn convert_command(
         };
 
         if output_path_string.is_some() {
-            let name = program.metadata.name.to_string();
+            // the name comes from the file, it must not lead out of the output directory
+            let mut name = program.metadata.name.replace(['/', '\\', ':'], "_");
+            if name.is_empty() {
+                name = path.file_stem().unwrap_or_default().to_string_lossy().to_string();
+            }
 
             match file_type {
                 ProgramFileType::XP
@@ -186,12 +190,10 @@ pub fn convert_command(
                 | ProgramFileType::TXT => {
                     let output_path = if file_type.is_8xp() {
                         Path::new(&output_path_string.as_ref().unwrap())
-                            .join(&name)
-                            .with_extension("txt")
+                            .join(format!("{}.txt", name))
                     } else {
                         Path::new(&output_path_string.as_ref().unwrap())
-                            .join(&name)
-                            .with_extension("8xp")
+                            .join(format!("{}.8xp", name))
                     };
 
                     match program.save_to(&output_path) {
@@ -233,12 +235,10 @@ pub fn convert_command(
                 }
                 ProgramFileType::JSON => {
                     let txt_output_path = Path::new(&output_path_string.as_ref().unwrap())
-                        .join(&name)
-                        .with_extension("txt");
+                        .join(format!("{}.txt", name));
 
                     let xp_output_path = Path::new(&output_path_string.as_ref().unwrap())
-                        .join(&name)
-                        .with_extension("8xp");
+                        .join(format!("{}.8xp", name));
 
                     match program.save_to(&txt_output_path) {
                         Ok(_) => {
-- 
2.43.0


From cd5f13bfaf543e3de747bb08b79be05918b4309b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:39 +0000
Subject: [PATCH 21/32] fix: store comments one byte per character, as they are
 read

---
 src/calculator/errors.rs  |  4 ++++
 src/calculator/program.rs | 10 ++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/calculator/errors.rs b/src/calculator/errors.rs
index ef3fc4f..6469832 100644
--- a/src/calculator/errors.rs
+++ b/src/calculator/errors.rs
@@ -21,6 +21,7 @@ pub enum TiToolsError {
     /**File, Error */
     FailedToWriteFile(String, String),
     InvalidCommentLength,
+    InvalidCommentCharacters,
     /**Type encode|decode */
     MassConversionInputNotDirectory(String),
     /**Type encode|decode */
@@ -73,6 +74,9 @@ impl TiToolsError {
             TiToolsError::InvalidCommentLength => {
                 "Comment must be 42 characters or less".to_string()
             }
+            TiToolsError::InvalidCommentCharacters => {
+                "Comment contains characters that can not be stored in a program".to_string()
+            }
             TiToolsError::MassConversionInputNotDirectory(conversion_type) => {
                 format!(
                     "When mass {} the input path must lead to a directory",
diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 47576cc..235283c 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -265,11 +265,17 @@ impl Header {
     }
 
     pub fn comment(&mut self, comment: String) -> Result<(), TiToolsError> {
-        if comment.len() > 42 {
+        // every character is stored in one byte, the same way it is read
+        let mut comment_bytes = comment
+            .chars()
+            .map(u8::try_from)
+            .collect::<Result<Vec<u8>, _>>()
+            .map_err(|_| TiToolsError::InvalidCommentCharacters)?;
+
+        if comment_bytes.len() > 42 {
             return Err(TiToolsError::InvalidCommentLength);
         }
 
-        let mut comment_bytes = comment.as_bytes().to_vec();
         while comment_bytes.len() != 42 {
             comment_bytes.push(0x00)
         }
-- 
2.43.0


From fdc1783e08b4c36d650744b536c862f3c8ebbc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:52 +0000
Subject: [PATCH 22/32] fix: report an output directory that cannot be created

---
 src/commands/convert.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/commands/convert.rs b/src/commands/convert.rs
index 22e868e..dda3148 100644
--- a/src/commands/convert.rs
+++ b/src/commands/convert.rs
@@ -118,8 +118,11 @@ pub fn convert_command(
         }
 
         println!("Creating output directory");
-        fs::create_dir(Path::new(&output_path_string.as_ref().unwrap()))
-            .expect("Failed to create directory")
+        if let Err(err) = fs::create_dir(Path::new(&output_path_string.as_ref().unwrap())) {
+            prints!("[color:bright-red]Error:[color:reset] Failed to create the output directory");
+            println!("{}", err);
+            std::process::exit(1);
+        }
     }
 
     for entry in fs::read_dir(input_path).expect("Failed to read directory") {
-- 
2.43.0


From 538703c3d5c3d330c47a80fd638dde78184f0909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:54 +0000
Subject: [PATCH 23/32] fix: report a mass conversion output path that is not a
 directory

---
 src/commands/convert.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/commands/convert.rs b/src/commands/convert.rs
index dda3148..1d6594f 100644
--- a/src/commands/convert.rs
+++ b/src/commands/convert.rs
@@ -125,6 +125,14 @@ pub fn convert_command(
         }
     }
 
+    if let Some(output_path) = &output_path_string {
+        if !Path::new(output_path).is_dir() {
+            TiToolsError::MassConversionOutputNotDirectory("converting".to_string())
+                .print()
+                .exit();
+        }
+    }
+
     for entry in fs::read_dir(input_path).expect("Failed to read directory") {
         let entry = match entry {
             Ok(entry) => entry,
-- 
2.43.0


From 756b412b2ba423b15bff1ab3e2f08ff81a9356d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:50 +0000
Subject: [PATCH 24/32] fix: keep line breaks at the end of a program in the
 txt format

---
 src/calculator/program.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 235283c..21c8477 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -192,7 +192,7 @@ impl Program {
                 write_to_file(path, output_bytes)?
             }
             ProgramFileType::TXT => {
-                let output_string = format!(
+                let mut output_string = format!(
                     "{}\n{}\n{}\n{}\n{}\n{}\n{}",
                     self.metadata.name.replace(['\n', '\r'], " "),
                     self.header.comment.replace(['\n', '\r'], " "),
@@ -202,6 +202,10 @@ impl Program {
                     self.model.model.to_string(),
                     &self.body.translation
                 );
+                // the line break at the end of the last line is not part of the text when it is read
+                if self.body.translation.ends_with('\n') {
+                    output_string.push('\n');
+                }
                 write_to_file(path, output_string)?
             }
             ProgramFileType::JSON => {
-- 
2.43.0


From 0e72e82155f6f04a399f75c9c6ea728a4b19ebf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:10 +0000
Subject: [PATCH 25/32] fix: encode line breaks at the end of a program

---
 src/calculator/file/encode.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/calculator/file/encode.rs b/src/calculator/file/encode.rs
index 140c373..4625116 100644
--- a/src/calculator/file/encode.rs
+++ b/src/calculator/file/encode.rs
@@ -101,7 +101,9 @@ pub fn encode(
         encoded_program.push(0x3F); // New line
     }
 
-    encoded_program.pop(); // Remove last new line
+    if !decoded_program.ends_with('\n') {
+        encoded_program.pop(); // Remove last new line
+    }
 
     Ok(encoded_program)
 }
-- 
2.43.0


From d4b2fa013dc4719f7c9d7789a911e2929ef1f847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:27 +0000
Subject: [PATCH 26/32] fix: refuse arguments that are not valid UTF-8 instead
 of crashing

---
 src/cli.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cli.rs b/src/cli.rs
index f345432..4faf1e9 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -76,6 +76,12 @@ impl Cli {
 
     /// Match the command being passed in the arguments
     pub fn match_commands(&self) -> &Command {
+        // every argument is used as text
+        if env::args_os().any(|arg| arg.to_str().is_none()) {
+            println!("Arguments must be valid UTF-8");
+            std::process::exit(1);
+        }
+
         let args: Vec<String> = env::args().collect();
         if args.contains(&"--help".to_string()) || args.contains(&"-h".to_string()) {}
 
-- 
2.43.0


From 5562aeb88ec2409c1239395bdc8d2cc2880a4bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:31 +0000
Subject: [PATCH 27/32] fix: report errors about paths that are not valid UTF-8
 instead of crashing

---
 src/calculator/program.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 21c8477..0db2bc3 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -24,7 +24,7 @@ impl Program {
     ) -> Result<Program, TiToolsError> {
         if !path.exists() {
             return Err(TiToolsError::FailedToFindFile(
-                path.to_str().unwrap().to_string(),
+                path.to_string_lossy().to_string(),
             ));
         }
 
@@ -64,7 +64,7 @@ impl Program {
     pub fn load_from_txt(path: PathBuf, encode_mode: &EncodeMode) -> Result<Program, TiToolsError> {
         if !path.exists() {
             return Err(TiToolsError::FailedToFindFile(
-                path.to_str().unwrap().to_string(),
+                path.to_string_lossy().to_string(),
             ));
         }
 
@@ -103,7 +103,7 @@ impl Program {
     pub fn load_from_json(path: PathBuf) -> Result<Program, TiToolsError> {
         if !path.exists() {
             return Err(TiToolsError::FailedToFindFile(
-                path.to_str().unwrap().to_string(),
+                path.to_string_lossy().to_string(),
             ));
         }
 
@@ -596,7 +596,7 @@ fn write_to_file<T: AsRef<[u8]>>(path: &PathBuf, content: T) -> Result<(), TiToo
         Ok(_) => Ok(()),
         Err(err) => {
             return Err(TiToolsError::FailedToWriteFile(
-                path.to_str().unwrap().to_string(),
+                path.to_string_lossy().to_string(),
                 err.to_string(),
             ))
         }
-- 
2.43.0


From eb2f147211078d705d5987b7f24e65eb46e243de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:09 +0000
Subject: [PATCH 28/32] fix: take an answer that can not be read for a no
 instead of crashing

---
 src/calculator/program.rs |  3 ++-
 src/commands/convert.rs   | 12 ++++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 0db2bc3..24f6f2b 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -144,7 +144,8 @@ impl Program {
             print!("> ");
             input.clear();
             std::io::stdout().flush().unwrap();
-            std::io::stdin().read_line(&mut input).unwrap();
+            // an answer that can not be read counts as no
+            let _ = std::io::stdin().read_line(&mut input);
             let input = input.trim();
             if input == "y" || input == "Y" {
                 println!("Replacing existing file");
diff --git a/src/commands/convert.rs b/src/commands/convert.rs
index 1d6594f..98f2581 100644
--- a/src/commands/convert.rs
+++ b/src/commands/convert.rs
@@ -110,7 +110,8 @@ pub fn convert_command(
         print!("> ");
         input.clear();
         std::io::stdout().flush().unwrap();
-        std::io::stdin().read_line(&mut input).unwrap();
+        // an answer that can not be read counts as no
+        let _ = std::io::stdin().read_line(&mut input);
         let input = input.trim();
         if input != "y" && input != "Y" {
             prints!("[color:bright-red]Error:[color:reset] An output directory must be created for files to be saved");
@@ -232,7 +233,8 @@ pub fn convert_command(
                             print!("> ");
                             input.clear();
                             std::io::stdout().flush().unwrap();
-                            std::io::stdin().read_line(&mut input).unwrap();
+                            // an answer that can not be read counts as no
+                            let _ = std::io::stdin().read_line(&mut input);
                             let input = input.trim();
                             if input != "y" && input != "Y" {
                                 TiToolsError::Quit("User chose to quit".to_string())
@@ -274,7 +276,8 @@ pub fn convert_command(
                             print!("> ");
                             input.clear();
                             std::io::stdout().flush().unwrap();
-                            std::io::stdin().read_line(&mut input).unwrap();
+                            // an answer that can not be read counts as no
+                            let _ = std::io::stdin().read_line(&mut input);
                             let input = input.trim();
                             if input != "y" && input != "Y" {
                                 TiToolsError::Quit("User chose to quit".to_string())
@@ -309,7 +312,8 @@ pub fn convert_command(
                             print!("> ");
                             input.clear();
                             std::io::stdout().flush().unwrap();
-                            std::io::stdin().read_line(&mut input).unwrap();
+                            // an answer that can not be read counts as no
+                            let _ = std::io::stdin().read_line(&mut input);
                             let input = input.trim();
                             if input != "y" && input != "Y" {
                                 TiToolsError::Quit("User chose to quit".to_string())
-- 
2.43.0


From 2bb2fd2397670aa0d32a8cd097de7bd7eebc20a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:06 +0000
Subject: [PATCH 29/32] fix: report a directory that can not be read instead of
 crashing

---
 src/commands/convert.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/commands/convert.rs b/src/commands/convert.rs
index 98f2581..735c70e 100644
--- a/src/commands/convert.rs
+++ b/src/commands/convert.rs
@@ -134,7 +134,14 @@ pub fn convert_command(
         }
     }
 
-    for entry in fs::read_dir(input_path).expect("Failed to read directory") {
+    let entries = match fs::read_dir(input_path) {
+        Ok(entries) => entries,
+        Err(err) => TiToolsError::FailedToReadDirectory(err.to_string())
+            .print()
+            .exit(),
+    };
+
+    for entry in entries {
         let entry = match entry {
             Ok(entry) => entry,
             Err(_) => {
-- 
2.43.0


From 2d970b2a0c334d5ce0f574f0e1b8096953697054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:07 +0000
Subject: [PATCH 30/32] fix: keep the old file when it may be the new file

---
 src/commands/edit/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/commands/edit/mod.rs b/src/commands/edit/mod.rs
index 46f766c..ca77770 100644
--- a/src/commands/edit/mod.rs
+++ b/src/commands/edit/mod.rs
@@ -45,6 +45,12 @@ fn save_edits(
         // the new file may have replaced the old one
         let same_file = match (input_path.canonicalize(), new_file_path.canonicalize()) {
             (Ok(old), Ok(new)) => old == new,
+            // the old file must not be deleted when it may be the new one
+            (Err(err), _) | (_, Err(err)) if delete_old => {
+                TiToolsError::FailedToDeleteFile(err.to_string())
+                    .print()
+                    .exit()
+            }
             _ => false,
         };
 
-- 
2.43.0


From 87b62424e0cc7d7c4e5eb7d982e05f95f9348472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:24 +0000
Subject: [PATCH 31/32] fix: keep links and permissions of a file that is
 replaced

---
 src/calculator/program.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 24f6f2b..2e4896c 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -577,8 +577,10 @@ pub fn calculate_checksum(metadata: &[u8], body: &[u8]) -> [u8; 2] {
 }
 
 fn write_to_file<T: AsRef<[u8]>>(path: &PathBuf, content: T) -> Result<(), TiToolsError> {
+    // a file that is replaced through a link is replaced where it is
+    let target = path.canonicalize().unwrap_or_else(|_| path.to_path_buf());
     // written next to the target first, so that a failed write keeps the existing file
-    let mut temp_path = path.to_path_buf().into_os_string();
+    let mut temp_path = target.clone().into_os_string();
     temp_path.push(format!(".{}.tmp", std::process::id()));
 
     let result = std::fs::OpenOptions::new()
@@ -586,8 +588,9 @@ fn write_to_file<T: AsRef<[u8]>>(path: &PathBuf, content: T) -> Result<(), TiToo
         .create_new(true)
         .open(&temp_path)
         .and_then(|mut file| {
-            file.write_all(content.as_ref())
-                .and_then(|_| std::fs::rename(&temp_path, path))
+            keep_permissions(&target, &file)
+                .and_then(|_| file.write_all(content.as_ref()))
+                .and_then(|_| std::fs::rename(&temp_path, &target))
                 .inspect_err(|_| {
                     let _ = std::fs::remove_file(&temp_path);
                 })
@@ -603,3 +606,10 @@ fn write_to_file<T: AsRef<[u8]>>(path: &PathBuf, content: T) -> Result<(), TiToo
         }
     }
 }
+
+fn keep_permissions(target: &Path, file: &std::fs::File) -> std::io::Result<()> {
+    if !target.exists() {
+        return Ok(());
+    }
+    file.set_permissions(std::fs::metadata(target)?.permissions())
+}
-- 
2.43.0


From 7cc8db1d7a8f852c9644931ee5e39795847db86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:37 +0000
Subject: [PATCH 32/32] fix: save under any file name the file system allows

---
 src/calculator/program.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 2e4896c..ade32d6 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -580,8 +580,7 @@ fn write_to_file<T: AsRef<[u8]>>(path: &PathBuf, content: T) -> Result<(), TiToo
     // a file that is replaced through a link is replaced where it is
     let target = path.canonicalize().unwrap_or_else(|_| path.to_path_buf());
     // written next to the target first, so that a failed write keeps the existing file
-    let mut temp_path = target.clone().into_os_string();
-    temp_path.push(format!(".{}.tmp", std::process::id()));
+    let temp_path = target.with_file_name(format!(".ti-tools-{}.tmp", std::process::id()));
 
     let result = std::fs::OpenOptions::new()
         .write(true)
-- 
2.43.0

